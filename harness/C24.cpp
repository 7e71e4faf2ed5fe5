// C24 Angles keep their meaning across units, types and arithmetic
// vp-rule: random, boundary and huge angle values in every combination of unit and value type; each converted, combined or compared angle against a long-double reference; non-trivial: value is not zero; counted by values
#include "flut/math/angle.hpp"
#include "flut/math/vec3.hpp"
#include <sstream>
#include "common.hpp"
using namespace vp;
using std::string;
using namespace flut::math;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
static ld rad_of( angle_unit u, ld v ) { return u == angle_unit::radians ? v : v * PI / 180; }
static ld in( angle_unit to, angle_unit from, ld v ) { return from == to ? v : to == angle_unit::radians ? v * PI / 180 : v * 180 / PI; }
template< typename T > ld eps() { return std::numeric_limits< T >::epsilon(); }
static ld mx( ld a, ld b ) { return a > b ? a : b; }
static double value( Rng& r ) { switch ( r.below( 6 ) ) { case 0: return r.pickd( { 0, 1, -1, 45, 90, 180, -180, 360, -360, 720, 3.14159265358979323846, -3.14159265358979323846, 1.5707963267948966, 6.283185307179586 } ); case 1: return r.real( -1e6, 1e6 ); case 2: return r.real( -1e-6, 1e-6 ); default: return r.real( -400, 400 ); } }
static const char* un( angle_unit u ) { return u == angle_unit::degrees ? " deg" : " rad"; }

/// conversion of an angle into another unit and value type
template< angle_unit U, typename T, angle_unit U2, typename T2 > void convert( const angle_<U, T>& a, Rng& r )
{
	ld e = 4 * mx( eps<T>(), eps<T2>() ), expect = in( U2, U, a.value ), tol = 4 * eps<T2>() * std::fabs( expect ); string w = num( a.value ) + un( U ) + " to" + un( U2 ) + ( sizeof( T2 ) == 4 ? " float" : " double" );
	angle_<U2, T2> b( a ); VP_CHECK( "construct", near( b.value, expect, tol ), w + " gives " + num( b.value ) );
	angle_<U2, T2> i = a; VP_CHECK( "implicit", near( i.value, expect, tol ), w );
	angle_<U2, T2> c; c = a; VP_CHECK( "assign", near( c.value, expect, tol ), w + " gives " + num( c.value ) );
	angle_<U, T> back( b ); VP_CHECK( "back", near( back.value, a.value, 2 * e * std::fabs( (ld)a.value ) ), w + " and back gives " + num( back.value ) );
	event( "conversion" );
}
template< angle_unit U, typename T > void angles( Rng& r )
{
	T x = T( value( r ) ), y = T( r.chance( 1, 5 ) ? x : value( r ) ); angle_<U, T> a( x ), b( y ); ld e = 4 * eps<T>(); string w = num( x ) + " and " + num( y ) + un( U );
	VP_CHECK( "stores", a.value == x, w );
	convert< U, T, angle_unit::degrees, double >( a, r ); convert< U, T, angle_unit::degrees, float >( a, r ); convert< U, T, angle_unit::radians, double >( a, r ); convert< U, T, angle_unit::radians, float >( a, r );
	ld dg = in( angle_unit::degrees, U, x ), rd = in( angle_unit::radians, U, x );
	VP_CHECK( "degrees", near( a.deg_value(), dg, e * std::fabs( dg ) ) && near( a.degree().value, dg, e * std::fabs( dg ) ), w ); VP_CHECK( "radians", near( a.rad_value(), rd, e * std::fabs( rd ) ) && near( a.radian().value, rd, e * std::fabs( rd ) ), w );
	if ( U == angle_unit::degrees ) VP_CHECK( "same-unit-exact", a.deg_value() == x && a.degree().value == x, w ); else VP_CHECK( "same-unit-exact", a.rad_value() == x && a.radian().value == x, w );
	ld m = std::fabs( (ld)x ) + std::fabs( (ld)y );
	VP_CHECK( "sum", near( ( a + b ).value, (ld)x + y, e * m ) && near( ( a - b ).value, (ld)x - y, e * m ), w );
	angle_<U, T> c( a ); c += b; VP_CHECK( "sum-assign", near( c.value, (ld)x + y, e * m ), w ); c = a; c -= b; VP_CHECK( "difference-assign", near( c.value, (ld)x - y, e * m ), w ); VP_CHECK( "negation", ( -a ).value == -x, w );
	{ angle_<U, T> z( a ); z -= z; VP_CHECK( "self-difference", z.value == 0, w ); z = a; z += z; VP_CHECK( "self-sum", z.value == x + x, w ); z = z; VP_CHECK( "self-assign", z.value == x + x, w ); }
	for ( int n : { 3, -7, 360 } ) { ld q = (ld)x / n; angle_<U, T> z( a ); z /= n; VP_CHECK( "divide-integer", near( ( a / n ).value, q, e * std::fabs( q ) ) && near( z.value, q, e * std::fabs( q ) ), w + " by " + num( n ) ); z = a; z *= n; VP_CHECK( "scale-integer", near( z.value, (ld)x * n, e * std::fabs( (ld)x * n ) ), w + " by " + num( n ) ); }
	// mixed value types: result carries the wider type
	angle_< U, double > ad( value( r ) ); angle_< U, float > af( value( r ) ); ld mm = std::fabs( (ld)ad.value ) + std::fabs( (ld)af.value ); auto s1 = ad + af; auto s2 = af - ad;
	VP_CHECK( "mixed-types", sizeof( s1.value ) == sizeof( double ) && sizeof( s2.value ) == sizeof( double ) && near( s1.value, (ld)ad.value + af.value, 4 * eps< double >() * mm ) && near( s2.value, (ld)af.value - ad.value, 4 * eps< double >() * mm ), num( ad.value ) + " and " + num( af.value ) );
	// mixed units: adding an angle of the other unit in place
	const angle_unit O = U == angle_unit::degrees ? angle_unit::radians : angle_unit::degrees; angle_< O, T > o( T( value( r ) ) ); ld ov = in( U, O, o.value ); string wo = w + " other unit " + num( o.value );
	c = a; c += o; VP_CHECK( "mixed-units", near( c.value, x + ov, e * ( std::fabs( (ld)x ) + std::fabs( ov ) ) ), wo ); c = a; c -= o; VP_CHECK( "mixed-units", near( c.value, x - ov, e * ( std::fabs( (ld)x ) + std::fabs( ov ) ) ), wo );
	if ( std::fabs( x - ov ) > 2 * e * ( std::fabs( (ld)x ) + std::fabs( ov ) ) ) VP_CHECK( "mixed-order", ( a < o ) == ( (ld)x < ov ) && ( a > o ) == ( (ld)x > ov ) && ( a <= o ) == ( (ld)x < ov ) && ( a >= o ) == ( (ld)x > ov ) && !( a == o ) && a != o, wo );
	T s = T( r.chance( 1, 6 ) ? r.pickd( { 1, -1, 2, 0.5 } ) : r.real( -9, 9 ) ); if ( std::fabs( s ) < T( 1e-3 ) ) s = 3; ld p = (ld)x * s, d = (ld)x / s; string ws = w + " scalar " + num( s );
	VP_CHECK( "scale", near( ( a * s ).value, p, e * std::fabs( p ) ) && near( ( s * a ).value, p, e * std::fabs( p ) ) && near( ( a * 3 ).value, (ld)x * 3, e * std::fabs( (ld)x * 3 ) ) && near( ( 3 * a ).value, (ld)x * 3, e * std::fabs( (ld)x * 3 ) ), ws );
	VP_CHECK( "divide", near( ( a / s ).value, d, e * std::fabs( d ) ), ws ); c = a; c *= s; VP_CHECK( "scale-assign", near( c.value, p, e * std::fabs( p ) ), ws ); c = a; c /= s; VP_CHECK( "divide-assign", near( c.value, d, e * std::fabs( d ) ), ws );
	if ( x != 0 ) VP_CHECK( "scalar-divided", near( ( s / a ).value, (ld)s / x, e * std::fabs( (ld)s / x ) ), ws );
	if ( r.chance( 1, 4 ) ) { y = x; for ( size_t k = r.below( 5 ); k; --k ) y = std::nextafter( y, r.chance( 1, 2 ) ? T( 1e30 ) : T( -1e30 ) ); b = angle_<U, T>( y ); w = num( x ) + " and " + num( y ) + un( U ) + " (neighbours)"; event( "neighbouring values" ); }
	VP_CHECK( "order", ( a < b ) == ( x < y ) && ( a > b ) == ( x > y ) && ( a <= b ) == ( x <= y ) && ( a >= b ) == ( x >= y ) && ( a == b ) == ( x == y ) && ( a != b ) == ( x != y ), w );
	VP_CHECK( "plain", float( a ) == float( x ) && double( a ) == double( x ), w );
	// trigonometry: argument rounding is multiplied by the slope of the function
	ld te = e * ( 1 + std::fabs( rd ) );
	VP_CHECK( "sin", near( sin( a ), std::sin( rd ), te ), w ); VP_CHECK( "cos", near( cos( a ), std::cos( rd ), te ), w ); if ( std::fabs( std::cos( rd ) ) > 0.01L ) { ld sl = 1 / ( std::cos( rd ) * std::cos( rd ) ); VP_CHECK( "tan", near( tan( a ), std::tan( rd ), 2 * te * ( 1 + sl ) ), w ); }
	if ( std::fabs( rd ) < 0.99L ) { VP_CHECK( "inverse-functions", near( asin( a ), std::asin( rd ), 60 * te ) && near( acos( a ), std::acos( rd ), 60 * te ), w ); event( "inverse functions" ); } VP_CHECK( "atan", near( atan( a ), std::atan( rd ), 2 * te ), w );
	if ( std::fabs( rd ) < 1e5L ) { angle_< O, T > other( a ); VP_CHECK( "unit-independent", near( sin( a ), sin( other ), 2 * te ) && near( cos( a ), cos( other ), 2 * te ), w ); }
	std::stringstream str; str.precision( std::numeric_limits< T >::max_digits10 ); str << a; angle_<U, T> in1; str >> in1; VP_CHECK( "stream", in1.value == x, w ); string txt = str.str(); HeapText ht( txt ); flut::char_stream cs( ht.p ); angle_<U, T> in2; cs >> in2; VP_CHECK( "char-stream", near( in2.value, x, e * std::fabs( (ld)x ) ), w );
	VP_CHECK( "functions", near( deg_to_rad( x ), (ld)x * PI / 180, e * std::fabs( (ld)x ) ) && near( rad_to_deg( x ), (ld)x * 180 / PI, e * std::fabs( (ld)x * 180 / PI ) ) && rad( x ).value == x && deg( x ).value == x && near( deg( x ).rad_value(), (ld)x * PI / 180, e * std::fabs( (ld)x ) ) && near( rad( x ).deg_value(), (ld)x * 180 / PI, e * std::fabs( (ld)x * 60 ) ), w );
	if ( x != 0 ) note( w ); if ( want_sample() ) sample( w );
}
PART( degrees_double, 5000, 200000 ) { angles< angle_unit::degrees, double >( r ); }
PART( degrees_float, 5000, 200000 ) { angles< angle_unit::degrees, float >( r ); }
PART( radians_double, 5000, 200000 ) { angles< angle_unit::radians, double >( r ); }
PART( radians_float, 5000, 200000 ) { angles< angle_unit::radians, float >( r ); }
PART( fixed, 1, 1 )
{
	VP_CHECK( "pi", near( degreed( 180 ).rad_value(), PI, 4 * eps< double >() ) && near( radiand( flut::constants< double >::pi() ).deg_value(), 180, 1e-13 ) && near( degreef( 180 ).rad_value(), PI, 4 * eps< float >() ), "180 degrees" );
	VP_CHECK( "constants", near( flut::constants< double >::pi(), PI, eps< double >() * 2 ) && near( flut::constants< double >::half_pi(), PI / 2, eps< double >() ) && near( flut::constants< double >::two_pi(), PI * 2, eps< double >() * 4 ) && near( flut::constants< float >::pi(), PI, eps< float >() * 2 ) && near( flut::constants< float >::half_pi(), PI / 2, eps< float >() ) && near( flut::constants< float >::two_pi(), PI * 2, eps< float >() * 4 ) && near( flut::double_pi, PI, eps< double >() * 2 ) && near( flut::float_pi, PI, eps< float >() * 2 ), "pi" );
	VP_CHECK( "literals", ( 90_degf ).value == 90.0f && ( 90.5_degf ).value == 90.5f && ( 2_radf ).value == 2.0f && ( 0.25_radf ).value == 0.25f && near( ( 180_degf ).rad_value(), PI, 4 * eps< float >() ), "literals" );
	VP_CHECK( "default", degreed().value == 0 && radianf().value == 0, "default angle" ); note( "fixed" ); event( "constants and literals" );
	radiand q( 1.5 ); radiand c( q ); std::vector< radiand > v( 3, q ); VP_CHECK( "copies", c == q && v[ 2 ] == q, "1.5" );
}
