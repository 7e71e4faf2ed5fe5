// C23 Vectors, quaternions and transforms obey the laws of 3-D geometry
// vp-rule: random and degenerate vectors, rotations, directions and transforms in float and double; each result against a long-double matrix reference or an algebraic law; non-trivial: no operand is zero or the identity; counted by operands
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/mat33.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounding_box.hpp"
#include <sstream>
#include "common.hpp"
using namespace vp;
using std::string;
using namespace flut::math;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;

struct V { ld x, y, z; };
static V operator+( V a, V b ) { return V{ a.x + b.x, a.y + b.y, a.z + b.z }; }
static V operator-( V a, V b ) { return V{ a.x - b.x, a.y - b.y, a.z - b.z }; }
static V operator*( ld s, V a ) { return V{ s * a.x, s * a.y, s * a.z }; }
static ld dot( V a, V b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross( V a, V b ) { return V{ a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static ld len( V a ) { return std::sqrt( dot( a, a ) ); }
struct M { ld m[ 3 ][ 3 ]; };
static V operator*( const M& m, V v ) { return V{ m.m[ 0 ][ 0 ] * v.x + m.m[ 0 ][ 1 ] * v.y + m.m[ 0 ][ 2 ] * v.z, m.m[ 1 ][ 0 ] * v.x + m.m[ 1 ][ 1 ] * v.y + m.m[ 1 ][ 2 ] * v.z, m.m[ 2 ][ 0 ] * v.x + m.m[ 2 ][ 1 ] * v.y + m.m[ 2 ][ 2 ] * v.z }; }
static M operator*( const M& a, const M& b ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { r.m[ i ][ j ] = 0; for ( int k = 0; k < 3; ++k ) r.m[ i ][ j ] += a.m[ i ][ k ] * b.m[ k ][ j ]; } return r; }
static V col( const M& a, int j ) { return V{ a.m[ 0 ][ j ], a.m[ 1 ][ j ], a.m[ 2 ][ j ] }; }
static M transposed( const M& a ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.m[ i ][ j ] = a.m[ j ][ i ]; return r; }
/// rotation about a unit axis
static M rodrigues( V k, ld a ) { ld c = std::cos( a ), s = std::sin( a ), t = 1 - c; return M{ { { t * k.x * k.x + c, t * k.x * k.y - s * k.z, t * k.x * k.z + s * k.y }, { t * k.x * k.y + s * k.z, t * k.y * k.y + c, t * k.y * k.z - s * k.x }, { t * k.x * k.z - s * k.y, t * k.y * k.z + s * k.x, t * k.z * k.z + c } } }; }
template< typename T > M matrix( const quat_<T>& q ) { ld w = q.w, x = q.x, y = q.y, z = q.z; return M{ { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) }, { 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ) }, { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } } }; }
static ld diff( const M& a, const M& b ) { ld d = 0; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { ld e = std::fabs( a.m[ i ][ j ] - b.m[ i ][ j ] ); if ( !( e <= d ) ) d = e; } return d; }
template< typename T > V up( const vec3_<T>& v ) { return V{ v.x, v.y, v.z }; }
template< typename T > vec3_<T> down( V v ) { return vec3_<T>( T( v.x ), T( v.y ), T( v.z ) ); }
static bool close( V a, V b, ld tol ) { return near( a.x, b.x, tol ) && near( a.y, b.y, tol ) && near( a.z, b.z, tol ); }
static string sh( V v ) { return "(" + num( (double)v.x ) + "," + num( (double)v.y ) + "," + num( (double)v.z ) + ")"; }
template< typename T > string sh( const vec3_<T>& v ) { return sh( up( v ) ); }
template< typename T > string sh( const quat_<T>& q ) { return "[" + num( q.w ) + "," + num( q.x ) + "," + num( q.y ) + "," + num( q.z ) + "]"; }
template< typename T > ld eps() { return std::numeric_limits< T >::epsilon(); }

static ld comp( Rng& r ) { switch ( r.below( 8 ) ) { case 0: return 0; case 1: return r.pickd( { 1, -1, 0.5, 2, 1000, -1e-3 } ); case 2: return r.real( -1000, 1000 ); case 3: return r.real( -1e-3, 1e-3 ); default: return r.real( -5, 5 ); } }
template< typename T > vec3_<T> rvec( Rng& r ) { return vec3_<T>( T( comp( r ) ), T( comp( r ) ), T( comp( r ) ) ); }
static V runit( Rng& r )
{
	if ( r.chance( 1, 5 ) ) { V v{ 0, 0, 0 }; ld s = r.chance( 1, 2 ) ? 1 : -1; switch ( r.below( 3 ) ) { case 0: v.x = s; break; case 1: v.y = s; break; default: v.z = s; } return v; }
	for ( ;; ) { V v{ r.real( -1, 1 ), r.real( -1, 1 ), r.chance( 1, 6 ) ? 0 : r.real( -1, 1 ) }; ld l = len( v ); if ( l > 0.05L ) return ( 1 / l ) * v; }
}
static ld rangle( Rng& r ) { switch ( r.below( 8 ) ) { case 0: return 0; case 1: return r.pickd( { 1, -1, 0.5, -0.5, 1.5, 2, -2 } ) * PI; case 2: return r.real( -1e-3, 1e-3 ); case 3: return r.real( -20, 20 ); case 4: return PI + r.real( -1e-3, 1e-3 ); default: return r.real( -(double)PI, (double)PI ); } }
template< typename T > quat_<T> rquat( Rng& r )
{
	if ( r.chance( 1, 30 ) ) return quat_<T>();
	if ( r.chance( 1, 2 ) ) { ld a = rangle( r ) / 2; V k = runit( r ); ld s = std::sin( a ); return quat_<T>( T( std::cos( a ) ), T( s * k.x ), T( s * k.y ), T( s * k.z ) ); }
	for ( ;; ) { ld w = r.real( -1, 1 ), x = r.real( -1, 1 ), y = r.real( -1, 1 ), z = r.real( -1, 1 ), l = std::sqrt( w * w + x * x + y * y + z * z ); if ( l > 0.1L ) return quat_<T>( T( w / l ), T( x / l ), T( y / l ), T( z / l ) ); }
}

template< typename T > void vectors( Rng& r )
{
	vec3_<T> a = rvec<T>( r ), b = rvec<T>( r ); T s = T( r.chance( 1, 6 ) ? r.pickd( { 1, -1, 2, 0.25 } ) : r.real( -9, 9 ) ); if ( s == 0 ) s = 1;
	V A = up( a ), B = up( b ); string w = sh( a ) + " " + sh( b ) + " " + num( s ); ld e = 4 * eps<T>(), m = std::fabs( A.x ) + std::fabs( A.y ) + std::fabs( A.z ) + std::fabs( B.x ) + std::fabs( B.y ) + std::fabs( B.z );
	VP_CHECK( "sum", close( up( a + b ), A + B, e * m ), w ); VP_CHECK( "difference", close( up( a - b ), A - B, e * m ), w );
	VP_CHECK( "negation", close( up( -a ), V{ -A.x, -A.y, -A.z }, 0 ), w );
	vec3_<T> c = a; VP_CHECK( "sum-assign", &( c += b ) == &c && close( up( c ), A + B, e * m ), w ); c = a; c -= b; VP_CHECK( "difference-assign", close( up( c ), A - B, e * m ), w );
	ld ms = m * std::fabs( (ld)s );
	VP_CHECK( "scale", close( up( a * s ), (ld)s * A, e * ms ) && close( up( s * a ), (ld)s * A, e * ms ) && close( up( 3 * a ), 3.0L * A, e * m * 3 ) && close( up( a * 3 ), 3.0L * A, e * m * 3 ), w );
	c = a; c *= s; VP_CHECK( "scale-assign", close( up( c ), (ld)s * A, e * ms ), w );
	VP_CHECK( "divide", close( up( a / s ), ( 1 / (ld)s ) * A, e * m / std::fabs( (ld)s ) ), w ); c = a; c /= s; VP_CHECK( "divide-assign", close( up( c ), ( 1 / (ld)s ) * A, e * m / std::fabs( (ld)s ) ), w );
	V P{ A.x * B.x, A.y * B.y, A.z * B.z }; VP_CHECK( "component-product", close( up( a * b ), P, e * m * m ), w ); c = a; c *= b; VP_CHECK( "component-product-assign", close( up( c ), P, e * m * m ), w );
	VP_CHECK( "component-product-rel", near( ( a * b ).z, P.z, e * std::fabs( P.z ) ) && near( ( a * b ).x, P.x, e * std::fabs( P.x ) ) && near( ( a * b ).y, P.y, e * std::fabs( P.y ) ), w );
	ld l2 = dot( A, A ), l = std::sqrt( l2 );
	VP_CHECK( "length", near( a.length(), l, e * l ) && near( length( a ), l, e * l ) && near( a.squared_length(), l2, e * l2 ) && near( squared_length( a ), l2, e * l2 ), w );
	VP_CHECK( "distance", near( distance( a, b ), len( A - B ), e * m ) && distance( a, a ) == 0, w );
	VP_CHECK( "dot", near( dot_product( a, b ), dot( A, B ), e * m * m ) , w ); VP_CHECK( "cross", close( up( cross_product( a, b ) ), cross( A, B ), e * m * m ), w );
	{ const vec3_<T> k = a; T each[ 3 ] = { a.x, a.y, a.z }; int i = 0; for ( auto& x : k ) VP_CHECK( "component-iteration", i < 3 && x == each[ i++ ], w ); VP_CHECK( "component-iteration", i == 3, w ); for ( i = 0; i < 3; ++i ) VP_CHECK( "component-index", k[ i ] == each[ i ] && &k[ i ] == k.begin() + i, w ); }
	VP_CHECK( "null", a.is_null() == ( A.x == 0 && A.y == 0 && A.z == 0 ), w );
	VP_CHECK( "equal", ( a == b ) == ( A.x == B.x && A.y == B.y && A.z == B.z ) && ( a != b ) == !( a == b ) && a == vec3_<T>( a ), w );
	for ( int i = 0; i < 3; ++i ) { c = a; c[ i ] += 1 + std::fabs( c[ i ] ); VP_CHECK( "equal-each", !( c == a ) && c != a, w + " component " + num( i ) ); c = vec3_<T>(); c[ i ] = 1; VP_CHECK( "null-each", !c.is_null() && c == vec3_<T>::unit( i ), w ); }
	VP_CHECK( "elements", a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z && a.end() - a.begin() == 3 && std::equal( a.begin(), a.end(), std::vector< T >{ a.x, a.y, a.z }.begin() ), w );
	if ( l > 1e-3L )
	{
		VP_CHECK( "normalized", close( up( normalized( a ) ), ( 1 / l ) * A, e ) && close( up( a.normalized() ), ( 1 / l ) * A, e ), w );
		c = a; normalize( c ); VP_CHECK( "normalize", close( up( c ), ( 1 / l ) * A, e ) && std::fabs( len( up( c ) ) - 1 ) <= 2 * e, w ); event( "normalised" );
		V u = ( 1 / l ) * A; VP_CHECK( "is-normalized", is_normalized( down<T>( u ) ) && !is_normalized( down<T>( 1.01L * u ) ) && !is_normalized( down<T>( 0.99L * u ) ), w );
	}
	vec3_<T> z; normalize( z ); VP_CHECK( "zero-stays", z.is_null() && normalized( vec3_<T>() ).is_null(), "zero vector" );
	c = a; c.clear(); VP_CHECK( "clear", c.is_null(), w ); c.set( b.x, b.y, b.z ); VP_CHECK( "set", c == b, w );
	vec3_< double > dd( a ); vec3_< float > ff; ff = b; VP_CHECK( "convert", dd.x == double( a.x ) && dd.y == double( a.y ) && dd.z == double( a.z ) && ff.x == float( b.x ) && ff.y == float( b.y ) && ff.z == float( b.z ), w );
	VP_CHECK( "constants", close( up( vec3_<T>::unit_x() ), V{ 1, 0, 0 }, 0 ) && close( up( vec3_<T>::unit_y() ), V{ 0, 1, 0 }, 0 ) && close( up( vec3_<T>::unit_z() ), V{ 0, 0, 1 }, 0 ) && close( up( vec3_<T>::neg_unit_x() ), V{ -1, 0, 0 }, 0 ) && close( up( vec3_<T>::neg_unit_y() ), V{ 0, -1, 0 }, 0 ) && close( up( vec3_<T>::neg_unit_z() ), V{ 0, 0, -1 }, 0 ) && vec3_<T>::zero().is_null() && close( up( vec3_<T>::uniform( s ) ), V{ s, s, s }, 0 ) && close( up( vec3_<T>( s ) ), V{ s, s, s }, 0 ), w );
	std::stringstream str; str.precision( std::numeric_limits< T >::max_digits10 ); str << a << ' ' << b; vec3_<T> a2, b2; str >> a2 >> b2; VP_CHECK( "stream", a2 == a && b2 == b, w );
	ld rad = r.real( 0.1, 9 ), inc = r.real( 0, (double)PI ), az = r.real( -3, 3 ); T tr = T( rad ), ti = T( inc ), ta = T( az );
	V pol{ tr * std::sin( (ld)ti ) * std::sin( (ld)ta ), tr * std::cos( (ld)ti ), tr * std::sin( (ld)ti ) * std::cos( (ld)ta ) };
	VP_CHECK( "polar", close( up( vec3_from_polar( tr, radian_<T>( ti ), radian_<T>( ta ) ) ), pol, 4 * e * rad ), num( tr ) + " " + num( ti ) + " " + num( ta ) );
	event( "vector pairs" ); if ( l > 0 && len( B ) > 0 ) note( w ); if ( want_sample() ) sample( w );
	// four components
	T q[ 8 ]; for ( auto& x : q ) x = T( comp( r ) ); vec4_<T> f( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ] ), g( q[ 4 ], q[ 5 ], q[ 6 ], q[ 7 ] ); ld l4 = 0; string w4;
	for ( int i = 0; i < 4; ++i ) { l4 += (ld)q[ i ] * q[ i ]; w4 += num( q[ i ] ) + " " + num( q[ i + 4 ] ) + " "; }
	auto sum = f + g, dif = f - g, neg = -f, sc = f * s, cs = s * f, dv = f / s; auto s2 = f, d2 = f, m2 = f, v2 = f; s2 += g; d2 -= g; m2 *= s; v2 /= s;
	for ( int i = 0; i < 4; ++i )
	{
		ld x = q[ i ], y = q[ i + 4 ], t = e * ( std::fabs( x ) + std::fabs( y ) ), k = s; string wi = w4 + "component " + num( i );
		VP_CHECK( "vec4-sum", near( sum[ i ], x + y, t ) && near( s2[ i ], x + y, t ) && near( dif[ i ], x - y, t ) && near( d2[ i ], x - y, t ) && neg[ i ] == -q[ i ], wi );
		VP_CHECK( "vec4-scale", near( sc[ i ], x * k, e * std::fabs( x * k ) ) && near( cs[ i ], x * k, e * std::fabs( x * k ) ) && near( m2[ i ], x * k, e * std::fabs( x * k ) ) && near( dv[ i ], x / k, e * std::fabs( x / k ) ) && near( v2[ i ], x / k, e * std::fabs( x / k ) ), wi );
		vec4_<T> n; n[ i ] = 1; VP_CHECK( "vec4-null", !n.is_null() && vec4_<T>().is_null() && vec4_<T>::zero().is_null(), wi );
		vec4_<T> u = i == 0 ? vec4_<T>::unit_x() : i == 1 ? vec4_<T>::unit_y() : i == 2 ? vec4_<T>::unit_z() : vec4_<T>::unit_w(); for ( int j = 0; j < 4; ++j ) VP_CHECK( "vec4-unit", u[ j ] == T( i == j ), wi );
	}
	VP_CHECK( "vec4-length", near( f.length(), std::sqrt( l4 ), e * std::sqrt( l4 ) ) && near( f.squared_length(), l4, e * l4 ), w4 );
}
PART( vectors_double, 6000, 250000 ) { vectors< double >( r ); }
PART( vectors_float, 6000, 250000 ) { vectors< float >( r ); }

template< typename T > void rotations( Rng& r )
{
	quat_<T> q = rquat<T>( r ), p = rquat<T>( r ); vec3_<T> a = rvec<T>( r ), b = rvec<T>( r ); V A = up( a ), B = up( b ); M Q = matrix( q ), P = matrix( p );
	string w = sh( q ) + " " + sh( p ) + " " + sh( a ) + " " + sh( b ); ld e = 16 * eps<T>(), l = len( A ), k = len( B );
	VP_CHECK( "rotate", close( up( q * a ), Q * A, e * l ), w ); VP_CHECK( "length-kept", near( length( q * a ), l, e * l ), w );
	VP_CHECK( "angle-kept", near( dot_product( q * a, q * b ), dot( A, B ), 2 * e * l * k ), w );
	VP_CHECK( "handedness-kept", close( up( q * cross_product( a, b ) ), cross( up( q * a ), up( q * b ) ), 4 * e * l * k ), w );
	VP_CHECK( "compose", close( up( ( q * p ) * a ), Q * ( P * A ), 2 * e * l ) && close( up( q * ( p * a ) ), Q * ( P * A ), 2 * e * l ), w );
	VP_CHECK( "conjugate", close( up( -q * ( q * a ) ), A, 2 * e * l ) && close( up( -q * a ), transposed( Q ) * A, e * l ), w );
	quat_<T> i = q * -q; VP_CHECK( "conjugate-product", near( i.w, 1, e ) && near( i.x, 0, e ) && near( i.y, 0, e ) && near( i.z, 0, e ), w );
	VP_CHECK( "identity", quat_<T>() * a == a && quat_<T>::identity() * a == a, w );
	VP_CHECK( "unit", near( length( q ), 1, e ) && is_normalized( q ), w );
	T s = r.chance( 1, 2 ) ? T( 1 + r.pickd( { -1, 1 } ) * std::pow( 10.0, -r.real( 0.5, 8 ) ) ) : T( r.real( 0.01, 50 ) ); quat_<T> n(  q.w * s, q.x * s, q.y * s, q.z * s ), n2 = n; normalize( n2 ); quat_<T> n3 = normalized( n );
	VP_CHECK( "normalize-quat", near( n2.w, q.w, e ) && near( n2.x, q.x, e ) && near( n2.y, q.y, e ) && near( n2.z, q.z, e ), w ); VP_CHECK( "normalized-quat", near( n3.w, q.w, e ) && near( n3.x, q.x, e ) && near( n3.y, q.y, e ) && near( n3.z, q.z, e ), w );
	VP_CHECK( "length-quat", near( length( n ), s, e * s ) && ( std::fabs( s - 1 ) < 0.01 || !is_normalized( n ) ), w );
	quat_<T> qq = quat_from_quats( q, p ); VP_CHECK( "between-quats", diff( Q * matrix( qq ), P ) <= 4 * e, w );
	// rotation vector, axis and angle
	vec3_<T> rv = rotation_vector_from_quat( q ); ld al = len( up( rv ) ); M R = al > 0 ? rodrigues( ( 1 / al ) * up( rv ), al ) : rodrigues( V{ 1, 0, 0 }, 0 );
	VP_CHECK( "rotation-vector", diff( R, Q ) <= 2 * e, w + " gives " + sh( rv ) );
	auto aa = axis_angle_from_quat( q ); VP_CHECK( "axis-angle", near( len( up( aa.first ) ), 1, e ) && diff( rodrigues( up( aa.first ), aa.second.value ), Q ) <= 2 * e, w + " gives " + sh( aa.first ) + " " + num( aa.second.value ) );
	quat_<T> ax = quat_from_axes( down<T>( col( Q, 0 ) ), down<T>( col( Q, 1 ) ), down<T>( col( Q, 2 ) ) ); int big = Q.m[ 0 ][ 0 ] + Q.m[ 1 ][ 1 ] + Q.m[ 2 ][ 2 ] > 0 ? 3 : Q.m[ 0 ][ 0 ] >= Q.m[ 1 ][ 1 ] && Q.m[ 0 ][ 0 ] >= Q.m[ 2 ][ 2 ] ? 0 : Q.m[ 1 ][ 1 ] >= Q.m[ 2 ][ 2 ] ? 1 : 2;
	event( big == 3 ? "axes: small rotation" : big == 0 ? "axes: mostly about x" : big == 1 ? "axes: mostly about y" : "axes: mostly about z" );
	VP_CHECK( "axes", diff( matrix( ax ), Q ) <= 4 * e, w + " gives " + sh( ax ) );
	mat33_<T> mm = mat33_from_axes( a, b, vec3_<T>( 7, 8, 9 ) ); VP_CHECK( "matrix", mm[ 0 ][ 0 ] == a.x && mm[ 1 ][ 0 ] == a.y && mm[ 2 ][ 0 ] == a.z && mm[ 0 ][ 1 ] == b.x && mm[ 1 ][ 1 ] == b.y && mm[ 2 ][ 1 ] == b.z && mm[ 0 ][ 2 ] == 7 && mm[ 1 ][ 2 ] == 8 && mm[ 2 ][ 2 ] == 9, w );
	std::stringstream str; str.precision( std::numeric_limits< T >::max_digits10 ); str << q; quat_<T> back( 9, 9, 9, 9 ); str >> back.w >> back.x >> back.y >> back.z; VP_CHECK( "stream-quat", back.w == q.w && back.x == q.x && back.y == q.y && back.z == q.z, w + " printed " + str.str() );
	quat_< double > qd( q ); quat_< float > qf; qf = p; VP_CHECK( "convert-quat", qd.w == double( q.w ) && qd.x == double( q.x ) && qd.y == double( q.y ) && qd.z == double( q.z ) && qf.w == float( p.w ) && qf.x == float( p.x ) && qf.y == float( p.y ) && qf.z == float( p.z ), w );
	qf.set( 1, 2, 3, 4 ); VP_CHECK( "set-quat", qf.w == 1 && qf.x == 2 && qf.y == 3 && qf.z == 4, w );
	// transforms
	transform_<T> t( b, q ), u( a, p ); vec3_<T> v = rvec<T>( r ); V W = up( v ); ld m = 4 * e * ( l + k + len( W ) );
	VP_CHECK( "transform", close( up( t * v ), B + Q * W, m ) && close( up( t.transform( v ) ), B + Q * W, m ), w ); VP_CHECK( "transform-undone", close( up( t.inverse() * ( t * v ) ), W, m ) && close( up( -t * ( t * v ) ), W, m ) && close( up( t.inv_transform( t.transform( v ) ) ), W, m ) && close( up( t * t.inv_transform( v ) ), W, m ), w );
	VP_CHECK( "transform-compose", close( up( ( t * u ) * v ), B + Q * ( A + P * W ), m ) && close( up( t.transform( u ) * v ), B + Q * ( A + P * W ), m ), w );
	auto tu = t.inv_transform( u ); VP_CHECK( "transform-relative", close( up( tu * v ), transposed( Q ) * ( A + P * W - B ), m ), w );
	VP_CHECK( "transform-quat", diff( matrix( t * p ), Q * P ) <= 4 * e && diff( matrix( t.transform( p ) ), Q * P ) <= 4 * e && diff( matrix( t.inv_transform( p ) ), transposed( Q ) * P ) <= 4 * e, w );
	VP_CHECK( "transform-simple", transform_<T>::identity() * v == v && close( up( transform_<T>( b ) * v ), B + W, m ) && close( up( transform_<T>( q ) * v ), Q * W, m ) && transform_<T>() * v == v, w );
	event( "rotation pairs" ); if ( std::fabs( q.w ) < 1 && std::fabs( p.w ) < 1 && l > 0 ) note( w ); if ( want_sample() ) sample( w );
}
PART( rotations_double, 8000, 300000 ) { rotations< double >( r ); }
PART( rotations_float, 8000, 300000 ) { rotations< float >( r ); }

template< typename T > void constructions( Rng& r )
{
	V k = runit( r ); ld a = rangle( r ); T t = T( a ), d = T( a * 180 / PI ); ld e = 16 * eps<T>() * ( 1 + std::fabs( a ) ); string w = "axis " + sh( k ) + " angle " + num( t );
	V kt = up( down<T>( k ) );
	M R = rodrigues( kt, t ); VP_CHECK( "from-axis-angle", diff( matrix( quat_from_axis_angle( down<T>( k ), radian_<T>( t ) ) ), R ) <= e, w );
	VP_CHECK( "from-axis-degrees", diff( matrix( quat_from_axis_angle( down<T>( k ), degree_<T>( d ) ) ), R ) <= e, w ); event( "axis and angle" );
	ld x = rangle( r ), y = rangle( r ), z = rangle( r ); T tx = T( x ), ty = T( y ), tz = T( z ); M X = rodrigues( V{ 1, 0, 0 }, tx ), Y = rodrigues( V{ 0, 1, 0 }, ty ), Z = rodrigues( V{ 0, 0, 1 }, tz );
	ld ee = 16 * eps<T>() * ( 1 + std::fabs( x ) + std::fabs( y ) + std::fabs( z ) ); string we = "Euler angles " + num( tx ) + " " + num( ty ) + " " + num( tz );
	struct { euler_order o; M m; const char* n; } all[] = { { euler_order::xyz, X * Y * Z, "xyz" }, { euler_order::xzy, X * Z * Y, "xzy" }, { euler_order::yxz, Y * X * Z, "yxz" }, { euler_order::yzx, Y * Z * X, "yzx" }, { euler_order::zxy, Z * X * Y, "zxy" }, { euler_order::zyx, Z * Y * X, "zyx" } };
	radian_<T> rx( tx ), ry( ty ), rz( tz ); degree_<T> dx( T( x * 180 / PI ) ), dy( T( y * 180 / PI ) ), dz( T( z * 180 / PI ) );
	for ( auto& o : all )
	{
		VP_CHECK( string( "euler-" ) + o.n, diff( matrix( quat_from_euler( rx, ry, rz, o.o ) ), o.m ) <= ee, we ); event( "Euler angles" );
		VP_CHECK( string( "euler-degrees-" ) + o.n, diff( matrix( quat_from_euler( dx, dy, dz, o.o ) ), o.m ) <= ee, we );
		VP_CHECK( string( "euler-vector-" ) + o.n, diff( matrix( quat_from_euler( vec3_< radian_<T> >( rx, ry, rz ), o.o ) ), o.m ) <= ee, we );
	}
	VP_CHECK( "euler-default", diff( matrix( quat_from_euler( rx, ry, rz ) ), all[ 0 ].m ) <= ee && diff( matrix( quat_from_euler( vec3_< radian_<T> >( rx, ry, rz ) ) ), all[ 0 ].m ) <= ee, we );
	// a rotation about one coordinate axis converts back to its angle
	ld s = r.real( -3.13, 3.13 ); T ts = T( s ); quat_<T> sx( T( std::cos( s / 2 ) ), T( std::sin( s / 2 ) ), 0, 0 ), sy( sx.w, 0, sx.x, 0 ), sz( sx.w, 0, 0, sx.x ); ld et = 32 * eps<T>();
	auto ex = euler_from_quat( sx ), ey = euler_from_quat( sy ), ez = euler_from_quat( sz );
	VP_CHECK( "back-x", near( ex.x.value, ts, et ) && near( pitch( sx ).value, ts, et ), num( ts ) ); VP_CHECK( "back-y", near( ey.y.value, ts, et ) && near( yaw( sy ).value, ts, et ), num( ts ) ); VP_CHECK( "back-z", near( ez.z.value, ts, et ) && near( roll( sz ).value, ts, et ), num( ts ) );
	// pitch, yaw and roll of any rotation: how far it turns the y axis in the yz plane, the z axis in the zx plane and the x axis in the xy plane
	{
		quat_<T> g = rquat<T>( r ); M G = matrix( g ); auto turned = [&]( ld sn, ld cs, T got ) { ld l = std::sqrt( sn * sn + cs * cs ); return l < 0.05L || ( near( std::sin( (ld)got ) * l, sn, 64 * eps<T>() ) && near( std::cos( (ld)got ) * l, cs, 64 * eps<T>() ) ); };
		VP_CHECK( "pitch", turned( G.m[ 2 ][ 1 ], G.m[ 1 ][ 1 ], pitch( g ).value ), sh( g ) + " gives " + num( pitch( g ).value ) ); VP_CHECK( "yaw", turned( G.m[ 0 ][ 2 ], G.m[ 2 ][ 2 ], yaw( g ).value ), sh( g ) + " gives " + num( yaw( g ).value ) ); VP_CHECK( "roll", turned( G.m[ 1 ][ 0 ], G.m[ 0 ][ 0 ], roll( g ).value ), sh( g ) + " gives " + num( roll( g ).value ) ); event( "general pitch, yaw and roll" );
	}
	if ( std::fabs( s ) < 1.5 ) VP_CHECK( "back-others", near( ex.y.value, 0, et ) && near( ex.z.value, 0, et ) && near( ey.x.value, 0, et ) && near( ey.z.value, 0, et ) && near( ez.x.value, 0, et ) && near( ez.y.value, 0, et ), num( ts ) );
	note( w + we ); if ( want_sample() ) sample( w );
}
PART( constructions_double, 6000, 250000 ) { constructions< double >( r ); }
PART( constructions_float, 6000, 250000 ) { constructions< float >( r ); }

template< typename T > void directions( Rng& r )
{
	V s = runit( r ), t; const char* kind; ld root = std::sqrt( eps<T>() );
	switch ( r.below( 8 ) )
	{
	case 6: t = s + ld( std::pow( 10.0, -r.real( 0, 10 ) ) ) * runit( r ); kind = "small angle"; break;
	case 7: t = V{ -s.x, -s.y, -s.z } + ld( std::pow( 10.0, -r.real( 0, 10 ) ) ) * runit( r ); if ( len( t ) < 0.1L ) return; kind = "small angle from opposite"; break;
	case 0: t = s; kind = "equal"; break;
	case 1: t = V{ -s.x, -s.y, -s.z }; kind = "opposite"; break;
	case 2: t = s + ( root * r.real( 0, 12 ) ) * runit( r ); kind = "almost equal"; break;
	case 3: t = V{ -s.x, -s.y, -s.z } + ( root * r.real( 0, 12 ) ) * runit( r ); kind = "almost opposite"; break;
	case 4: { V c = cross( s, runit( r ) ); if ( len( c ) < 0.1L ) return; t = c; kind = "perpendicular"; break; }
	default: t = runit( r ); kind = "any";
	}
	ld ls = r.chance( 1, 3 ) ? 1 : r.pickd( { 1e-3, 0.3, 2, 7, 1000 } ), lt = r.chance( 1, 3 ) ? 1 : r.pickd( { 1e-3, 0.3, 2, 7, 1000 } );
	vec3_<T> a = down<T>( ls * s ), b = down<T>( lt * t ); V A = up( a ), B = up( b ); A = ( 1 / len( A ) ) * A; B = ( 1 / len( B ) ) * B;
	quat_<T> q = quat_from_directions( a, b ); string w = sh( a ) + " to " + sh( b ) + " gives " + sh( q );
	bool good = std::fabs( dot( A, B ) ) < 0.99L; ld tol = good ? 128 * eps<T>() : 12 * root;
	ld n = std::sqrt( (ld)q.w * q.w + (ld)q.x * q.x + (ld)q.y * q.y + (ld)q.z * q.z );
	VP_CHECK( string( "unit-" ) + kind, near( n, 1, 32 * eps<T>() ), w );
	VP_CHECK( string( "between-" ) + kind, close( matrix( q ) * A, B, tol ), w ); event( kind ); note( w ); if ( want_sample() ) sample( w );
}
PART( directions_double, 12000, 400000 ) { directions< double >( r ); }
PART( directions_float, 12000, 400000 ) { directions< float >( r ); }

template< typename T > void boxes( Rng& r )
{
	std::vector< vec3_<T> > pts; size_t n = 1 + r.small_len( 60 ); string w; ld off = r.chance( 1, 3 ) ? 1e5 : r.chance( 1, 3 ) ? -1e5 : 0;
	for ( size_t i = 0; i < n; ++i ) { pts.push_back( rvec<T>( r ) + vec3_<T>( T( off ) ) ); if ( w.size() < 300 ) w += sh( pts.back() ); }
	int how = (int)r.below( 3 ); bounding_box_<T> bb; if ( how == 1 ) bb = bounding_box_<T>( pts[ 0 ] ); if ( how == 2 ) bb = bounding_box_<T>( pts[ 0 ], pts[ 0 ] );
	vec3_<T> lo = pts[ 0 ], hi = pts[ 0 ]; for ( auto& p : pts ) for ( int i = 0; i < 3; ++i ) { lo[ i ] = std::min( lo[ i ], p[ i ] ); hi[ i ] = std::max( hi[ i ], p[ i ] ); }
	for ( size_t i = how ? 1 : 0; i < n; )
		if ( r.chance( 1, 3 ) ) { bounding_box_<T> part; size_t m = 1 + r.below( 4 ); for ( ; m && i < n; --m, ++i ) part += pts[ i ]; bb += part; event( "box merged" ); }
		else { VP_CHECK( "returns-itself", &( bb += pts[ i ] ) == &bb, w ); ++i; event( "point added" ); }
	if ( r.chance( 1, 8 ) ) bb += bounding_box_<T>();
	VP_CHECK( "extremes", bb.lower_bounds == lo && bb.upper_bounds == hi, w + " box " + sh( bb.lower_bounds ) + sh( bb.upper_bounds ) ); if ( n > 1 ) note( w );
}
PART( boxes_double, 3000, 100000 ) { boxes< double >( r ); }
PART( boxes_float, 3000, 100000 ) { boxes< float >( r ); }

// the same laws for very short and very long vectors
template< typename T > void scales( Rng& r )
{
	bool f = sizeof( T ) == 4; ld m = r.chance( 1, 3 ) ? 1 + r.pickd( { -1, 1 } ) * std::pow( 10.0L, (ld)-r.real( 0.5, 8 ) ) : std::pow( 10.0L, (ld)r.real( f ? -5.5 : -13, f ? 15 : 120 ) ), k = std::pow( 10.0L, (ld)r.real( f ? -5.5 : -13, f ? 15 : 120 ) ); V u = runit( r ), v = runit( r ); vec3_<T> a = down<T>( m * u ), b = down<T>( k * v ); V A = up( a ), B = up( b ); ld l = len( A ), e = 8 * eps<T>(); string w = sh( a ) + " " + sh( b );
	VP_CHECK( "scaled-length", near( length( a ), l, e * l ) && near( a.length(), l, e * l ), w );
	VP_CHECK( "scaled-normalized", close( up( normalized( a ) ), ( 1 / l ) * A, e ) && close( up( a.normalized() ), ( 1 / l ) * A, e ), w + " gives " + sh( normalized( a ) ) );
	vec3_<T> c = a; normalize( c ); VP_CHECK( "scaled-normalize", close( up( c ), ( 1 / l ) * A, e ), w ); VP_CHECK( "scaled-not-null", !a.is_null() && !( a == vec3_<T>() ), w );
	VP_CHECK( "scaled-sum", close( up( a + b ), A + B, e * ( m + k ) ) && close( up( a - b ), A - B, e * ( m + k ) ) && near( distance( a, b ), len( A - B ), 2 * e * ( m + k ) ), w );
	VP_CHECK( "scaled-products", near( dot_product( a, b ), dot( A, B ), e * m * k ) && close( up( cross_product( a, b ) ), cross( A, B ), e * m * k ), w );
	quat_<T> q = rquat<T>( r ); M Q = matrix( q ); VP_CHECK( "scaled-rotate", close( up( q * a ), Q * A, 2 * e * l ), w ); transform_<T> t( b, q ); VP_CHECK( "scaled-transform", close( up( t * a ), B + Q * A, 4 * e * ( m + k ) ) && close( up( t.inv_transform( a ) ), transposed( Q ) * ( A - B ), 4 * e * ( m + k ) ), w );
	quat_<T> n( T( q.w * m ), T( q.x * m ), T( q.y * m ), T( q.z * m ) ), n2 = n; normalize( n2 ); quat_<T> n3 = normalized( n ); VP_CHECK( "scaled-quat", near( length( n ), m, 2 * e * m ) && near( n2.w, q.w, 2 * e ) && near( n2.x, q.x, 2 * e ) && near( n2.y, q.y, 2 * e ) && near( n2.z, q.z, 2 * e ) && near( n3.w, q.w, 2 * e ) && near( n3.x, q.x, 2 * e ) && near( n3.y, q.y, 2 * e ) && near( n3.z, q.z, 2 * e ), w );
	if ( std::fabs( dot( u, v ) ) < 0.99L ) { quat_<T> d = quat_from_directions( a, b ); VP_CHECK( "scaled-directions", close( matrix( d ) * u, v, 256 * eps<T>() ), w + " gives " + sh( d ) ); }
	event( "scaled vectors" ); note( w );
}
PART( scales_double, 4000, 150000 ) { scales< double >( r ); }
PART( scales_float, 4000, 150000 ) { scales< float >( r ); }
