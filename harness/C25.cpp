// C25 Clamping, wrapping and bounds keep values in range, changing nothing inside
// vp-rule: random, boundary, negative and huge values and ranges in float, double and integer types; each result against its definition in long double; non-trivial: range has positive width; counted by values
#include "flut/system/types.hpp"
#include "flut/math/math.hpp"
#include "flut/math/bounds.hpp"
#include <sstream>
#include "common.hpp"
using namespace vp;
using std::string;
using namespace flut::math;
typedef long double ld;
template< typename T > ld eps() { return std::numeric_limits< T >::epsilon(); }
static double any( Rng& r ) { switch ( r.below( 7 ) ) { case 0: return r.pickd( { 0, 1, -1, 2, -2, 0.5, -0.5, 1e9, -1e9 } ); case 1: return r.real( -1e6, 1e6 ); case 2: return r.real( -1e-6, 1e-6 ); case 3: return (double)r.range( -20, 20 ); default: return r.real( -50, 50 ); } }

template< typename T > void ranges( Rng& r )
{
	T lo = T( any( r ) ), w = T( r.chance( 1, 3 ) ? r.pickd( { 1, 2, 6.283185307179586, 360, 0.25 } ) : r.real( 0.01, 100 ) ), hi = lo + w; if ( !( hi > lo ) ) hi = lo = 1, hi += 1; ld L = lo, H = hi, R = H - L;
	T v; switch ( r.below( 8 ) ) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = std::nextafter( lo, T( r.chance( 1, 2 ) ? 1e30 : -1e30 ) ); break; case 3: v = std::nextafter( hi, T( r.chance( 1, 2 ) ? 1e30 : -1e30 ) ); break; case 4: v = T( L + R * r.range( -9, 9 ) ); break; case 5: v = T( L + R * r.real( -30, 30 ) ); break; case 6: v = T( any( r ) ); break; default: v = T( r.real( lo, hi ) ); }
	if ( R < 64 * eps<T>() * std::max( std::fabs( L ), std::fabs( H ) ) ) { event( "range too narrow for the type" ); return; }
	string c = num( v ) + " in " + num( lo ) + ".." + num( hi ); ld e = 8 * eps<T>(), m = std::fabs( L ) + std::fabs( H ) + std::fabs( (ld)v );
	// clamp
	T expect = v < lo ? lo : v > hi ? hi : v, x = v; VP_CHECK( "clamp", &clamp( x, lo, hi ) == &x && x == expect, c + " gives " + num( x ) ); VP_CHECK( "clamped", clamped( v, lo, hi ) == expect, c );
	VP_CHECK( "between", is_between( v, lo, hi ) == ( v >= lo && v <= hi ) && is_between( lo, lo, hi ) && is_between( hi, lo, hi ), c );
	// wrap: equivalent value of the closed range
	x = v; T& back = wrap( x, lo, hi ); ld turns = ( (ld)v - x ) / R, off = std::fabs( turns - std::round( turns ) ) * R; string cw = c + " wrapped to " + num( x );
	VP_CHECK( "wrap-range", &back == &x && x >= L - e * m && x <= H + e * m, cw ); VP_CHECK( "wrap-equivalent", off <= e * m, cw ); VP_CHECK( "wrapped", wrapped( v, lo, hi ) == x, cw );
	if ( v > L + e * m && v < H - e * m ) VP_CHECK( "wrap-inside", near( x, v, e * m ), cw ); event( v < lo ? "below" : v > hi ? "above" : "inside" );
	// soft clamp
	T bnd = T( r.chance( 1, 8 ) ? r.pickd( { 0, 0.5, 0.25, 0.125 } ) : r.real( 0.001, 0.5 ) ); ld B = (ld)bnd * R; x = v; T& sb = soft_clamp( x, lo, hi, bnd ); string cs = c + " boundary " + num( bnd ) + " gives " + num( x );
	VP_CHECK( "soft-range", &sb == &x && x >= L - e * m && x <= H + e * m, cs ); VP_CHECK( "soft-clamped", soft_clamped( v, lo, hi, bnd ) == x, cs );
	if ( v >= L + B + e * m && v <= H - B - e * m ) { VP_CHECK( "soft-inside", x == v, cs ); event( "soft clamp left alone" ); }
	else if ( v > H - B ) VP_CHECK( "soft-towards", x <= v + e * m && x >= H - B - e * m, cs ); else if ( v < L + B ) VP_CHECK( "soft-towards", x >= v - e * m && x <= L + B + e * m, cs );
	T v2 = T( r.chance( 1, 3 ) ? v + R * r.real( 0, 0.01 ) : L + R * r.real( -10, 10 ) ), x2 = soft_clamped( v2, lo, hi, bnd ); ld tm = e * ( m + std::fabs( (ld)v2 ) );
	VP_CHECK( "soft-monotonic", v <= v2 ? x <= x2 + tm : x2 <= x + tm, cs + " and " + num( v2 ) + " gives " + num( x2 ) ); VP_CHECK( "soft-continuous", std::fabs( (ld)x - x2 ) <= std::fabs( (ld)v - v2 ) + tm, cs + " and " + num( v2 ) + " gives " + num( x2 ) );
	// within the boundary and beyond, the distance to the bound shrinks as a hyperbola that leaves the boundary's edge with slope one
	if ( bnd > 0 && v > H - B ) { ld d = B * B / ( (ld)v - H + 2 * B ), tol = 8 * e * m; VP_CHECK( "soft-shape", near( x, H - d, tol ), cs + " expected " + num( H - d ) ); event( "soft clamp near a bound" ); }
	else if ( bnd > 0 && v < L + B ) { ld d = B * B / ( L - (ld)v + 2 * B ), tol = 8 * e * m; VP_CHECK( "soft-shape", near( x, L + d, tol ), cs + " expected " + num( L + d ) ); event( "soft clamp near a bound" ); }
	T far = T( H + R * 1e6L ), near_far = T( L - R * 1e6L ); ld slack = R * 1e-3L + e * m; VP_CHECK( "soft-limit", near( soft_clamped( far, lo, hi, bnd ), H, slack ) && near( soft_clamped( near_far, lo, hi, bnd ), L, slack ), cs );
	// mirrored range gives mirrored value
	VP_CHECK( "soft-mirror", near( soft_clamped( T( -v ), T( -hi ), T( -lo ), bnd ), -(ld)x, 2 * e * m ), cs );
	// bounds
	flut::bounds< T > b( lo, hi ); VP_CHECK( "bounds", b.lower == lo && b.upper == hi && near( b.range(), R, e * m ) && b.is_within( v ) == ( v >= lo && v <= hi ), c );
	ld viol = v < lo ? (ld)v - L : v > hi ? (ld)v - H : 0; VP_CHECK( "violation", near( b.get_violation( v ), viol, e * std::fabs( viol ) ) && ( b.get_violation( v ) == 0 ) == b.is_within( v ), c + " violation " + num( b.get_violation( v ) ) );
	x = v; VP_CHECK( "bounds-clamp", &b.clamp( x ) == &x && x == expect, c ); x = v; b.soft_clamp( x, bnd ); VP_CHECK( "bounds-soft", x == soft_clamped( v, lo, hi, bnd ), c );
	auto n = -b; VP_CHECK( "bounds-negated", n.lower == -hi && n.upper == -lo && n.is_within( -v ) == b.is_within( v ) && n.get_violation( -v ) == -b.get_violation( v ), c );
	flut::bounds< double > bd( b ); flut::bounds< float > bf( b ); VP_CHECK( "bounds-convert", bd.lower == double( lo ) && bd.upper == double( hi ) && bf.lower == float( lo ) && bf.upper == float( hi ), c ); flut::bounds< T > one( v ), none; VP_CHECK( "bounds-single", one.lower == v && one.upper == v && one.range() == 0 && one.is_within( v ) && none.lower == 0 && none.upper == 0, c );
	std::stringstream str; str.precision( std::numeric_limits< T >::max_digits10 ); str << b; double pl = 0, ph = 0; str >> pl >> ph; VP_CHECK( "bounds-printed", near( pl, L, e * std::fabs( L ) ) && near( ph, H, e * std::fabs( H ) ), c );
	string txt = str.str(); HeapText ht( txt ); flut::char_stream chs( ht.p ); flut::bounds< T > rb; chs >> rb; VP_CHECK( "bounds-read", near( rb.lower, L, e * std::fabs( L ) ) && near( rb.upper, H, e * std::fabs( H ) ), c + " from " + txt );
	note( c ); if ( want_sample() ) sample( cs );
}
PART( ranges_double, 12000, 500000 ) { ranges< double >( r ); }
PART( ranges_float, 12000, 500000 ) { ranges< float >( r ); }

template< typename T > void scalars( Rng& r )
{
	T v = T( any( r ) ), o = T( r.chance( 1, 4 ) ? v : any( r ) ); ld V = v, e = 4 * eps<T>(); string c = num( v ) + " and " + num( o );
	VP_CHECK( "sign", sign( v ) == ( v >= 0 ? T( 1 ) : T( -1 ) ) && sign( T( -0.0 ) ) == sign( T( 0 ) ), c ); VP_CHECK( "powers", near( squared( v ), V * V, e * V * V ) && near( cubed( v ), V * V * V, e * std::fabs( V * V * V ) ), c );
	VP_CHECK( "signed-root", near( signed_sqrt( v ), v >= 0 ? std::sqrt( V ) : -std::sqrt( -V ), e * std::sqrt( std::fabs( V ) ) ), c );
	if ( v != 0 ) VP_CHECK( "inverse", near( inv( v ), 1 / V, e * std::fabs( 1 / V ) ), c ); if ( v > 0 ) VP_CHECK( "inverse-root", near( invsqrt( v ), 1 / std::sqrt( V ), e / std::sqrt( V ) ), c );
	T x = v; VP_CHECK( "smaller", &set_if_smaller( x, o ) == &x && x == std::min( v, o ), c ); x = v; VP_CHECK( "bigger", &set_if_bigger( x, o ) == &x && x == std::max( v, o ), c );
	VP_CHECK( "equals-itself", equals( v, v ), c ); T close = std::nextafter( v, T( 1e30 ) ), apart = T( V * ( 1 + 32 * eps<T>() ) ); if ( v != 0 ) VP_CHECK( "equals", equals( v, close ) && !equals( v, apart ) && !equals( v, T( -v ) ), c );
	T tol = T( r.real( 0.001, 0.2 ) ); if ( v != 0 ) VP_CHECK( "equals-tolerance", equals( v, T( V * ( 1 + tol * 0.9L ) ), tol ) && !equals( v, T( V * ( 1 + tol * 1.1L ) ), tol ) && equals( v, T( V * ( 1 - tol * 0.9L ) ), tol ) && !equals( v, T( V * ( 1 - tol * 1.1L ) ), tol ), c + " tolerance " + num( tol ) );
	// square wave: period 2, +1 on [0,1)
	T t = T( r.chance( 1, 3 ) ? (double)r.range( -1000, 1000 ) : r.chance( 1, 3 ) ? std::nextafter( (T)r.range( -50, 50 ), T( r.chance( 1, 2 ) ? 1e9 : -1e9 ) ) : any( r ) ); if ( std::fpclassify( t ) == FP_SUBNORMAL ) t = 0; ld ph = std::fmod( (ld)t, 2.0L ); if ( ph < 0 ) ph += 2; T want = ph >= 0 && ph < 1 ? T( 1 ) : T( -1 );
	{ // far from zero, where halves and quarters are still exact
		T far = T( r.range( -2000000, 2000000 ) ); if ( sizeof( T ) > 4 ) far = T( r.range( -( 1ll << 50 ), 1ll << 50 ) ); T frac = T( r.below( 4 ) ) / 4; long long fl = (long long)far; bool up = ( ( fl % 2 ) + 2 ) % 2 == 0;
		VP_CHECK( "square-wave-far", square_wave( T( far + frac ) ) == ( up ? T( 1 ) : T( -1 ) ), num( far + frac ) + " gives " + num( square_wave( T( far + frac ) ) ) ); }
	VP_CHECK( "square-wave", square_wave( t ) == want, num( t ) + " gives " + num( square_wave( t ) ) ); T u = T( r.range( -500, 500 ) ) / 8; VP_CHECK( "square-period", square_wave( u ) == square_wave( u + 2 ) && square_wave( u ) == square_wave( u - 2 ) && square_wave( u + 1 ) == -square_wave( u ), num( u ) );
	T lim = T( r.real( 0.01, 50 ) ), p = T( r.chance( 1, 5 ) ? 0 : r.real( 0, 500 ) ); ld ref = (ld)lim - (ld)lim * lim / ( (ld)p + lim ); VP_CHECK( "limit", near( limit_transfer( p, lim ), ref, 4 * e * lim ), num( p ) + " limit " + num( lim ) );
	event( "scalar values" ); if ( v != 0 ) note( c );
}
PART( scalars_double, 8000, 300000 ) { scalars< double >( r ); }
PART( scalars_float, 8000, 300000 ) { scalars< float >( r ); }

template< typename T > void integers( Rng& r )
{
	typedef std::numeric_limits< T > lim; T v; switch ( r.below( 6 ) ) { case 0: v = lim::max(); break; case 1: v = T( T( 1 ) << r.below( lim::digits ) ); break; case 2: v = T( ( T( 1 ) << r.below( lim::digits ) ) - 1 ); break; case 3: v = T( ( ( T( 1 ) << r.below( lim::digits ) ) ) ^ T( 1 ) ); break; case 4: v = T( r.next() ); break; default: v = T( r.range( -40, 40 ) ); }
	if ( v == lim::lowest() && lim::is_signed ) v = T( v + 1 ); string c = num( (long long)v );
	int bits = 0; if ( v > 0 ) for ( unsigned long long x = (unsigned long long)v; x; x >>= 1 ) bits += int( x & 1 );
	VP_CHECK( "power-of-two", is_power_of_two( v ) == ( bits == 1 ), c ); bool even = v % 2 == 0; VP_CHECK( "parity", is_even( v ) == even && is_odd( v ) == !even, c );
	T a = T( r.range( 0, 50 ) ), b = T( a + r.range( 0, 50 ) ), q = T( r.chance( 1, 3 ) ? v : T( r.range( 0, 120 ) ) ), x = q; clamp( x, a, b ); VP_CHECK( "clamp", x == ( q < a ? a : q > b ? b : q ) && clamped( q, a, b ) == x && is_between( q, a, b ) == ( q >= a && q <= b ), c + " " + num( (long long)q ) );
	x = q; set_if_smaller( x, a ); VP_CHECK( "smaller", x == std::min( q, a ), c ); x = q; set_if_bigger( x, a ); VP_CHECK( "bigger", x == std::max( q, a ), c );
	event( "integers" ); note( c );
}
PART( integers, 8000, 200000 ) { integers< int >( r ); integers< unsigned >( r ); integers< long long >( r ); integers< unsigned long long >( r ); integers< short >( r ); integers< unsigned char >( r ); }
PART( integer_bounds, 4000, 100000 )
{
	int a = (int)r.range( -100, 100 ), b = a + (int)r.range( 0, 60 ), v = (int)r.range( -300, 300 ), x = v; flut::boundsi k( a, b ); string c = num( v ) + " in " + num( a ) + ".." + num( b );
	VP_CHECK( "bounds", k.range() == b - a && k.is_within( v ) == ( v >= a && v <= b ) && k.get_violation( v ) == ( v < a ? v - a : v > b ? v - b : 0 ) && k.clamp( x ) == ( v < a ? a : v > b ? b : v ) && ( -k ).lower == -b && ( -k ).upper == -a, c );
	if ( b > a ) { x = v; wrap( x, a, b ); VP_CHECK( "wrap", x >= a && x <= b && ( v - x ) % ( b - a ) == 0 && ( v <= a || v >= b || x == v ), c + " wrapped to " + num( x ) ); note( c ); }
	VP_CHECK( "sign", sign( v ) == ( v >= 0 ? 1 : -1 ) && squared( v ) == v * v && cubed( v ) == v * v * v, c ); event( "integer ranges" );
}
