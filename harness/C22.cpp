// C22 Interpolation, polynomials, splines and ranges match their definition
// vp-rule: random series with keys at, between and outside samples; random functions, coefficients, control points; all small integer ranges and steps; results against extended-precision references; non-trivial: at least two samples/points/elements; counted by inputs
#include "flut/buffer/interpolation.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/catmull_rom.hpp"
#include "flut/math/irange.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

template< typename T > T val( Rng& r ) { return T( r.chance( 1, 5 ) ? r.pickd( { 0, 1, -1, 1e6, -1e6, 0.5 } ) : r.real( -100, 100 ) ); }

template< typename K, typename V > void series( Rng& r )
{
	std::vector< std::pair< K, V > > s; K k = K( r.real( -50, 50 ) ); string w;
	for ( size_t n = r.chance( 1, 20 ) ? 1 + r.len( r.chance( 1, 10 ) ? 20000 : 400 ) : 1 + r.below( 6 ); n; --n ) { s.emplace_back( k, val< V >( r ) ); k += K( r.chance( 1, 4 ) ? 1 : r.real( 0.01, 5 ) ); if ( w.size() < 200 ) w += "(" + num( s.back().first ) + "," + num( s.back().second ) + ")"; }
	const auto before = s;
	for ( int q = 0; q < 8; ++q )
	{
		K key; size_t i = r.below( s.size() ); int kind = (int)r.below( 5 );
		switch ( kind )
		{
		case 0: key = s[ i ].first; break;
		case 1: key = s.front().first - K( r.chance( 1, 2 ) ? 1e6 : r.real( 0, 3 ) ); break;
		case 2: key = s.back().first + K( r.chance( 1, 2 ) ? 1e6 : r.real( 0, 3 ) ); break;
		case 3: key = std::nextafter( s[ i ].first, K( r.chance( 1, 2 ) ? 1e9 : -1e9 ) ); break;
		default: key = K( r.real( s.front().first, s.back().first ) );
		}
		V got = flut::interpolated_value( s, key ); event( "look-up" ); string c = "key " + num( key ) + " in " + w + " gives " + num( got );
		if ( key <= s.front().first ) { VP_CHECK( "before", got == s.front().second, c ); continue; }
		if ( key >= s.back().first ) { VP_CHECK( "beyond", got == s.back().second, c ); continue; }
		size_t u = 0; while ( s[ u ].first <= key ) ++u;
		long double f = ( (long double)key - s[ u - 1 ].first ) / ( (long double)s[ u ].first - s[ u - 1 ].first ), a = s[ u - 1 ].second, b = s[ u ].second, expect = a + f * ( b - a );
		if ( key == s[ u - 1 ].first ) VP_CHECK( "at-sample", got == s[ u - 1 ].second, c );
		long double eps = std::max( (long double)std::numeric_limits< K >::epsilon(), (long double)std::numeric_limits< V >::epsilon() );
		VP_CHECK( "between", near( got, expect, 16 * eps * ( std::fabs( a ) + std::fabs( b ) ) ), c + " expected " + num( expect ) );
	}
	VP_CHECK( "input-unchanged", s == before, w );
	if ( s.size() > 1 ) note( w );
	if ( want_sample() ) sample( w );
}
PART( series_double, 6000, 200000 ) { series< double, double >( r ); }
PART( series_float, 3000, 100000 ) { series< float, float >( r ); }
template< typename T > void indexed( Rng& r )
{
	std::vector< T > v; string w; for ( size_t n = r.chance( 1, 20 ) ? 1 + r.len( r.chance( 1, 10 ) ? 20000 : 400 ) : 1 + r.below( 6 ); n; --n ) { v.push_back( val< T >( r ) ); if ( w.size() < 200 ) w += num( v.back() ) + " "; }
	for ( int q = 0; q < 8; ++q )
	{
		T key; size_t i = r.below( v.size() );
		switch ( r.below( 7 ) ) { case 0: key = T( i ); break; case 1: key = -T( r.real( 0, 5 ) ); break; case 5: key = T( ( r.chance( 1, 3 ) ? -1 : 1 ) * std::pow( 10.0, r.real( 0, 37 ) ) ); if ( r.chance( 1, 9 ) ) key = key < 0 ? -std::numeric_limits< T >::infinity() : std::numeric_limits< T >::infinity(); break; case 2: key = T( v.size() ) - T( r.real( -3, 2 ) ); break; case 3: key = T( v.size() - 1 ); break; case 4: key = std::nextafter( T( i ), T( r.chance( 1, 2 ) ? 1e6 : -1e6 ) ); break; default: key = T( r.real( 0, (double)v.size() ) ); }
		T got = flut::interpolated_value( v, key ); event( "indexed look-up" ); string c = "key " + num( key ) + " in " + w + " gives " + num( got );
		if ( key <= T( 0 ) ) { VP_CHECK( "indexed-before", got == v.front(), c ); continue; }
		if ( key >= T( v.size() - 1 ) ) { VP_CHECK( "indexed-beyond", got == v.back(), c ); continue; }
		size_t lo = size_t( key ); long double f = (long double)key - lo, a = v[ lo ], b = v[ lo + 1 ];
		if ( f == 0 ) VP_CHECK( "indexed-at", got == v[ lo ], c );
		VP_CHECK( "indexed-between", near( got, a + f * ( b - a ), 8 * std::numeric_limits< T >::epsilon() * ( std::fabs( a ) + std::fabs( b ) ) ), c );
	}
	if ( v.size() > 1 ) note( w );
}
PART( indexed_double, 4000, 150000 ) { indexed< double >( r ); }
PART( indexed_float, 2000, 80000 ) { indexed< float >( r ); }
PART( empty_series, 4, 4 )
{
	std::vector< std::pair< double, double > > s; std::vector< double > v;
	VP_CHECK( "empty-refused", throws( [&] { flut::interpolated_value( s, 1.0 ); } ) && throws( [&] { flut::interpolated_value( v, 1.0 ); } ), "" ); event( "empty refused" );
}

template< typename T > void piecewise( Rng& r )
{
	T lo = T( r.real( -20, 20 ) ), hi = lo + T( r.real( 0.5, 30 ) ); int n = r.chance( 1, 10 ) ? 1 : 1 + (int)r.below( r.chance( 1, 40 ) ? 5000 : 60 );
	if ( r.chance( 1, 3 ) ) { lo = T( r.range( -8, 8 ) ); hi = lo + T( 1 + r.below( 16 ) ); }
	double a = r.real( -3, 3 ), b = r.real( -3, 3 ), c = r.real( 0.1, 3 ); int kind = (int)r.below( 3 ); size_t calls = 0;
	auto fn = [=]( double x ) { return kind == 0 ? a * std::sin( c * x ) + b : kind == 1 ? a * x * x + b * x + c : std::fabs( x ) * a + b; };
	flut::math::regular_piecewise_linear_function< T > p( lo, hi, n, [&]( double x ) { ++calls; return fn( x ); } );
	string w = "[" + num( lo ) + "," + num( hi ) + "] in " + num( n ) + " intervals";
	VP_CHECK( "nodes-sampled", calls == size_t( n + 1 ), num( calls ) + " samples for " + w );
	long double step = ( (long double)hi - lo ) / n, eps = std::numeric_limits< T >::epsilon(), mag = 0; std::vector< long double > y;
	// errors of the node positions are multiplied by the slope of the function
	long double slope = 0; for ( int i = 0; i <= n; ++i ) { y.push_back( fn( (double)( lo + step * i ) ) ); mag = std::max( mag, std::fabs( y.back() ) ); }
	for ( int i = 0; i < n; ++i ) slope = std::max( slope, std::fabs( y[ i + 1 ] - y[ i ] ) / step );
	slope = std::max( slope, (long double)( kind == 0 ? std::fabs( a * c ) : kind == 1 ? 2 * std::fabs( a ) * 60 + std::fabs( b ) : std::fabs( a ) ) );
	long double reach = std::max( std::fabs( (long double)lo ), std::fabs( (long double)hi ) );
	for ( int q = 0; q < 10; ++q )
	{
		T x; switch ( r.below( 6 ) ) { case 4: x = T( ( r.chance( 1, 2 ) ? -1 : 1 ) * std::pow( 10.0, r.real( 0, 15 ) ) ); break; case 0: x = T( lo + step * (long double)r.below( n + 1 ) ); break; case 1: x = hi; break; case 2: x = lo; break; case 3: x = T( r.real( lo - 5, hi + 5 ) ); break; default: x = T( r.real( lo, hi ) ); }
		long double pos = ( (long double)x - lo ) / step; long i = pos < 0 ? 0 : pos > n - 1 ? n - 1 : (long)std::floor( pos ); long double f = pos - i;
		long double expect = y[ i ] + f * ( y[ i + 1 ] - y[ i ] ), tol = 64 * eps * ( mag + slope * ( reach + 10 ) ) * ( 1 + std::fabs( f ) );
		T got = p( x ); event( "piecewise value" );
		VP_CHECK( x >= lo && x <= hi ? "piecewise" : "piecewise-beyond", near( got, expect, tol ), w + " at " + num( x ) + " gives " + num( got ) + " expected " + num( expect ) );
	}
	note( w );
}
PART( piecewise_double, 4000, 150000 ) { piecewise< double >( r ); }
PART( piecewise_float, 2000, 60000 ) { piecewise< float >( r ); }

template< typename T, size_t D > void check_poly( const flut::polynomial< T, D >& p, const T* c, Rng& r )
{
	string w; for ( size_t i = 0; i <= D; ++i ) { w += num( c[ i ] ) + " "; VP_CHECK( "coefficient", p[ i ] == c[ i ], w ); }
	for ( int q = 0; q < 4; ++q )
	{
		T x = T( r.chance( 1, 4 ) ? r.pickd( { 0, 1, -1, 2 } ) : r.real( -8, 8 ) ); long double v = 0, m = 0, f = 1; for ( size_t i = 0; i <= D; ++i ) { v += f * c[ i ]; m += std::fabs( f * c[ i ] ); f *= x; }
		VP_CHECK( "polynomial", near( p( x ), v, 8 * ( D + 1 ) * std::numeric_limits< T >::epsilon() * m ), w + "at " + num( x ) + " gives " + num( p( x ) ) + " expected " + num( v ) ); event( "polynomial value" );
	}
	note( w );
}
template< typename T > void polys( Rng& r )
{
	T c[ 6 ]; for ( auto& x : c ) x = val< T >( r );
	flut::linear_function< T > l( c[ 0 ], c[ 1 ] ); check_poly< T, 1 >( l, c, r ); VP_CHECK( "offset-slope", l.offset() == c[ 0 ] && l.slope() == c[ 1 ], num( c[ 0 ] ) );
	flut::quadratic_function< T > q( c[ 0 ], c[ 1 ], c[ 2 ] ); check_poly< T, 2 >( q, c, r );
	flut::cubic_function< T > u( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] ); check_poly< T, 3 >( u, c, r );
	flut::polynomial< T, 5 > z; for ( int i = 0; i < 6; ++i ) { VP_CHECK( "zero", z[ i ] == T( 0 ), "new polynomial" ); z[ i ] = c[ i ]; } check_poly< T, 5 >( z, c, r );
	if ( std::fabs( c[ 1 ] ) > T( 0.01 ) )
	{
		T y = val< T >( r ); T x = flut::intersect_y( l, y ); long double back = (long double)c[ 0 ] + (long double)c[ 1 ] * x;
		VP_CHECK( "intersect", near( back, y, 16 * std::numeric_limits< T >::epsilon() * ( std::fabs( (long double)y ) + std::fabs( (long double)c[ 0 ] ) ) ), "f(x)=" + num( y ) + " solved by " + num( x ) );
	}
}
PART( polynomials_double, 3000, 100000 ) { polys< double >( r ); }
PART( polynomials_float, 2000, 60000 ) { polys< float >( r ); }

typedef flut::math::vec3_< double > vec;
static vec rv( Rng& r ) { return vec( r.real( -10, 10 ), r.real( -10, 10 ), r.real( -10, 10 ) ); }
static bool close( const vec& a, const vec& b, double tol ) { return near( a.x, b.x, tol ) && near( a.y, b.y, tol ) && near( a.z, b.z, tol ); }
static string sv( const vec& v ) { return "(" + num( v.x ) + "," + num( v.y ) + "," + num( v.z ) + ")"; }
PART( splines, 4000, 120000 )
{
	double d[ 4 ]; for ( auto& x : d ) x = r.real( -10, 10 ); string w = num( d[ 0 ] ) + " " + num( d[ 1 ] ) + " " + num( d[ 2 ] ) + " " + num( d[ 3 ] );
	flut::catmull_rom_segment< double > s( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] );
	VP_CHECK( "segment-ends", near( s( 0.0 ), d[ 1 ], 1e-12 ) && near( s( 1.0 ), d[ 2 ], 1e-12 ), w );
	// Catmull-Rom: the slope at the inner points is half the difference of their neighbours
	double h = 1e-6; VP_CHECK( "segment-slopes", near( ( s( h ) - s( 0.0 ) ) / h, ( d[ 2 ] - d[ 0 ] ) / 2, 1e-3 ) && near( ( s( 1.0 ) - s( 1.0 - h ) ) / h, ( d[ 3 ] - d[ 1 ] ) / 2, 1e-3 ), w );
	{ double u = r.real( 0, 1 ), u2 = u * u, u3 = u2 * u, want = ( 2 * u3 - 3 * u2 + 1 ) * d[ 1 ] + ( u3 - 2 * u2 + u ) * ( d[ 2 ] - d[ 0 ] ) / 2 + ( 3 * u2 - 2 * u3 ) * d[ 2 ] + ( u3 - u2 ) * ( d[ 3 ] - d[ 1 ] ) / 2; VP_CHECK( "segment-between", near( s( u ), want, 1e-10 ), w + " at " + num( u ) + " gives " + num( s( u ) ) + " expected " + num( want ) ); }
	vec p[ 4 ]; for ( auto& x : p ) x = rv( r ); string wv = sv( p[ 0 ] ) + sv( p[ 1 ] ) + sv( p[ 2 ] ) + sv( p[ 3 ] );
	flut::catmull_rom_segment< vec > sg( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] );
	VP_CHECK( "vector-segment-ends", close( sg( 0.0 ), p[ 1 ], 1e-12 ) && close( sg( 1.0 ), p[ 2 ], 1e-12 ), wv );
	bool apart = true; for ( int i = 0; i < 3; ++i ) { vec q = p[ i + 1 ]; q -= p[ i ]; apart = apart && q.x * q.x + q.y * q.y + q.z * q.z > 1; }
	if ( apart )
	{
		float alpha = (float)r.pickd( { 0, 0.5, 1 } ); flut::catmull_rom_segment_alpha< vec > sa( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], alpha );
		VP_CHECK( "alpha-segment-ends", close( sa( 0.0f ), p[ 1 ], 2e-3 ) && close( sa( 1.0f ), p[ 2 ], 2e-3 ), wv + " alpha " + num( alpha ) + " gives " + sv( sa( 0.0f ) ) + sv( sa( 1.0f ) ) );
		// a non-uniform Catmull-Rom curve is the cubic through the inner points with the tangents of the parabolas through three neighbours
		double k[ 4 ] = { 0, 0, 0, 0 }; for ( int i = 0; i < 3; ++i ) { vec q = p[ i + 1 ]; q -= p[ i ]; k[ i + 1 ] = k[ i ] + std::pow( std::sqrt( q.x * q.x + q.y * q.y + q.z * q.z ), (double)alpha ); }
		float tf = (float)r.real( 0, 1 ); double u = tf, u2 = u * u, u3 = u2 * u, D = k[ 2 ] - k[ 1 ];
		auto axis = [&]( double a, double b, double c, double d ) { double m1 = D * ( ( b - a ) / ( k[ 1 ] - k[ 0 ] ) - ( c - a ) / ( k[ 2 ] - k[ 0 ] ) + ( c - b ) / D ), m2 = D * ( ( c - b ) / D - ( d - b ) / ( k[ 3 ] - k[ 1 ] ) + ( d - c ) / ( k[ 3 ] - k[ 2 ] ) ); return ( 2 * u3 - 3 * u2 + 1 ) * b + ( u3 - 2 * u2 + u ) * m1 + ( 3 * u2 - 2 * u3 ) * c + ( u3 - u2 ) * m2; };
		vec want( axis( p[ 0 ].x, p[ 1 ].x, p[ 2 ].x, p[ 3 ].x ), axis( p[ 0 ].y, p[ 1 ].y, p[ 2 ].y, p[ 3 ].y ), axis( p[ 0 ].z, p[ 1 ].z, p[ 2 ].z, p[ 3 ].z ) );
		VP_CHECK( "alpha-segment-between", close( sa( tf ), want, 5e-3 ), wv + " alpha " + num( alpha ) + " at " + num( tf ) + " gives " + sv( sa( tf ) ) + " expected " + sv( want ) ); event( "curve point" );
		// the length is the sum of the chords
		int steps = r.chance( 1, 2 ) ? 100 : 1 + r.below( r.chance( 1, 20 ) ? 3000 : 50 ); float la = (float)r.real( 0, 0.5 ), lb = (float)r.real( 0.5, 1 ); double chords = 0; for ( int i = 0; i < steps; ++i ) { vec x0 = sg( double( la ) + ( double( lb ) - la ) * i / steps ), x1 = sg( double( la ) + ( double( lb ) - la ) * ( i + 1 ) / steps ); x1 -= x0; chords += std::sqrt( x1.x * x1.x + x1.y * x1.y + x1.z * x1.z ); }
		double got = steps == 100 ? flut::compute_spline_length( sg, la, lb ) : flut::compute_spline_length( sg, la, lb, steps ); VP_CHECK( "chord-length", near( got, chords, 1e-3 ), wv + " steps " + num( steps ) + " gives " + num( got ) + " expected " + num( chords ) );
		// a curve is never shorter than the straight line between its ends
		vec q = p[ 2 ]; q -= p[ 1 ]; double line = std::sqrt( q.x * q.x + q.y * q.y + q.z * q.z );
		VP_CHECK( "length", flut::compute_spline_length( sg, 0.0f, 1.0f ) >= line - 1e-6, wv );
	}
	// evenly spaced points on a line: the length is the distance, also over part of the segment
	vec o = rv( r ), st = rv( r ); vec e[ 4 ]; for ( int i = 0; i < 4; ++i ) e[ i ] = vec( o.x + i * st.x, o.y + i * st.y, o.z + i * st.z );
	flut::catmull_rom_segment< vec > se( e[ 0 ], e[ 1 ], e[ 2 ], e[ 3 ] ); double dist = std::sqrt( st.x * st.x + st.y * st.y + st.z * st.z ); float t1 = (float)r.real( 0.1, 1 );
	VP_CHECK( "line-length", near( flut::compute_spline_length( se, 0.0f, t1 ), dist * t1, 1e-5 * dist ), sv( o ) + sv( st ) );
	// whole splines
	std::vector< double > pts, times; size_t n = 4 + ( r.chance( 1, 60 ) ? r.len( 3000 ) : r.below( 8 ) ); double t = r.real( -5, 5 ); for ( size_t i = 0; i < n; ++i ) pts.push_back( r.real( -10, 10 ) ); for ( size_t i = 0; i + 2 < n; ++i ) { times.push_back( t ); t += r.chance( 1, 3 ) ? 1 : r.real( 0.1, 3 ); }
	flut::catmull_rom< double, double > cr( pts, times );
	for ( size_t k = 0; k < times.size(); ++k ) VP_CHECK( "spline-point", near( cr( times[ k ] ), pts[ k + 1 ], 1e-9 ), "point " + num( k ) + " of " + num( times.size() ) + " gives " + num( cr( times[ k ] ) ) + " expected " + num( pts[ k + 1 ] ) );
	double x = r.real( times.front(), times.back() ); size_t k = 0; while ( k + 2 < times.size() && times[ k + 1 ] <= x ) ++k;
	flut::catmull_rom_segment< double > part( pts[ k ], pts[ k + 1 ], pts[ k + 2 ], pts[ k + 3 ] );
	VP_CHECK( "spline-between", near( cr( x ), part( ( x - times[ k ] ) / ( times[ k + 1 ] - times[ k ] ) ), 1e-9 ), "time " + num( x ) );
	VP_CHECK( "spline-sizes", throws( [&] { flut::catmull_rom< double, double > bad( pts, pts ); } ), "" );
	{ size_t few = r.below( 4 ); std::vector< double > fp( pts.begin(), pts.begin() + few ), ft( times.begin(), times.begin() + ( few > 2 ? few - 2 : 0 ) ); VP_CHECK( "spline-too-few", throws( [&] { flut::catmull_rom< double, double > bad( fp, ft ); } ), num( few ) + " points" ); }
	// before the first and after the last time the curve is continued by its outermost piece
	{ double y = times.front() - r.real( 0.001, 2 ), z = times.back() + ( r.chance( 1, 4 ) ? 0 : r.real( 0.001, 2 ) ); size_t e = times.size() - 2; flut::catmull_rom_segment< double > head( pts[ 0 ], pts[ 1 ], pts[ 2 ], pts[ 3 ] ), tail( pts[ n - 4 ], pts[ n - 3 ], pts[ n - 2 ], pts[ n - 1 ] );
	double hw = head( ( y - times[ 0 ] ) / ( times[ 1 ] - times[ 0 ] ) ), tw = tail( ( z - times[ e ] ) / ( times[ e + 1 ] - times[ e ] ) ); VP_CHECK( "spline-before", near( cr( y ), hw, 1e-9 * ( 1 + std::fabs( hw ) ) ), "time " + num( y ) + " before " + num( times[ 0 ] ) ); VP_CHECK( "spline-after", near( cr( z ), tw, 1e-9 * ( 1 + std::fabs( tw ) ) ), "time " + num( z ) + " after " + num( times.back() ) ); event( "spline continued", 2 ); }
	event( "spline" ); note( w );
}

template< typename T > void stepped( T b, T e, T s )
{
	string w = num( b ) + " to " + num( e ) + " step " + num( s ); std::vector< T > expect; for ( T v = b; s > T( 0 ) ? v < e : v > e; v = T( v + s ) ) expect.push_back( v );
	std::vector< T > got; for ( auto v : flut::make_irange( b, e, s ) ) { got.push_back( v ); VP_CHECK( "range-ends", got.size() <= expect.size(), w + " yields " + num( v ) + " as element " + num( got.size() ) ); }
	VP_CHECK( "range-values", got == expect, w ); event( "stepped range" );
	flut::irange_step< T > q( b, e, s ); size_t n = 0; for ( auto it = q.begin(); it != q.end(); ++n ) { VP_CHECK( "post-increment", n < expect.size() && it++ == expect[ n ], w ); } VP_CHECK( "range-count", n == expect.size() && size_t( q.end() - q.begin() ) == n, w );
	{ size_t n2 = 0; for ( auto it = q.begin(); !( it == q.end() ); ++it, ++n2 ) VP_CHECK( "range-equality", n2 < expect.size(), w ); VP_CHECK( "range-equality", n2 == expect.size(), w ); }
	if ( got.size() > 1 ) note( w );
}
template< typename T > void unit( T b, T e )
{
	string w = num( b ) + " to " + num( e ); std::vector< T > expect, got; for ( T v = b; v < e; ++v ) expect.push_back( v );
	for ( auto v : flut::make_irange( b, e ) ) { got.push_back( v ); VP_CHECK( "unit-ends", got.size() <= expect.size(), w ); }
	VP_CHECK( "unit-values", got == expect, w ); event( "unit range" );
	{ flut::irange< T > u( b, e ), none; size_t n = 0; for ( auto it = u.begin(); !( it == u.end() ); ++n ) VP_CHECK( "unit-post-increment", n < expect.size() && it++ == expect[ n ], w ); VP_CHECK( "unit-post-increment", n == expect.size(), w ); VP_CHECK( "default-range", none.begin() == none.end() && !( none.begin() != none.end() ), "default range" ); }
	auto q = flut::make_irange( b, e ); VP_CHECK( "unit-count", size_t( q.end() - q.begin() ) == expect.size(), w );
	if ( b == T( 0 ) ) { got.clear(); for ( auto v : flut::make_irange( e ) ) got.push_back( v ); VP_CHECK( "from-zero", got == expect, w ); }
	if ( expect.size() > 1 ) note( w );
}
PART( ranges_all, 27 * 27 * 13, 27 * 27 * 13 )
{
	int b = int( idx % 27 ) - 13, e = int( idx / 27 % 27 ) - 13, s = int( idx / 729 ) - 6; if ( s == 0 ) { if ( b <= e ) { unit< int >( b, e ); unit< long long >( b, e ); if ( b >= 0 ) unit< size_t >( b, e ); } return; }
	stepped< int >( b, e, s ); stepped< long long >( b, e, s ); if ( b >= 0 && e >= 0 && s > 0 ) { stepped< unsigned >( b, e, s ); stepped< size_t >( b, e, s ); }
	if ( b <= e ) { std::vector< int > got, expect; for ( auto v : flut::make_irange( flut::irange< int >( b, e ), s ) ) got.push_back( v ); for ( auto v : flut::make_irange( b, e, s ) ) expect.push_back( v ); VP_CHECK( "range-of-range", got == expect, num( b ) + " " + num( e ) ); if ( s == 1 ) { got.clear(); for ( auto v : flut::irange_step< int >( b, e ) ) { got.push_back( v ); if ( got.size() > 100 ) break; } VP_CHECK( "default-step", got == expect, num( b ) + " " + num( e ) ); got.clear(); for ( auto v : flut::irange_step< int >( flut::irange< int >( b, e ) ) ) { got.push_back( v ); if ( got.size() > 100 ) break; } VP_CHECK( "default-step", got == expect, num( b ) + " " + num( e ) ); } }
}
PART( ranges_random, 3000, 100000 ) { int b = (int)r.range( -5000, 5000 ), e = (int)r.range( -5000, 5000 ), s = (int)r.range( -70, 70 ); if ( s == 0 ) s = 1; stepped< int >( b, e, s ); if ( b <= e && idx % 8 == 0 ) unit< int >( b, e ); }
