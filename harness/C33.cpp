// C33 Sequence statistics and regressions equal their mathematical definition
// vp-rule: series of 1 to 3000 values (random, sorted, reversed, constant, ties, large offsets, tiny and huge magnitudes, integers) evaluated by the library and by a long-double reference; counted by series
#include "flut/container_tools.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/debug_tools.hpp"
#include <sstream>
#include <deque>
#include <list>
#include "common.hpp"
using namespace vp;
using std::string; using std::vector;
typedef long double ld;

template< typename T > static vector< T > series( Rng& r, size_t lo, size_t hi, string& kind )
{
	size_t n = r.chance( 1, 25 ) ? std::min( hi, r.chance( 1, 12 ) ? r.len( 80000 ) + lo : size_t( 200 + r.below( 2800 ) ) ) : std::min( hi, r.chance( 1, 4 ) ? lo + r.below( 3 ) : lo + r.below( 40 ) ); vector< T > v( n ); int k = (int)r.below( 7 ); bool integral = std::is_integral< T >::value; double scale = integral ? 1000 : std::pow( 10, (double)r.range( -6, 6 ) ), ofs = r.chance( 1, 3 ) ? r.real( -100, 100 ) * scale : 0; const char* names[] = { "random", "sorted", "reversed", "constant", "ties", "whole", "mixed sizes" };
	for ( auto& x : v ) { double d = r.real( -1, 1 ) * scale + ofs; switch ( k ) { case 3: d = ofs; break; case 4: d = double( r.range( -2, 2 ) ) * scale; break; case 5: d = double( r.range( -1000, 1000 ) ); break; case 6: d = r.real( -1, 1 ) * ( integral ? std::pow( 10, (double)r.range( 0, 5 ) ) : std::pow( 10, (double)r.range( -6, 6 ) ) ); } x = T( d ); } if ( k == 1 ) std::sort( v.begin(), v.end() ); if ( k == 2 ) std::sort( v.rbegin(), v.rend() ); kind = names[ k ]; return v;
}
template< typename T > static string show_series( const vector< T >& v ) { string s = "["; for ( size_t i = 0; i < v.size() && i < 12; ++i ) s += ( i ? " " : "" ) + num( v[ i ] ); return s + ( v.size() > 12 ? " ... " + num( v.size() ) + " values]" : "]" ); }
template< typename T > static ld tol( const vector< T >& v ) { ld m = 0; for ( auto x : v ) m += std::fabs( (ld)x ); return ( m + 1e-300L ) * std::numeric_limits< T >::epsilon() * ( 4 + v.size() ); } // bound on the rounding of a sum of v
template< typename T > static void statistics( Rng& r )
{
	bool integral = std::is_integral< T >::value; string kind; vector< T > v = series< T >( r, 1, integral ? 3000 : 90000, kind ); const vector< T > keep = v; const vector< T >& cv = v; size_t n = v.size(); string w = kind + " " + show_series( v ); event( kind.c_str() ); note( w );
	vector< T > ref = v; std::sort( ref.begin(), ref.end() ); ld sum = 0; for ( auto x : v ) sum += x; ld eps = integral ? 0 : tol( v );
	VP_CHECK( "minimum", flut::min_element( v ) - v.begin() == std::min_element( keep.begin(), keep.end() ) - keep.begin() && *flut::min_element( cv ) == ref.front(), w ); VP_CHECK( "maximum", flut::max_element( v ) - v.begin() == std::max_element( keep.begin(), keep.end() ) - keep.begin() && *flut::max_element( cv ) == ref.back(), w );
	T avg = flut::average( v ), avg2 = flut::average( v.begin(), v.end() ); if ( integral ) VP_CHECK( "average", avg == T( (long long)sum / (long long)n ) && avg2 == avg, w + " gives " + num( avg ) ); else VP_CHECK( "average", near( avg, sum / n, eps / n ) && avg == avg2, w + " gives " + num( avg ) + " instead of " + num( sum / n ) );
	size_t b = r.below( n ), e = b + 1 + r.below( n - b ); { ld s = 0; for ( size_t i = b; i < e; ++i ) s += v[ i ]; T a = flut::average( cv.begin() + b, cv.begin() + e ); if ( !integral ) VP_CHECK( "average-part", near( a, s / ( e - b ), eps / ( e - b ) ), w + " part " + num( b ) + "-" + num( e ) ); }
	auto idx = flut::sort_indices( v ); VP_CHECK( "sort-order-size", idx.size() == n, w ); { vector< char > seen( n ); for ( size_t i = 0; i < n; ++i ) { VP_CHECK( "sort-order-permutation", idx[ i ] < n && !seen[ idx[ i ] ], w ); seen[ idx[ i ] ] = 1; VP_CHECK( "sort-order", keep[ idx[ i ] ] == ref[ i ], w + " position " + num( i ) ); } }
	VP_CHECK( "sorted-copy", flut::sorted_copy( v ) == ref, w ); T med = flut::median( v ); ld wm = n % 2 ? (ld)ref[ n / 2 ] : ( (ld)ref[ n / 2 ] + ref[ n / 2 - 1 ] ) / 2; if ( integral ) VP_CHECK( "median", med == T( wm ), w + " gives " + num( med ) ); else VP_CHECK( "median", near( med, wm, n % 2 ? 0 : std::fabs( wm ) * 4 * std::numeric_limits< T >::epsilon() + eps / n * 1e-3L ), w + " gives " + num( med ) + " instead of " + num( wm ) );
	size_t k = r.chance( 1, 4 ) ? n : 1 + r.below( n ); ld ts = 0; for ( size_t i = 0; i < k; ++i ) ts += ref[ i ]; T top = flut::top_average( v, k ); if ( integral ) VP_CHECK( "smallest-average", top == T( (long long)ts / (long long)k ), w + " first " + num( k ) + " gives " + num( top ) ); else VP_CHECK( "smallest-average", near( top, ts / k, eps / k ), w + " first " + num( k ) + " gives " + num( top ) + " instead of " + num( ts / k ) );
	T probe = r.chance( 1, 2 ) ? v[ r.below( n ) ] : T( r.range( -2000, 2000 ) ); auto f = std::find( keep.begin(), keep.end(), probe ); size_t at = f == keep.end() ? flut::no_index : size_t( f - keep.begin() ); event( f == keep.end() ? "absent values" : "present values" );
	VP_CHECK( "find-index", flut::find_index( v, probe ) == at, w + " looking for " + num( probe ) ); VP_CHECK( "find", flut::find( v, probe ) == ( at == flut::no_index ? v.end() : v.begin() + at ), w + " looking for " + num( probe ) ); VP_CHECK( "back-index", flut::back_index( v ) == n - 1, w );
	auto pred = [&]( const T& x ) { return x > probe; }; auto fi = std::find_if( keep.begin(), keep.end(), pred ); VP_CHECK( "find-if", flut::find_if( v, pred ) - v.begin() == fi - keep.begin() && flut::find_if( cv, pred ) - cv.begin() == fi - keep.begin(), w );
	vector< T > want; for ( auto x : keep ) if ( pred( x ) ) want.push_back( x ); vector< T > got; auto view = flut::make_view_if( v, pred ); for ( auto& x : view ) got.push_back( x ); VP_CHECK( "view", got == want, w + ": " + num( got.size() ) + " values, expected " + num( want.size() ) ); got.clear(); for ( auto it = view.begin(); it != view.end(); ) got.push_back( *it++ ); VP_CHECK( "view-post-increment", got == want, w ); got.clear(); auto part = flut::make_view_if( cv.begin() + b, cv.begin() + e, pred ); for ( auto& x : part ) got.push_back( x ); want.clear(); for ( size_t i = b; i < e; ++i ) if ( pred( v[ i ] ) ) want.push_back( v[ i ] ); VP_CHECK( "view-part", got == want, w ); event( want.empty() ? "empty views" : "views" );
	std::ostringstream s; flut::operator<<( s, v ); string text; for ( size_t i = 0; i < n; ++i ) { std::ostringstream o; o << v[ i ]; text += ( i ? "\t" : "" ) + o.str(); } VP_CHECK( "printed", s.str() == text + "\n", w + " prints " + vp::show( s.str() ) );
	VP_CHECK( "input-kept", v == keep, w ); if ( want_sample() ) sample( w );
	vector< T > none; VP_CHECK( "empty-median", throws( [&] { flut::median( none ); } ) && throws( [&] { flut::back_index( none ); } ) && flut::find_index( none, probe ) == flut::no_index && flut::sort_indices( none ).empty(), "empty series" );
}
PART( statistics, 6000, 200000 ) { switch ( r.below( 4 ) ) { case 0: statistics< float >( r ); break; case 1: statistics< int >( r ); break; default: statistics< double >( r ); } }
template< typename T > static void covariance( Rng& r )
{
	size_t nc = 1 + r.below( 6 ), nf = r.chance( 1, 20 ) ? 500 + r.below( r.chance( 1, 8 ) ? 20000 : 1500 ) : 1 + r.below( 30 ); flut::storage< T > sto; vector< vector< T > > data( nc ); string kind; double scale = std::pow( 10, (double)r.range( -4, 4 ) ); for ( size_t c = 0; c < nc; ++c ) { sto.add_channel( "ch" + num( c ) ); for ( size_t f = 0; f < nf; ++f ) data[ c ].push_back( T( r.chance( 1, 5 ) && c ? data[ 0 ][ f ] * 2 : r.real( -1, 1 ) * scale + ( c % 2 ? 10 * scale : 0 ) ) ); }
	if ( r.chance( 1, 4 ) ) for ( size_t f = 0; f < nf; ++f ) data[ nc - 1 ][ f ] = data[ nc - 1 ][ 0 ]; // a constant channel
	for ( size_t f = 0; f < nf; ++f ) { sto.add_frame(); for ( size_t c = 0; c < nc; ++c ) sto[ c ] = data[ c ][ f ]; } string w = num( nc ) + " channels, " + num( nf ) + " frames, first " + show_series( data[ 0 ] );
	auto means = flut::compute_channel_means( sto ); VP_CHECK( "means-size", means.size() == nc, w ); vector< ld > m( nc ); for ( size_t c = 0; c < nc; ++c ) { for ( auto x : data[ c ] ) m[ c ] += x; m[ c ] /= nf; VP_CHECK( "channel-mean", near( means[ c ], m[ c ], tol( data[ c ] ) / nf ), w + " channel " + num( c ) + " gives " + num( means[ c ] ) + " instead of " + num( m[ c ] ) ); }
	auto cov = flut::compute_covariance( sto ); VP_CHECK( "covariance-size", cov.row_size() == nc && cov.column_size() == nc, w ); ld eps = std::numeric_limits< T >::epsilon();
	for ( size_t a = 0; a < nc; ++a ) for ( size_t b = 0; b < nc; ++b ) { ld v = 0, s = 0; for ( size_t f = 0; f < nf; ++f ) { v += ( data[ a ][ f ] - m[ a ] ) * ( data[ b ][ f ] - m[ b ] ); s += ( std::fabs( (ld)data[ a ][ f ] ) + std::fabs( m[ a ] ) ) * ( std::fabs( (ld)data[ b ][ f ] ) + std::fabs( m[ b ] ) ); } VP_CHECK( "covariance", near( cov( a, b ), v / nf, s / nf * eps * ( 8 + nf ) ), w + " entry " + num( a ) + "," + num( b ) + " gives " + num( cov( a, b ) ) + " instead of " + num( v / nf ) ); }
	for ( size_t f = 0; f < nf; ++f ) for ( size_t c = 0; c < nc; ++c ) VP_CHECK( "storage-kept", sto( f, c ) == data[ c ][ f ], w ); event( "covariances" ); note( w ); if ( want_sample() ) sample( w );
}
PART( covariance, 1500, 40000 ) { if ( r.chance( 1, 3 ) ) covariance< float >( r ); else covariance< double >( r ); }
template< typename T > static void regression( Rng& r )
{
	string kind; vector< T > y = series< T >( r, 2, 90000, kind ), x( y.size() ); size_t n = y.size(); bool regular = r.chance( 1, 2 ); T x0 = T( r.real( -100, 100 ) ), st = T( ( r.chance( 1, 4 ) ? -1 : 1 ) * r.real( 0.1, 10 ) ); if ( r.chance( 1, 3 ) ) { x0 = T( r.range( -10, 10 ) ); st = T( 1 + r.below( 3 ) ); }
	const double xscale = r.chance( 1, 4 ) ? std::pow( 10, (double)r.range( -7, 5 ) ) : 1; x0 = T( x0 * xscale ); st = T( st * xscale );
	bool line = r.chance( 1, 3 ); T a = T( r.real( -10, 10 ) ), b = T( r.real( -5, 5 ) ); for ( size_t i = 0; i < n; ++i ) { x[ i ] = regular ? T( x0 + i * st ) : T( i < 2 ? x0 + i * st : xscale * r.real( -100, 100 ) ); if ( line ) y[ i ] = T( a + b * x[ i ] ); }
	auto fit = [&]( const vector< ld >& xs, ld& slope, ld& off, ld& es, ld& eo ) { ld mx = 0, my = 0, ax = 0, ay = 0; for ( size_t i = 0; i < n; ++i ) { mx += xs[ i ]; my += y[ i ]; ax = std::max( ax, std::fabs( xs[ i ] ) ); ay = std::max( ay, std::fabs( (ld)y[ i ] ) ); } mx /= n; my /= n; ld p = 0, q = 0; for ( size_t i = 0; i < n; ++i ) { p += ( xs[ i ] - mx ) * ( y[ i ] - my ); q += ( xs[ i ] - mx ) * ( xs[ i ] - mx ); } slope = p / q; off = my - slope * mx; ld eps = std::numeric_limits< T >::epsilon() * ( 16 + 4 * n ), sx = std::sqrt( q / n ); es = eps * ( ay / sx ) * ( 1 + ax / sx ) * ( 1 + ax / sx ); eo = es * ( ax + sx ) + eps * ay; };
	vector< ld > xs( x.begin(), x.end() ); ld s, o, es, eo; fit( xs, s, o, es, eo ); string w = kind + ( line ? " line" : "" ) + " x " + show_series( x ) + " y " + show_series( y );
	auto cx = x; auto cy = y; auto f = flut::linear_regression( x.begin(), x.end(), y.begin(), y.end() ); VP_CHECK( "slope", near( f.slope(), s, es ), w + " gives " + num( f.slope() ) + " instead of " + num( s ) ); VP_CHECK( "offset", near( f.offset(), o, eo ), w + " gives " + num( f.offset() ) + " instead of " + num( o ) );
	auto g = flut::linear_regression( x, y ); VP_CHECK( "containers", near( g.slope(), s, es ) && near( g.offset(), o, eo ), w ); VP_CHECK( "evaluates", near( f( x[ 0 ] ), o + s * x[ 0 ], eo + es * std::fabs( (ld)x[ 0 ] ) ), w );
	if ( regular ) { for ( size_t i = 0; i < n; ++i ) xs[ i ] = (ld)x0 + i * (ld)st; fit( xs, s, o, es, eo ); auto h = flut::linear_regression( x0, st, y ); VP_CHECK( "regular-slope", near( h.slope(), s, 4 * es ), w + " from samples gives " + num( h.slope() ) + " instead of " + num( s ) ); VP_CHECK( "regular-offset", near( h.offset(), o, 4 * eo ), w + " from samples gives " + num( h.offset() ) + " instead of " + num( o ) ); event( "regular samples" ); } else event( "x/y pairs" );
	if ( std::fabs( (ld)f.slope() ) > 1e-3L ) { T at = T( r.real( -100, 100 ) ); T xi = flut::intersect_y( f, at ); VP_CHECK( "inverts", near( (ld)f.offset() + (ld)f.slope() * xi, at, ( std::fabs( (ld)at ) + std::fabs( (ld)f.offset() ) ) * 8 * std::numeric_limits< T >::epsilon() ), w + " at " + num( at ) ); event( "inversions" ); }
	vector< T > shorter( y.begin(), y.end() - 1 ); VP_CHECK( "unequal-sizes", throws( [&] { flut::linear_regression( x.begin(), x.end(), shorter.begin(), shorter.end() ); } ), w ); VP_CHECK( "input-kept", x == cx && y == cy, w ); note( w ); if ( want_sample() ) sample( w );
}
PART( regression, 4000, 100000 ) { if ( r.chance( 1, 3 ) ) regression< float >( r ); else regression< double >( r ); }
static double cube( double x ) { return x * x * x - x; }
static double line( double x ) { return 3 * x + 1; }
PART( sampled_functions, 400, 8000 )
{
	Scratch s; double lo = r.real( -100, 100 ), hi = lo + r.real( 0.1, 100 ); int n = 2 + (int)r.below( 150 ); bool def = r.chance( 1, 5 ); if ( def ) n = 101; auto f = r.chance( 1, 2 ) ? cube : line; if ( def ) flut::output_function( flut::path( s / "f.txt" ), lo, hi, f ); else flut::output_function( flut::path( s / "f.txt" ), lo, hi, f, n ); string t; string w = num( n ) + " samples of " + num( lo ) + ".." + num( hi ); VP_CHECK( "file", get_file( s / "f.txt", t ), w );
	std::istringstream in( t ); string l; int k = 0; while ( std::getline( in, l ) ) { double x, y; VP_CHECK( "row", sscanf( l.c_str(), "%lf\t%lf", &x, &y ) == 2, w + " row " + vp::show( l ) ); double wx = lo + k * ( hi - lo ) / ( n - 1 ); VP_CHECK( "sample", near( x, wx, 1e-5 * ( std::fabs( wx ) + 1e-3 ) ) && near( y, f( wx ), 1e-5 * ( std::fabs( f( wx ) ) + 1e-3 ) ), w + " row " + num( k ) + " " + vp::show( l ) ); ++k; } VP_CHECK( "rows", k == n, w + ": " + num( k ) ); event( "functions sampled" ); note( w );
}
