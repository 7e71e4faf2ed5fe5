// C27 Random numbers are reproducible from the seed and respect their distribution
// vp-rule: random seeds and call sequences (uniform/normal, float/double, ranges of any sign and width, re-seeding, several generators interleaved); recorded sequences replayed and compared, ranges tested for every number, moments over long runs; counted by seed and call sequence
#include "flut/math/random.hpp"
#include "common.hpp"
using namespace vp;
using std::string;
typedef long double ld;
typedef flut::math::random_number_generator gen;

struct Call { int kind; double a, b; };
static std::vector< Call > calls( Rng& r, size_t n )
{
	std::vector< Call > v;
	for ( size_t i = 0; i < n; ++i )
	{
		Call c{ (int)r.below( 5 ), 0, 1 };
		if ( c.kind < 2 || c.kind == 4 ) { c.a = r.chance( 1, 4 ) ? r.pickd( { 0, -1, 1, -1e6, 1e3 } ) : r.real( -100, 100 ); c.b = c.a + ( r.chance( 1, 4 ) ? r.pickd( { 1, 1e-3, 1e6, 0.5 } ) : r.real( 0.001, 200 ) ); }
		else { c.a = r.real( -50, 50 ); c.b = r.real( 0.01, 20 ); }
		v.push_back( c );
	}
	return v;
}
static double one( gen& g, const Call& c, bool check = true )
{
	double v = 0;
	switch ( c.kind )
	{
	case 0: v = g.uni( c.a, c.b ); if ( check ) VP_CHECK( "range-double", v >= c.a && v <= c.b, num( v ) + " from " + num( c.a ) + ".." + num( c.b ) ); break;
	case 1: { float f = g.uni( float( c.a ), float( c.b ) ); v = f; if ( check ) VP_CHECK( "range-float", f >= float( c.a ) && f <= float( c.b ), num( f ) + " from " + num( c.a ) + ".." + num( c.b ) ); break; }
	case 2: v = g.norm( c.a, c.b ); break;
	case 3: v = g.norm( float( c.a ), float( c.b ) ); break;
	case 4: v = g.uni< double >(); if ( check ) VP_CHECK( "range-default", v >= 0 && v <= 1, num( v ) ); break;
	}
	VP_CHECK( "finite", std::isfinite( v ), num( v ) ); event( c.kind == 2 || c.kind == 3 ? "normal numbers" : "uniform numbers" ); return v;
}
static unsigned some_seed( Rng& r ) { return r.chance( 1, 6 ) ? (unsigned)r.pickd( { 0, 1, 123, 2147483646, 2147483647, 4294967295.0 } ) : (unsigned)r.next(); }
static std::vector< double > play( gen& g, const std::vector< Call >& cs ) { std::vector< double > v; for ( auto& c : cs ) v.push_back( one( g, c ) ); return v; }

PART( replay, 3000, 100000 )
{
	unsigned s = some_seed( r ), s2 = some_seed( r ); auto cs = calls( r, 1 + r.len( 200 ) ); string w = "seed " + num( s ) + " with " + num( cs.size() ) + " calls";
	gen a( s ), b( s ); auto va = play( a, cs ), vb = play( b, cs ); VP_CHECK( "same-seed", va == vb, w );
	a.seed( s ); VP_CHECK( "re-seed", play( a, cs ) == va, w ); gen c( s2 ); play( c, cs ); c.seed( s ); VP_CHECK( "re-seed-other", play( c, cs ) == va, w + " other seed " + num( s2 ) );
	gen d; gen e( 123 ); VP_CHECK( "default-seed", play( d, cs ) == play( e, cs ), w ); gen copy( a ); auto more = calls( r, 20 ); VP_CHECK( "copy-continues", play( copy, more ) == play( a, more ), w );
	// different seeds give different sequences (20 doubles cannot agree by chance)
	if ( s % 2147483647u != s2 % 2147483647u && s % 2147483647u > 1 && s2 % 2147483647u > 1 ) { gen x( s ), y( s2 ); std::vector< Call > u( 20, Call{ 0, 0, 1 } ); VP_CHECK( "seed-matters", play( x, u ) != play( y, u ), "seeds " + num( s ) + " and " + num( s2 ) ); }
	{ gen x( s ), y( s ); for ( int i = 0; i < 20; ++i ) { double u = x.uni< double >(); VP_CHECK( "default-range", u == y.uni( 0.0, 1.0 ), w + " gives " + num( u ) ); } }
	{ gen x( s ); std::set< double > seen; for ( int i = 0; i < 20; ++i ) seen.insert( x.uni( 0.0, 1.0 ) ); VP_CHECK( "advances", seen.size() >= 19, w ); }
	note( w + num( s2 ) ); if ( want_sample() ) sample( w + " first " + num( va[ 0 ] ) );
}
PART( independent, 1500, 50000 )
{
	// several generators used alternately, together with the global one, give the sequences they give alone
	size_t k = 2 + r.below( 4 ); std::vector< unsigned > seeds; std::vector< std::vector< Call > > cs; std::vector< std::vector< double > > alone, mixed( k ); std::vector< gen > g; std::vector< size_t > at( k, 0 ); size_t left = 0;
	for ( size_t i = 0; i < k; ++i ) { seeds.push_back( some_seed( r ) ); cs.push_back( calls( r, 1 + r.below( 40 ) ) ); gen x( seeds[ i ] ); alone.push_back( play( x, cs[ i ] ) ); g.emplace_back( seeds[ i ] ); left += cs[ i ].size(); }
	unsigned gs = some_seed( r ); auto gc = calls( r, 30 ); gen::global_instance().seed( gs ); std::vector< double > ga, gm; { gen x( gs ); ga = play( x, gc ); }
	while ( left ) { if ( r.chance( 1, 4 ) && gm.size() < gc.size() ) gm.push_back( one( gen::global_instance(), gc[ gm.size() ] ) ); size_t i = r.below( k ); if ( at[ i ] == cs[ i ].size() ) continue; mixed[ i ].push_back( one( g[ i ], cs[ i ][ at[ i ]++ ] ) ); --left; }
	for ( size_t i = 0; i < k; ++i ) VP_CHECK( "no-influence", mixed[ i ] == alone[ i ], "generator " + num( i ) + " of " + num( k ) + " seed " + num( seeds[ i ] ) );
	for ( size_t i = 0; i < gm.size(); ++i ) VP_CHECK( "global-sequence", gm[ i ] == ga[ i ], "global seed " + num( gs ) ); event( "interleaved generators", k ); note( num( gs ) + num( seeds[ 0 ] ) );
	// the global functions draw from the global generator
	gen::global_instance().seed( gs ); gen x( gs ); double a = r.real( -5, 5 ), b = a + r.real( 0.1, 9 ); VP_CHECK( "global-functions", flut::rand_uni( a, b ) == x.uni( a, b ) && flut::rand_norm( a, b - a ) == x.norm( a, b - a ) && flut::rand_uni( float( a ), float( b ) ) == x.uni( float( a ), float( b ) ) && &gen::global_instance() == &gen::global_instance(), "global seed " + num( gs ) );
}
template< typename T > void moments( Rng& r, bool normal )
{
	// bounds are 9 standard errors (mean, variance) so that a correct generator never fails
	unsigned s = some_seed( r ); gen g( s ); const size_t n = 4000; double a = r.chance( 1, 5 ) ? 0 : r.real( -50, 50 ), b = normal ? r.real( 0.01, 20 ) : a + r.real( 0.01, 100 );
	if ( r.chance( 1, 2 ) )
	{
		// other magnitudes; the offset stays small enough for the spread to be visible in T
		double scale = std::pow( 10.0, r.real( -9, 9 ) ), limit = sizeof( T ) == 4 ? 1e3 : 1e10; a = r.chance( 1, 3 ) ? 0 : scale * std::pow( 10.0, r.real( 0, std::log10( limit ) ) ) * ( r.chance( 1, 2 ) ? 1 : -1 ); a = T( a ); b = normal ? double( T( scale ) ) : double( T( a + scale ) ); event( "other magnitudes" );
	}
	ld m = normal ? a : ( a + b ) / 2, v = normal ? (ld)b * b : ( (ld)b - a ) * ( (ld)b - a ) / 12, kurt = normal ? 3 : 1.8L, sum = 0, sq = 0, third = 0; std::vector< int > bins( 10 ); ld lag = 0, prev = 0; size_t same = 0;
	string w = string( normal ? "normal " : "uniform " ) + num( a ) + " " + num( b ) + " seed " + num( s );
	for ( size_t i = 0; i < n; ++i ) { T x = normal ? g.norm( T( a ), T( b ) ) : g.uni( T( a ), T( b ) ); ld d = x - m; sum += d; sq += d * d; third += d * d * d; if ( i ) lag += d * prev; prev = d; ld p = normal ? 0.5L * std::erfc( -(double)( d / std::sqrt( v ) ) / std::sqrt( 2.0 ) ) : ( (ld)x - a ) / ( (ld)b - a ); int q = (int)( p * 10 ); ++bins[ q < 0 ? 0 : q > 9 ? 9 : q ]; (void)same; }
	VP_CHECK( "mean", std::fabs( sum / n ) <= 9 * std::sqrt( v / n ), w + " mean off by " + num( sum / n ) ); VP_CHECK( "spread", std::fabs( sq / n - v ) <= 9 * v * std::sqrt( ( kurt - 1 ) / n ), w + " variance " + num( sq / n ) ); VP_CHECK( "independent-draws", std::fabs( lag / n ) <= 9 * v / std::sqrt( (ld)n ), w + " autocovariance " + num( lag / n ) );
	for ( int q = 0; q < 10; ++q ) VP_CHECK( "shape", std::fabs( bins[ q ] - n / 10.0 ) <= 9 * std::sqrt( n * 0.09 ), w + " tenth " + num( q ) + " holds " + num( bins[ q ] ) );
	evals( n ); event( normal ? "normal moments" : "uniform moments" ); note( w ); if ( want_sample() ) sample( w );
}
PART( uniform_moments, 120, 4000 ) { if ( r.chance( 1, 2 ) ) moments< double >( r, false ); else moments< float >( r, false ); }
// long runs: the share beyond k standard deviations on either side, and of each hundredth, within 9 standard errors
PART( tails, 24, 400 )
{
	unsigned s = some_seed( r ); gen g( s ); const size_t n = 400000; double m = r.real( -5, 5 ), d = r.real( 0.1, 9 ); bool fl = r.chance( 1, 3 ); size_t lo[ 5 ] = {}, hi[ 5 ] = {}; std::vector< size_t > bins( 100 ), ubins( 100 ); string w = "normal " + num( m ) + " " + num( d ) + ( fl ? " float" : "" ) + " seed " + num( s );
	for ( size_t i = 0; i < n; ++i ) { double x = fl ? double( g.norm( float( m ), float( d ) ) ) : g.norm( m, d ), z = ( x - m ) / d; for ( int k = 0; k < 5; ++k ) { lo[ k ] += z < -k; hi[ k ] += z > k; } int q = (int)( 50 * std::erfc( -z / std::sqrt( 2.0 ) ) ); ++bins[ q < 0 ? 0 : q > 99 ? 99 : q ]; double u = fl ? double( g.uni( 0.0f, 1.0f ) ) : g.uni( 0.0, 1.0 ); int v = (int)( u * 100 ); ++ubins[ v > 99 ? 99 : v ]; }
	for ( int k = 0; k < 5; ++k ) { double e = n * 0.5 * std::erfc( k / std::sqrt( 2.0 ) ), t = 9 * std::sqrt( e ) + 9; VP_CHECK( "tails", std::fabs( lo[ k ] - e ) <= t && std::fabs( hi[ k ] - e ) <= t, w + ": " + num( lo[ k ] ) + " and " + num( hi[ k ] ) + " of " + num( n ) + " beyond " + num( k ) + " deviations" ); }
	for ( int q = 0; q < 100; ++q ) { double t = 9 * std::sqrt( n * 0.01 ); VP_CHECK( "fine-shape", std::fabs( bins[ q ] - n * 0.01 ) <= t && std::fabs( ubins[ q ] - n * 0.01 ) <= t, w + " hundredth " + num( q ) + " holds " + num( bins[ q ] ) + ", uniform " + num( ubins[ q ] ) ); }
	evals( n ); event( "long runs" ); note( w );
}
PART( normal_moments, 120, 4000 ) { if ( r.chance( 1, 2 ) ) moments< double >( r, true ); else moments< float >( r, true ); }
