// C16 Flat maps and sorted vectors behave as a map and a sorted multiset
// vp-rule: random histories of inserts, overwrites, lookups, erasures and copies on flat maps (string and integer keys) and sorted vectors (integers, strings, tagged elements whose order ignores the tag), compared in full with ordinary containers after every operation; non-trivial: at least 3 elements alive at some point; counted by history
#include "flut/flat_map.hpp"
#include "flut/sorted_vector.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

template< typename K > K make_key( Rng& r );
template<> int make_key< int >( Rng& r ) { return r.chance( 1, 8 ) ? ( r.chance( 1, 2 ) ? std::numeric_limits< int >::min() : std::numeric_limits< int >::max() ) : (int)r.range( -6, 6 ); }
template<> string make_key< string >( Rng& r ) { return r.chance( 1, 8 ) ? r.bytes( r.len( 60 ) ) : r.text( "ab", r.below( 4 ) ); }
static string text( int v ) { return num( v ); }
static string text( const string& s ) { return vp::show( s, 20 ); }

template< typename K > void map_history( Rng& r )
{
	typedef flut::flat_map< K, string > map_t; typedef std::vector< std::pair< K, string > > ref_t;
	map_t m[ 2 ]; ref_t ref[ 2 ]; string trace; size_t most = 0;
	auto pos = [&]( const ref_t& v, const K& k ) { size_t i = 0; while ( i < v.size() && !( v[ i ].first == k ) ) ++i; return i; };
	size_t steps = r.chance( 1, 40 ) ? 300 : 5 + r.below( 40 );
	for ( size_t s = 0; s < steps; ++s )
	{
		int a = (int)r.below( 2 ); K k = make_key< K >( r ); string v = r.text( "xyz", r.below( 5 ) ); size_t p = pos( ref[ a ], k );
		trace += " | " + num( a ) + ":";
		switch ( r.below( 10 ) )
		{
		case 0: case 1: case 2: case 3: m[ a ][ k ] = v; if ( p == ref[ a ].size() ) ref[ a ].emplace_back( k, v ); else ref[ a ][ p ].second = v; trace += "[" + text( k ) + "]=" + v; break;
		case 4: { string got = m[ a ][ k ]; if ( p == ref[ a ].size() ) ref[ a ].emplace_back( k, "" ); VP_CHECK( "index-value", got == ref[ a ][ p ].second, trace ); trace += "read[" + text( k ) + "]"; break; }
		case 5:
			if ( p == ref[ a ].size() ) { VP_CHECK( "at-missing", throws( [&] { m[ a ].at( k ); } ), trace ); } else { m[ a ].at( k ) = v; ref[ a ][ p ].second = v; }
			trace += "at(" + text( k ) + ")"; break;
		case 6: { auto it = m[ a ].find( k ); if ( p < ref[ a ].size() ) { m[ a ].erase( it ); ref[ a ].erase( ref[ a ].begin() + p ); trace += "erase " + text( k ); } else VP_CHECK( "find-missing", it == m[ a ].end(), trace ); break; }
		case 7: if ( r.chance( 1, 6 ) ) { m[ a ].clear(); ref[ a ].clear(); trace += "clear"; } break;
		case 8: m[ a ] = m[ 1 - a ]; ref[ a ] = ref[ 1 - a ]; trace += "copy"; break;
		default: { auto it = m[ a ].find( k ); if ( p < ref[ a ].size() ) { it->second = v; ref[ a ][ p ].second = v; trace += "find(" + text( k ) + ")=" + v; } }
		}
		event( "map operation" );
		for ( int i = 0; i < 2; ++i )
		{
			const map_t& c = m[ i ]; most = std::max( most, ref[ i ].size() );
			VP_CHECK( "map-size", c.size() == ref[ i ].size() && c.empty() == ref[ i ].empty(), trace );
			size_t j = 0; for ( auto& e : c ) { VP_CHECK( "map-content", e.first == ref[ i ][ j ].first && e.second == ref[ i ][ j ].second, "entry " + num( j ) + " is " + text( e.first ) + ":" + e.second + " after" + trace ); ++j; }
			if ( !ref[ i ].empty() ) VP_CHECK( "map-ends", c.front() == ref[ i ].front() && c.back() == ref[ i ].back(), trace );
			K q = make_key< K >( r ); size_t pq = pos( ref[ i ], q ); bool have = pq < ref[ i ].size();
			VP_CHECK( "map-lookup", c.has_key( q ) == have && c.count( q ) == ( have ? 1u : 0u ) && size_t( c.find( q ) - c.begin() ) == pq, text( q ) + " after" + trace );
			if ( have ) VP_CHECK( "map-at", c.at( q ) == ref[ i ][ pq ].second && c[ q ] == ref[ i ][ pq ].second, text( q ) + " after" + trace );
			else { VP_CHECK( "map-at-missing", throws( [&] { c.at( q ); } ) && throws( [&] { c[ q ]; } ) && throws( [&] { m[ i ].at( q ); } ), text( q ) + " after" + trace ); VP_CHECK( "no-insert", c.size() == ref[ i ].size(), trace ); }
		}
	}
	if ( most >= 3 ) note( trace );
	if ( want_sample() ) sample( trace );
}
PART( flat_map_int, 5000, 150000 ) { map_history< int >( r ); }
PART( flat_map_string, 5000, 150000 ) { map_history< string >( r ); }

struct Tagged { int key; int tag; bool operator<( const Tagged& o ) const { return key < o.key; } bool operator==( const Tagged& o ) const { return key == o.key; } };
template< typename T > T make_elem( Rng& r, int n );
template<> int make_elem< int >( Rng& r, int ) { return make_key< int >( r ); }
template<> string make_elem< string >( Rng& r, int ) { return make_key< string >( r ); }
template<> Tagged make_elem< Tagged >( Rng& r, int n ) { return Tagged{ (int)r.range( -5, 5 ), n }; }
template<> double make_elem< double >( Rng& r, int ) { return r.chance( 1, 6 ) ? r.pickd( { -INFINITY, INFINITY, 0.0, -0.0, 1e-308, -1e308 } ) : (double)r.range( -4, 4 ) * 0.5; }
static bool same( int a, int b ) { return a == b; }
static bool same( double a, double b ) { return a == b; }
static bool same( const string& a, const string& b ) { return a == b; }
static bool same( const Tagged& a, const Tagged& b ) { return a.key == b.key && a.tag == b.tag; }
static string text( double v ) { return num( v ); }
static string text( const Tagged& t ) { return num( t.key ) + "#" + num( t.tag ); }

template< typename T > void vector_history( Rng& r )
{
	flut::sorted_vector< T > v[ 2 ]; std::vector< T > ref[ 2 ]; string trace; size_t most = 0; int serial = 0;
	size_t steps = r.chance( 1, 40 ) ? 400 : 5 + r.below( 40 );
	for ( size_t s = 0; s < steps; ++s )
	{
		int a = (int)r.below( 2 ); T e = make_elem< T >( r, ++serial ); trace += " | " + num( a ) + ":";
		switch ( r.below( 8 ) )
		{
		case 0: case 1: case 2: case 3:
			{
				auto it = v[ a ].insert( e ); size_t p = 0; while ( p < ref[ a ].size() && !( e < ref[ a ][ p ] ) ) ++p;
				ref[ a ].insert( ref[ a ].begin() + p, e ); trace += "insert " + text( e );
				VP_CHECK( "insert-position", size_t( it - v[ a ].begin() ) == p && same( *it, e ), trace ); break;
			}
		case 4: { if ( ref[ a ].empty() ) break; T x = ref[ a ][ r.below( ref[ a ].size() ) ]; auto it = v[ a ].insert( v[ a ].size() ? *v[ a ].find( x ) : x ); T own = *it; size_t p = 0; while ( p < ref[ a ].size() && !( own < ref[ a ][ p ] ) ) ++p; ref[ a ].insert( ref[ a ].begin() + p, own ); trace += "insert own " + text( own ); break; }
		case 5:
			{
				auto it = v[ a ].find( e ); bool have = false; for ( auto& x : ref[ a ] ) have = have || x == e;
				VP_CHECK( "find", ( it != v[ a ].end() ) == have && ( !have || *it == e ), text( e ) + " after" + trace );
				if ( have ) { size_t p = it - v[ a ].begin(); v[ a ].erase( it ); ref[ a ].erase( ref[ a ].begin() + p ); trace += "erase " + text( e ); } break;
			}
		case 6: if ( r.chance( 1, 8 ) ) { v[ a ].clear(); ref[ a ].clear(); trace += "clear"; } break;
		default: v[ a ] = v[ 1 - a ]; ref[ a ] = ref[ 1 - a ]; trace += "copy";
		}
		event( "sorted operation" );
		for ( int i = 0; i < 2; ++i )
		{
			const auto& c = v[ i ]; most = std::max( most, ref[ i ].size() );
			VP_CHECK( "sorted-size", c.size() == ref[ i ].size() && c.empty() == ref[ i ].empty(), trace );
			size_t j = 0; for ( auto& x : c ) { VP_CHECK( "sorted-content", same( x, ref[ i ][ j ] ), "element " + num( j ) + " is " + text( x ) + " after" + trace ); ++j; }
			for ( int k = 0; k < 3; ++k )
			{
				T q = make_elem< T >( r, 0 ); bool have = false; for ( auto& x : ref[ i ] ) have = have || x == q;
				auto it = c.find( q ); auto im = v[ i ].find( q );
				VP_CHECK( "sorted-find", ( it != c.end() ) == have && ( im != v[ i ].end() ) == have && ( !have || ( *it == q && *im == q ) ), text( q ) + " after" + trace );
			}
		}
	}
	if ( most >= 3 ) note( trace );
}
PART( sorted_int, 4000, 120000 ) { vector_history< int >( r ); }
PART( sorted_string, 3000, 80000 ) { vector_history< string >( r ); }
PART( sorted_double, 3000, 80000 ) { vector_history< double >( r ); }
PART( sorted_tagged, 4000, 120000 ) { vector_history< Tagged >( r ); }
// many elements: sizes far beyond the short histories, compared in full at intervals
template< typename K > void large_map( Rng& r, std::function< K( uint64_t ) > key )
{
	flut::flat_map< K, int > m; std::vector< std::pair< K, int > > order; std::map< K, int > ref; size_t n = 20 + r.len( 1200 ), range = 1 + r.below( 2 * n ); string w = num( n ) + " operations on " + num( range ) + " keys";
	auto same = [&] { const auto& c = m; VP_CHECK( "large-map-size", c.size() == ref.size(), w ); size_t j = 0; for ( auto& e : c ) { VP_CHECK( "large-map-content", j < order.size() && e.first == order[ j ].first && e.second == ref.at( e.first ), w + " entry " + num( j ) ); ++j; } for ( auto& e : ref ) VP_CHECK( "large-map-lookup", c.has_key( e.first ) && c.count( e.first ) == 1 && c.at( e.first ) == e.second && c[ e.first ] == e.second && c.find( e.first )->second == e.second, w ); };
	for ( size_t i = 0; i < n; ++i )
	{
		K k = key( r.below( range ) ); bool have = ref.count( k ) > 0;
		if ( r.chance( 1, 12 ) ) { auto it = m.find( k ); VP_CHECK( "large-map-find", ( it != m.end() ) == have, w ); if ( have ) { m.erase( it ); ref.erase( k ); for ( size_t j = 0; j < order.size(); ++j ) if ( order[ j ].first == k ) { order.erase( order.begin() + j ); break; } } }
		else { if ( !have ) order.emplace_back( k, 0 ); m[ k ] = int( i ); ref[ k ] = int( i ); }
		event( "map operation" ); VP_CHECK( "large-map-size", m.size() == ref.size(), w ); if ( i % 200 == 199 ) same();
	}
	same(); auto c = m; m.clear(); VP_CHECK( "large-map-copy", c.size() == ref.size() && m.empty(), w ); m = c; same(); note( w );
}
PART( large_maps, 120, 3000 ) { if ( idx % 2 ) large_map< int >( r, []( uint64_t k ) { return int( k * 2654435761u ); } ); else large_map< string >( r, []( uint64_t k ) { return "key " + num( k ); } ); }
template< typename T > void large_sorted( Rng& r, std::function< T( uint64_t, int ) > make )
{
	flut::sorted_vector< T > v; std::vector< T > ref; size_t n = 20 + r.len( 3000 ), range = 1 + r.below( 2 * n ); string w = num( n ) + " operations on " + num( range ) + " keys"; int style = (int)r.below( 3 );
	for ( size_t i = 0; i < n; ++i )
	{
		T e = make( style == 0 ? i * range / n : style == 1 ? range - i * range / n : r.below( range ), int( i ) ); // ascending, descending, any
		auto at = std::upper_bound( ref.begin(), ref.end(), e );
		if ( r.chance( 1, 12 ) ) { auto it = v.find( e ); bool have = at != ref.begin() && !( *( at - 1 ) < e ); VP_CHECK( "large-sorted-find", ( it != v.end() ) == have && ( !have || *it == e ), w ); if ( have ) { size_t p = it - v.begin(); v.erase( it ); ref.erase( ref.begin() + p ); } }
		else { size_t p = at - ref.begin(); ref.insert( at, e ); auto it = v.insert( e ); VP_CHECK( "large-sorted-position", size_t( it - v.begin() ) == p && ::same( *it, e ), w ); }
		event( "sorted operation" ); VP_CHECK( "large-sorted-size", v.size() == ref.size(), w );
	}
	const auto& c = v; size_t j = 0; for ( auto& x : c ) { VP_CHECK( "large-sorted-content", ::same( x, ref[ j ] ), w + " element " + num( j ) ); ++j; } VP_CHECK( "large-sorted-size", j == ref.size(), w );
	for ( auto& x : ref ) { auto it = c.find( x ); VP_CHECK( "large-sorted-find", it != c.end() && *it == x, w ); } note( w );
}
PART( large_vectors, 120, 3000 ) { if ( idx % 3 == 0 ) large_sorted< int >( r, []( uint64_t k, int ) { return int( k ) - 500; } ); else if ( idx % 3 == 1 ) large_sorted< Tagged >( r, []( uint64_t k, int n ) { return Tagged{ int( k ), n }; } ); else large_sorted< double >( r, []( uint64_t k, int ) { return k * 0.25 - 100; } ); }
