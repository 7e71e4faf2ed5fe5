// C18 Dynamic arrays and cloned pointers have full value semantics without leaks
// vp-rule: random histories over 3 live arrays of lifetime-counted and plain elements (construct, copy, move, assign, self-assign, fill, write), and random vectors of owning pointers cloned and modified; contents and live-object count compared after every operation; non-trivial: at least one non-empty assignment or clone; counted by history
#include "flut/dynarray.hpp"
#include "flut/memory_tools.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

static long live = 0;
struct Counted
{
	int* v; Counted( int x = 0 ) : v( new int( x ) ) { ++live; } Counted( const Counted& o ) : v( new int( *o.v ) ) { ++live; }
	Counted& operator=( const Counted& o ) { int* n = new int( *o.v ); delete v; v = n; return *this; }
	~Counted() { delete v; --live; }
	bool operator==( const Counted& o ) const { return *v == *o.v; }
};
template< typename T > struct Maker;
template<> struct Maker< Counted > { static Counted make( int n ) { return Counted( n ); } };
template<> struct Maker< int > { static int make( int n ) { return n; } };
template<> struct Maker< string > { static string make( int n ) { return "element value " + std::to_string( n ); } };

template< typename T > void history( Rng& r, bool defined )
{
	long base = live;
	{
		flut::dynarray< T > d[ 3 ]; std::vector< T > ref[ 3 ]; string trace; int n = 0; bool busy = false;
		size_t steps = r.chance( 1, 30 ) ? 150 : 5 + r.below( 30 );
		for ( size_t s = 0; s < steps; ++s )
		{
			int a = (int)r.below( 3 ), b = (int)r.below( 3 ); size_t len = r.chance( 1, 20 ) ? r.len( 600 ) : r.below( 7 ); T v = Maker< T >::make( ++n );
			trace += " | " + num( a ) + ":";
			switch ( r.below( 11 ) )
			{
			case 0: d[ a ] = flut::dynarray< T >( len ); VP_CHECK( "sized", d[ a ].size() == len, trace ); if ( !defined ) d[ a ].assign( v ); ref[ a ].assign( len, defined ? T() : v ); trace += "sized " + num( len ); break;
			case 1: d[ a ] = flut::dynarray< T >( len, v ); ref[ a ].assign( len, v ); trace += "filled " + num( len ); busy = busy || len; break;
			case 2: case 3: d[ a ] = d[ b ]; { auto c = ref[ b ]; ref[ a ] = c; } trace += "= " + num( b ); busy = busy || ref[ b ].size(); break;
			case 4: d[ a ] = std::move( d[ b ] ); if ( a != b ) { ref[ a ] = ref[ b ]; ref[ b ].clear(); } trace += "= move " + num( b ); break;
			case 5: { flut::dynarray< T > c( d[ b ] ); VP_CHECK( "copy-construct", std::vector< T >( c.begin(), c.end() ) == ref[ b ], trace ); c.assign( v ); trace += "copy " + num( b ); break; }
			case 6: { flut::dynarray< T > c( std::move( d[ a ] ) ); VP_CHECK( "moved-from", d[ a ].size() == 0 && d[ a ].begin() == d[ a ].end(), trace ); VP_CHECK( "move-construct", std::vector< T >( c.begin(), c.end() ) == ref[ a ], trace ); if ( r.chance( 1, 2 ) ) d[ a ] = std::move( c ); else { ref[ a ].clear(); } trace += "move construct"; break; }
			case 7: d[ a ].assign( v ); std::fill( ref[ a ].begin(), ref[ a ].end(), v ); trace += "assign"; break;
			case 8: if ( !ref[ a ].empty() ) { size_t i = r.below( ref[ a ].size() ); if ( r.chance( 1, 2 ) ) d[ a ][ i ] = v; else d[ a ].at( i ) = v; ref[ a ][ i ] = v; trace += "[" + num( i ) + "]="; } break;
			case 9: if ( !ref[ a ].empty() ) { size_t i = r.below( ref[ a ].size() ); T c = ref[ a ][ i ]; if ( r.chance( 1, 2 ) ) d[ a ].assign( c ); else d[ a ].assign( d[ a ][ i ] ); std::fill( ref[ a ].begin(), ref[ a ].end(), c ); trace += "assign copy of " + num( i ); } break;
			default: std::swap( d[ a ], d[ b ] ); std::swap( ref[ a ], ref[ b ] ); trace += "swap " + num( b );
			}
			event( "array operation" );
			for ( int i = 0; i < 3; ++i )
			{
				const auto& c = d[ i ];
				VP_CHECK( "size", c.size() == ref[ i ].size() && size_t( c.end() - c.begin() ) == ref[ i ].size() && size_t( c.cend() - c.cbegin() ) == ref[ i ].size(), num( c.size() ) + " expected " + num( ref[ i ].size() ) + " after" + trace );
				for ( size_t j = 0; j < ref[ i ].size(); ++j ) VP_CHECK( "content", c[ j ] == ref[ i ][ j ] && c.at( j ) == ref[ i ][ j ] && c.data()[ j ] == ref[ i ][ j ] && &d[ i ][ j ] == d[ i ].data() + j && *( c.begin() + j ) == ref[ i ][ j ], "array " + num( i ) + " element " + num( j ) + " after" + trace );
				VP_CHECK( "at-range", throws( [&] { c.at( ref[ i ].size() ); } ) && throws( [&] { d[ i ].at( ref[ i ].size() + r.below( 5 ) ); } ) && throws( [&] { d[ i ].at( ~size_t( 0 ) ); } ), trace );
			}
		}
		if ( busy ) note( trace );
		if ( want_sample() ) sample( trace );
	}
	VP_CHECK( "all-destroyed", live == base, num( live - base ) + " elements alive after all arrays are gone" );
}
PART( counted, 4000, 120000 ) { history< Counted >( r, true ); }
PART( strings, 3000, 80000 ) { history< string >( r, true ); }
PART( ints, 3000, 80000 ) { history< int >( r, false ); }

PART( clones, 8000, 200000 )
{
	long base = live; string trace; size_t full = 0;
	{
		std::vector< std::unique_ptr< Counted > > v; std::vector< int > ref; // -1: empty
		for ( size_t n = r.chance( 1, 20 ) ? r.len( 300 ) : r.below( 8 ); n; --n )
		{
			if ( r.chance( 1, 4 ) ) { v.emplace_back(); ref.push_back( -1 ); } else { int x = (int)r.below( 1000 ); v.emplace_back( new Counted( x ) ); ref.push_back( x ); ++full; }
			trace += num( ref.back() ) + " ";
		}
		auto c = flut::clone( v ); event( "clone" );
		VP_CHECK( "clone-size", c.size() == v.size(), trace );
		VP_CHECK( "clone-count", live - base == long( 2 * full ), num( live - base ) + " alive after cloning " + trace );
		for ( size_t i = 0; i < ref.size(); ++i )
		{
			VP_CHECK( "clone-null", !c[ i ] == ( ref[ i ] < 0 ) && !v[ i ] == ( ref[ i ] < 0 ), trace );
			if ( ref[ i ] >= 0 ) { VP_CHECK( "clone-value", *c[ i ]->v == ref[ i ] && *v[ i ]->v == ref[ i ] && c[ i ].get() != v[ i ].get(), trace ); *c[ i ]->v += 1; VP_CHECK( "clone-independent", *v[ i ]->v == ref[ i ], trace ); }
			auto one = flut::clone( v[ i ] ); VP_CHECK( "clone-one", !one == ( ref[ i ] < 0 ) && ( !one || ( *one == *v[ i ] && one.get() != v[ i ].get() ) ), trace );
		}
		v.clear();
		for ( size_t i = 0; i < ref.size(); ++i ) if ( ref[ i ] >= 0 ) VP_CHECK( "clone-survives", *c[ i ]->v == ref[ i ] + 1, trace );
	}
	VP_CHECK( "all-destroyed", live == base, num( live - base ) + " left of " + trace );
	if ( full ) note( trace );
}
template< typename T > void large( Rng& r )
{
	long base = live;
	{
		size_t n = 1000 + r.len( 200000 ); if ( r.chance( 1, 2 ) ) n = ( size_t( 1 ) << ( 10 + r.below( 8 ) ) ) + r.below( 3 ) - 1; T a = Maker< T >::make( 1 ), b = Maker< T >::make( 2 ); string w = num( n ) + " elements"; std::vector< T > ref( n, a );
		flut::dynarray< T > d( n, a ); for ( int k = 0; k < 50; ++k ) { size_t i = r.below( n ); d[ i ] = Maker< T >::make( k ); ref[ i ] = Maker< T >::make( k ); } d[ n - 1 ] = b; ref[ n - 1 ] = b;
		auto same = [&]( const flut::dynarray< T >& x, const char* what ) { VP_CHECK( "large-size", x.size() == ref.size(), w + " " + what ); VP_CHECK( "large-content", std::equal( x.begin(), x.end(), ref.begin() ) && x.at( n - 1 ) == ref[ n - 1 ], w + " " + what ); VP_CHECK( "large-range", throws( [&] { x.at( n ); } ), w + " " + what ); event( "array operation" ); };
		same( d, "filled" ); flut::dynarray< T > c( d ); same( c, "copied" ); flut::dynarray< T > e( 3, b ); e = d; same( e, "assigned" ); { flut::dynarray< T > z( n, a ); z = d; same( z, "assigned to one of the same size" ); flut::dynarray< T > y( n + 1, a ); y = d; same( y, "assigned to a larger one" ); y = y; same( y, "assigned to itself" ); std::swap( y, z ); same( y, "swapped" ); same( z, "swapped" ); } flut::dynarray< T > m( std::move( c ) ); same( m, "moved" ); e = flut::dynarray< T >( 1, a ); e = std::move( m ); same( e, "move assigned" ); same( d, "original" ); e[ 0 ] = Maker< T >::make( 77 ); same( d, "original after a write to the copy" );
		d.assign( b ); ref.assign( n, b ); same( d, "assign" ); note( w );
	}
	VP_CHECK( "all-destroyed", live == base, num( live - base ) + " elements left" );
}
PART( large_arrays, 60, 1500 ) { if ( idx % 3 == 0 ) large< int >( r ); else if ( idx % 3 == 1 ) large< Counted >( r ); else large< string >( r ); }
