// C17 A circular deque keeps its elements and order through growth and wrap-around
// vp-rule: random and exhaustive short histories of push/pop at both ends, clear, reserve, copy and writes from every small initial capacity, compared with std::deque after every operation; non-trivial: ring wrapped around (front not at slot zero) while growing or reserving; counted by history
#include "flut/circular_deque.hpp"
#include "common.hpp"
#include <deque>
using namespace vp;
using std::string;

template< typename T > T make( int n );
template<> int make< int >( int n ) { return n; }
template<> string make< string >( int n ) { return "value number " + std::to_string( n ); }
template<> std::vector< int > make< std::vector< int > >( int n ) { return std::vector< int >( n % 5, n ); }

template< typename T > void compare( flut::circular_deque< T >& d, const std::deque< T >& ref, const string& trace )
{
	const flut::circular_deque< T >& c = d;
	VP_CHECK( "size", c.size() == ref.size() && c.empty() == ref.empty() && c.capacity() >= c.size() && c.full() == ( c.size() == c.capacity() ), num( c.size() ) + " elements, expected " + num( ref.size() ) + " after" + trace );
	for ( size_t i = 0; i < ref.size(); ++i ) VP_CHECK( "index", d[ i ] == ref[ i ] && c[ i ] == ref[ i ], "element " + num( i ) + " after" + trace );
	if ( !ref.empty() ) VP_CHECK( "ends", d.front() == ref.front() && d.back() == ref.back() && c.front() == ref.front() && c.back() == ref.back(), trace );
	else VP_CHECK( "empty-ends", throws( [&] { d.front(); } ) && throws( [&] { d.back(); } ) && throws( [&] { c.front(); } ) && throws( [&] { c.back(); } ), trace );
	size_t i = 0; for ( auto& e : c ) { VP_CHECK( "const-iteration", i < ref.size() && e == ref[ i ], "element " + num( i ) + " after" + trace ); ++i; }
	VP_CHECK( "iteration-length", i == ref.size(), trace );
	i = 0; for ( auto it = d.begin(); it != d.end(); it++ ) { VP_CHECK( "iteration", i < ref.size() && *it == ref[ i ] && ( d.begin() + int( i ) ) == it && ( it - d.begin() ) == std::ptrdiff_t( i ), "element " + num( i ) + " after" + trace ); ++i; }
	VP_CHECK( "iteration-length", i == ref.size() && size_t( d.end() - d.begin() ) == ref.size(), trace );
	// an iterator stays where it is when it is advanced after use, going back undoes going forward
	i = 0; auto ci = c.begin(); for ( auto it = d.begin(); it != d.end(); ++i )
	{
		auto was = it; auto old = it++; auto cold = ci++;
		VP_CHECK( "post-increment", i < ref.size() && old == was && !( old != was ) && it != was && *old == ref[ i ] && *cold == ref[ i ] && old.operator->() == &*was && ( it - 1 ) == old && it - old == 1 && ( d.end() - int( ref.size() - i ) ) == old && ( c.end() - int( ref.size() - i ) ) == cold, "element " + num( i ) + " after" + trace );
	}
	VP_CHECK( "iteration-length", i == ref.size() && ci == c.end() && size_t( c.end() - c.begin() ) == ref.size(), trace );
}

template< typename T > void history( Rng& r )
{
	size_t cap = r.below( 9 ); flut::circular_deque< T > d( cap ); std::deque< T > ref; string trace = "capacity " + num( cap ); int n = 0; bool wrapped = false, popped = false;
	VP_CHECK( "initial", d.empty() && d.size() == 0, trace );
	size_t steps = r.chance( 1, 30 ) ? 300 : 5 + r.below( 50 ); int bias = (int)r.below( 3 );
	for ( size_t s = 0; s < steps; ++s )
	{
		bool was_full = d.size() == d.capacity();
		switch ( r.below( 12 + bias * 2 ) )
		{
		case 0: case 1: case 12: case 13: d.push_back( make< T >( ++n ) ); ref.push_back( make< T >( n ) ); trace += " B" + num( n ); if ( was_full && popped ) wrapped = true; break;
		case 2: case 3: case 14: case 15: d.push_front( make< T >( ++n ) ); ref.push_front( make< T >( n ) ); trace += " F" + num( n ); if ( was_full && popped ) wrapped = true; break;
		case 4: if ( !ref.empty() ) { d.pop_back(); ref.pop_back(); trace += " b"; } else VP_CHECK( "pop-empty", throws( [&] { d.pop_back(); } ), trace ); break;
		case 5: case 6: if ( !ref.empty() ) { d.pop_front(); ref.pop_front(); trace += " f"; popped = true; } else VP_CHECK( "pop-empty", throws( [&] { d.pop_front(); } ), trace ); break;
		case 7: if ( r.chance( 1, 6 ) ) { d.clear(); ref.clear(); trace += " clear"; popped = false; } break;
		case 8: { size_t c = r.below( 24 ); size_t before = d.capacity(); d.reserve( c ); trace += " reserve" + num( c ); VP_CHECK( "reserve", d.capacity() >= std::max( c, before ), trace ); if ( c > before && popped ) wrapped = true; break; }
		case 9: if ( !ref.empty() ) { size_t i = r.below( ref.size() ); d[ i ] = make< T >( ++n ); ref[ i ] = make< T >( n ); trace += " [" + num( i ) + "]=" + num( n ); } break;
		case 10: if ( !ref.empty() ) { if ( r.chance( 1, 2 ) ) { d.back() = make< T >( ++n ); ref.back() = make< T >( n ); trace += " back="; } else { d.front() = make< T >( ++n ); ref.front() = make< T >( n ); trace += " front="; } } break;
		default:
			switch ( r.below( 4 ) )
			{
			case 0: { flut::circular_deque< T > e( d ); e.push_back( make< T >( ++n ) ); if ( !ref.empty() ) e.pop_front(); trace += " copied"; break; }
			case 1: { flut::circular_deque< T > e; e = d; e.clear(); flut::circular_deque< T > f( d ); d = std::move( f ); trace += " assigned"; break; }
			case 2: if ( !ref.empty() ) { size_t i = r.below( ref.size() ); T v = ref[ i ]; d.push_back( d[ i ] ); ref.push_back( v ); trace += " Bown" + num( i ); } break;
			default: if ( !ref.empty() ) { size_t i = r.below( ref.size() ); T v = ref[ i ]; d.push_front( d[ i ] ); ref.push_front( v ); trace += " Fown" + num( i ); }
			}
		}
		event( "operation" ); compare( d, ref, trace );
	}
	if ( wrapped ) { note( trace ); event( "grown while wrapped" ); }
	if ( want_sample() ) sample( trace );
}
PART( ints, 8000, 250000 ) { history< int >( r ); }
PART( strings, 4000, 120000 ) { history< string >( r ); }
PART( vectors, 2000, 60000 ) { history< std::vector< int > >( r ); }
/// every history of up to 7 (thorough: 9) of the structural operations, from capacities 0..4
PART( exhaustive, 5 * 390625 / 5, 5 * 390625 )
{
	// case = capacity and a base-5 word of operations: push back, push front, pop back, pop front, reserve
	size_t len = vp::ctx().thorough ? 8 : 7; size_t words = len == 8 ? 390625 : 78125;
	if ( idx >= 5 * words ) return;
	size_t cap = idx / words; uint64_t w = idx % words;
	flut::circular_deque< int > d( cap ); std::deque< int > ref; string trace = "capacity " + num( cap ); bool popped = false, wrapped = false;
	for ( size_t i = 0; i < len; ++i, w /= 5 )
	{
		if ( popped && d.full() && w % 5 < 2 ) wrapped = true;
		switch ( w % 5 )
		{
		case 0: d.push_back( (int)i ); ref.push_back( (int)i ); trace += " B"; break;
		case 1: d.push_front( (int)i ); ref.push_front( (int)i ); trace += " F"; break;
		case 2: if ( ref.empty() ) return; d.pop_back(); ref.pop_back(); trace += " b"; break;
		case 3: if ( ref.empty() ) return; d.pop_front(); ref.pop_front(); trace += " f"; popped = true; break;
		default: d.reserve( d.capacity() + 1 ); trace += " R";
		}
	}
	compare( d, ref, trace ); event( "exhaustive word" );
	if ( wrapped ) note( trace );
}
// thousands of elements, compared in full at intervals and at both ends after every operation
PART( large, 150, 3000 )
{
	flut::circular_deque< int > d( r.below( 40 ) ); std::deque< int > ref; size_t n = 100 + r.len( 8000 ); int style = (int)r.below( 4 ); string trace = " " + num( n ) + " operations of style " + num( style );
	for ( size_t i = 0; i < n; ++i )
	{
		bool grow = style == 3 ? ( i / 500 ) % 2 == 0 ? !r.chance( 1, 5 ) : r.chance( 1, 5 ) : !r.chance( 1, 4 ); bool front = style == 0 ? false : style == 1 ? true : r.chance( 1, 2 );
		if ( r.chance( 1, 2000 ) ) { size_t c = r.below( 20000 ); d.reserve( c ); VP_CHECK( "reserve", d.capacity() >= c, trace ); event( "operation" ); compare( d, ref, trace + " reserve" ); }
		if ( grow ) { if ( front ) { d.push_front( (int)i ); ref.push_front( (int)i ); } else { d.push_back( (int)i ); ref.push_back( (int)i ); } }
		else if ( !ref.empty() ) { if ( style == 0 || ( style != 1 && r.chance( 1, 2 ) ) ) { d.pop_front(); ref.pop_front(); } else { d.pop_back(); ref.pop_back(); } }
		event( "operation" ); VP_CHECK( "large-size", d.size() == ref.size(), trace ); if ( !ref.empty() ) { size_t k = r.below( ref.size() ); VP_CHECK( "large", d.front() == ref.front() && d.back() == ref.back() && d[ k ] == ref[ k ], "operation " + num( i ) + trace ); }
		if ( i % 1000 == 999 ) compare( d, ref, trace );
	}
	compare( d, ref, trace ); flut::circular_deque< int > e( d ); compare( e, ref, trace + " copied" ); note( trace ); event( "large deques" );
}
