// C29 An interrupt request is seen by the running task, and only once requested
// vp-rule: single-threaded histories of request/test over several objects, and runs in which 1-4 requesting and 1-4 polling threads share an object under random delays; every poll result recorded with its order relative to the requests; non-trivial: at least one poll before and one after the request; counted by history or by the observed poll counts
// vp-builds: asan,tsan
#include "flut/interruptible.hpp"
#include <thread>
#include <chrono>
#include "common.hpp"
using namespace vp;
using std::string;

#ifdef VP_TSAN
#define N( a, b ) ( ( a ) / 4 + 30 )
#else
#define N( a, b ) ( a )
#endif

struct Counting : flut::interruptible { mutable std::atomic< int > calls; Counting() : calls( 0 ) {} void interrupt() const override { ++calls; flut::interruptible::interrupt(); } };

PART( histories, 3000, 100000 )
{
	size_t k = 1 + r.below( 5 ); std::vector< std::unique_ptr< flut::interruptible > > o; std::vector< bool > want( k, false ); string w; bool after = false;
	for ( size_t i = 0; i < k; ++i ) { if ( r.chance( 1, 2 ) ) o.emplace_back( new flut::interruptible ); else o.emplace_back( new Counting ); }
	for ( size_t n = r.below( 30 ); n; --n )
	{
		size_t i = r.below( k );
		if ( r.chance( 1, 4 ) ) { const flut::interruptible& c = *o[ i ]; c.interrupt(); want[ i ] = true; w += " interrupt" + num( i ); event( "requests" ); after = true; }
		else if ( r.chance( 1, 6 ) ) { if ( r.chance( 1, 2 ) ) o[ i ].reset( new flut::interruptible ); else o[ i ].reset( new Counting ); want[ i ] = false; w += " new" + num( i ); }
		else if ( r.chance( 1, 4 ) )
		{
			// a copy has the state of its original at that moment, and is another object from then on
			size_t from = r.below( k ); bool was = want[ from ];
			if ( r.chance( 1, 2 ) ) { flut::interruptible* c = new flut::interruptible( *o[ from ] ); o[ i ].reset( c ); } else *o[ i ] = *o[ from ];
			want[ i ] = was; w += " copy" + num( from ) + "to" + num( i ); event( "copies" );
		}
		for ( size_t j = 0; j < k; ++j ) for ( int t = 0; t < 2; ++t ) { VP_CHECK( want[ j ] ? "not-lost" : "not-before", o[ j ]->test_interrupt_flag() == want[ j ], "object " + num( j ) + " after" + w ); event( want[ j ] ? "tests after a request" : "tests before a request" ); }
	}
	if ( after ) note( w ); if ( want_sample() ) sample( w );
}

// many objects, all alive at once or one after another: none starts interrupted, and a request reaches its object only
PART( many, 3, 30 )
{
	size_t n = idx == 0 ? 300000 : 1000 + r.below( 50000 ); std::vector< flut::interruptible > o( r.chance( 1, 2 ) ? n : 1 ); std::vector< bool > want( o.size(), false );
	for ( size_t i = 0; i < n; ++i ) { flut::interruptible t; VP_CHECK( "not-before", !t.test_interrupt_flag(), "object " + num( i ) + " made after as many others" ); if ( i % 7 == 0 ) { t.interrupt(); VP_CHECK( "not-lost", t.test_interrupt_flag(), "object " + num( i ) ); } if ( r.chance( 1, 50 ) ) { size_t k = r.below( o.size() ); o[ k ].interrupt(); want[ k ] = true; event( "requests" ); } }
	for ( size_t i = 0; i < o.size(); ++i ) VP_CHECK( want[ i ] ? "not-lost" : "not-before", o[ i ].test_interrupt_flag() == want[ i ], "object " + num( i ) + " of " + num( o.size() ) ); event( "tests before a request", n ); note( num( n ) + " objects" );
}

static void spin( uint64_t n ) { volatile uint64_t x = 0; for ( uint64_t i = 0; i < n; ++i ) x = x + 1; }
/// one object, requesting and polling threads; `idle` are other objects polled by the same threads and never interrupted
PART( threads, N( 400, 0 ), N( 12000, 0 ) )
{
	size_t req = 1 + r.below( 4 ), pol = 1 + r.below( 4 ); flut::interruptible obj, idle; std::atomic< int > ready( 0 ); std::atomic< bool > go( false ); std::atomic< int > begun( 0 ), done( 0 ), early( 0 ), lost( 0 ), foreign( 0 ), late( 0 ); std::vector< uint64_t > before( pol ), afterw( pol );
	std::vector< uint64_t > d; for ( size_t i = 0; i < req + pol; ++i ) d.push_back( r.chance( 1, 3 ) ? 0 : r.below( 200000 ) ); bool nap = r.chance( 1, 4 );
	std::vector< std::thread > th;
	for ( size_t i = 0; i < req; ++i ) th.emplace_back( [&, i] {
		++ready; while ( !go ) std::this_thread::yield(); spin( d[ i ] ); if ( nap && i == 0 ) std::this_thread::sleep_for( std::chrono::microseconds( 200 ) );
		++begun; obj.interrupt(); if ( !obj.test_interrupt_flag() ) ++lost; ++done; } );
	for ( size_t i = 0; i < pol; ++i ) th.emplace_back( [&, i] {
		++ready; while ( !go ) std::this_thread::yield(); spin( d[ req + i ] ); auto t0 = std::chrono::steady_clock::now();
		for ( ;; )
		{
			int fin = done; bool seen = obj.test_interrupt_flag(); int st = begun; // fin read before, st after the test
			if ( seen && st == 0 ) ++early; if ( !seen && fin > 0 ) { ++lost; break; } if ( idle.test_interrupt_flag() ) ++foreign;
			if ( seen ) { for ( int k = 0; k < 20; ++k ) { if ( !obj.test_interrupt_flag() ) ++lost; ++afterw[ i ]; } break; }
			++before[ i ]; if ( ( before[ i ] & 1023 ) == 0 ) { std::this_thread::yield(); if ( std::chrono::steady_clock::now() - t0 > std::chrono::seconds( 60 ) ) { ++late; break; } }
		} } );
	while ( ready < int( req + pol ) ) std::this_thread::yield(); go = true; for ( auto& t : th ) t.join();
	string w = num( req ) + " requesting, " + num( pol ) + " polling threads"; uint64_t b = 0, a = 0; bool both = false; for ( size_t i = 0; i < pol; ++i ) { b += before[ i ]; a += afterw[ i ]; both = both || before[ i ]; w += "; " + num( before[ i ] ) + " polls before"; }
	VP_CHECK( "not-before", early == 0, w ); VP_CHECK( "not-lost", lost == 0, w ); VP_CHECK( "seen", late == 0, w ); VP_CHECK( "only-this-object", foreign == 0 && !idle.test_interrupt_flag(), w ); VP_CHECK( "stays", obj.test_interrupt_flag(), w );
	event( "concurrent polls before the request", b ); event( "concurrent polls after the request", a ); event( "concurrent requests", req ); if ( both ) { note( w ); event( "runs in which a poller saw both states" ); } if ( want_sample() ) sample( w );
}
