// C28 Elapsed time and profiling sums equal the time that actually passed
// vp-rule: random sequences of virtual clock advances (1 ns to months), wall-clock jumps in both directions, clock reads that themselves take time, resets, measures and nested, repeated or recursive sections; every reading compared with the virtual clock; non-trivial: at least three clock advances; counted by event sequence
#define FLUT_ENABLE_PROFILER
#include "flut/timer.hpp"
#include "flut/stopwatch.hpp"
#include "flut/system_tools.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/profiler.hpp"
#include "flut/system/profiler_config.hpp"
#include <ctime>
#include <thread>
#include <cstdarg>
#include <sys/syscall.h>
#include "common.hpp"
using namespace vp;
using std::string;
typedef long double ld;
typedef long long ns;

// the virtual clock: stands in for the system's while `on`
static bool on = false; static ns mono = 0, wall = 0, tick = 0; static uint64_t reads_mono = 0, reads_wall = 0;
extern "C" int clock_gettime( clockid_t id, struct timespec* t )
{
	if ( !on || ( id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME && id != CLOCK_TAI ) ) return (int)syscall( SYS_clock_gettime, id, t );
	mono += tick; wall += tick; bool w = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI; ++( w ? reads_wall : reads_mono );
	ns v = w ? wall : mono; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
extern "C" int gettimeofday( struct timeval* t, void* ) noexcept { struct timespec s; clock_gettime( CLOCK_REALTIME, &s ); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
struct Virtual { Virtual( Rng& r ) { mono = 1 + (ns)r.below( 1000000000000000ull ); wall = 1600000000000000000ll + (ns)r.below( 1000000000000000ull ); tick = 0; reads_mono = reads_wall = 0; on = true; } ~Virtual() { on = false; } };
static void advance( ns d ) { mono += d; wall += d; event( "clock advances" ); }
static void jump( Rng& r ) { wall += r.range( -1000000000000000ll, 1000000000000000ll ); if ( wall < 0 ) wall = 1; event( "wall-clock jumps" ); }
static bool tiny = false;
static ns span( Rng& r ) { if ( tiny ) return r.range( 1, 10 ); if ( r.chance( 1, 60 ) && mono < 2000000000000000000ll ) { event( "decades pass" ); return r.range( 2000000000, 2300000000 ) * 1000000000ll; } switch ( r.below( 7 ) ) { case 0: return 1; case 1: return 999; case 2: return r.range( 1, 2000000 ); case 3: return r.range( 1, 5 ) * 1000000000ll; case 4: return r.range( 1, 100 ) * 3600000000000ll; case 5: return 999999999; default: return r.range( 1, 3000000000ll ); } }
static string s9( ns v ) { return num( v ) + " ns"; }

PART( timers, 5000, 200000 )
{
	Virtual vc( r ); std::vector< flut::timer > t; std::vector< ns > start; string w; size_t n = 3 + r.below( 30 );
	for ( size_t i = 0; i < n; ++i )
	{
		switch ( r.below( 7 ) )
		{
		case 0: if ( t.size() < 4 ) { t.emplace_back(); start.push_back( mono ); w += " new"; } break;
		case 1: if ( t.size() ) { size_t k = r.below( t.size() ); t[ k ].reset(); start[ k ] = mono; w += " reset"; event( "resets" ); } break;
		case 2: jump( r ); w += " jump"; break;
		case 3: if ( t.size() && t.size() < 4 ) { size_t k = r.below( t.size() ); t.push_back( t[ k ] ); start.push_back( ns( start[ k ] ) ); w += " copy"; } break;
		default: { ns d = span( r ); advance( d ); w += " +" + num( d ); }
		}
		for ( size_t k = 0; k < t.size(); ++k )
		{
			ns e = mono - start[ k ]; string c = s9( e ) + " elapsed after" + w; auto& a = t[ k ];
			VP_CHECK( "nanoseconds", a.nanoseconds() == e && a.ticks() == e, c + " gives " + num( a.nanoseconds() ) ); VP_CHECK( "microseconds", a.microseconds() == e / 1000, c ); VP_CHECK( "milliseconds", a.milliseconds() == e / 1000000, c );
			VP_CHECK( "seconds", near( a.seconds(), e / 1e9L, 4e-16L * ( e / 1e9L ) ), c + " gives " + num( a.seconds() ) ); VP_CHECK( "minutes", near( a.minutes(), e / 6e10L, 4e-16L * ( e / 6e10L ) ), c ); VP_CHECK( "hours", near( a.hours(), e / 3.6e12L, 4e-16L * ( e / 3.6e12L ) ), c ); event( "readings", 7 );
		}
	}
	// reads that take time never show less than an earlier read
	if ( t.size() ) { tick = r.range( 1, 1000 ); ns last = -1; for ( int i = 0; i < 5; ++i ) { ns before = mono - start[ 0 ], v = t[ 0 ].nanoseconds(), after = mono - start[ 0 ]; VP_CHECK( "monotonic", v > last && v >= before && v <= after, num( v ) + " between " + num( before ) + " and " + num( after ) ); last = v; if ( r.chance( 1, 2 ) ) jump( r ); } }
	if ( n >= 4 ) note( w ); if ( want_sample() ) sample( w );
}

PART( stopwatches, 4000, 120000 )
{
	Virtual vc( r ); bool cost = r.chance( 1, 3 ); tick = cost ? r.range( 1, 100000 ) : 0; const ns t0 = mono; flut::stopwatch s; ns begin = mono; std::vector< std::pair< string, ld > > expect; ld skipped = 0; string w; size_t n = r.chance( 1, 40 ) ? 100 + r.below( 300 ) : 1 + r.below( 25 ); const bool many = n > 25 && r.chance( 2, 3 ), again = r.chance( 1, 2 );
	const std::vector< string > names = { "a", "b", "load", "a b", "run", "internal2", "x.y", "", "A", "a rather long name of a measure, part one", "a rather long name of a measure, part two", string( 300, 'n' ) + "1", string( 300, 'n' ) + "2" };
	for ( size_t i = 0; i < n; ++i )
	{
		ns d = span( r ); advance( d ); w += " +" + num( d ); if ( r.chance( 1, 5 ) ) { jump( r ); w += " jump"; }
		if ( again && r.chance( 1, 6 ) ) { s.start_first_measure(); skipped += mono - begin; begin = mono; w += " restart"; event( "restarts" ); continue; }
		string nm = many ? "measure " + num( r.below( n ) ) : r.pick( names ); s.add_measure( nm ); ld m = ( mono - begin ) / 1e9L; begin = mono; w += " " + nm; size_t k = 0; while ( k < expect.size() && expect[ k ].first != nm ) ++k; if ( k == expect.size() ) expect.emplace_back( nm, 0 ); expect[ k ].second += m; event( "measures" );
	}
	flut::set_to_str_precision( 7 ); string before = flut::to_str( 1.0 / 3 ); int dec = 6 + (int)r.below( 4 ); bool dflt = r.chance( 1, 2 ); flut::prop_node pn = dflt ? s.get_report() : s.get_report( dec ); ld rnd = 0.51e-6L; // values are stored with six decimals
	VP_CHECK( "report-size", pn.size() == expect.size() + 1, w + " has " + num( pn.size() ) + " entries" ); VP_CHECK( "precision-restored", flut::to_str( 1.0 / 3 ) == before && flut::set_to_str_precision( 4 ) == 7, before );
	ld sum = 0, total = ( begin - t0 - skipped ) / 1e9L; size_t k = 0; ld big = ( begin - t0 ) / 1e9L + 1; // rounding follows the time since the start
	for ( auto it = pn.begin(); it != pn.end(); ++it, ++k )
	{
		ld v = strtold( it->second.get_value().c_str(), 0 ); sum += v; string c = w + ": " + it->first + " = " + it->second.get_value();
		if ( k == expect.size() ) { VP_CHECK( "internal-last", it->first == "internal", c ); if ( !cost ) VP_CHECK( "internal-zero", near( v, 0, rnd ), c ); else VP_CHECK( "internal", v >= -rnd, c ); continue; }
		VP_CHECK( "order", it->first == expect[ k ].first, c ); ld slack = cost ? 4 * n * tick / 1e9L : 0; VP_CHECK( "measure", near( v, expect[ k ].second, rnd + slack + 1e-15L * big * n ), c + " expected " + num( expect[ k ].second ) );
	}
	ld slack = ( cost ? 4 * tick / 1e9L * ( 2 + n ) * ( skipped > 0 ) + 4 * tick / 1e9L : 0 ); VP_CHECK( "conserved", near( sum, total, rnd * ( expect.size() + 1 ) + slack + 1e-14L * big * n ), w + ": sum " + num( sum ) + " of " + num( total ) ); if ( cost ) event( "runs with costly clock reads" );
	if ( n >= 3 ) note( w ); if ( want_sample() ) sample( w );
}

struct Node { const char* name; ns total = 0; std::vector< std::unique_ptr< Node > > kids; Node( const char* n ) : name( n ) {} Node* kid( const char* n ) { for ( auto& k : kids ) if ( string( k->name ) == n ) return k.get(); kids.emplace_back( new Node( n ) ); return kids.back().get(); } };
static const char* names[] = { "alpha", "alphabet", "gamma", "delta", "epsilon", "zeta", "TOTAL", "a section with spaces", "a section with a name that is longer than any buffer anybody would set aside for names of sections, one", "a section with a name that is longer than any buffer anybody would set aside for names of sections, two" };
static char names2[ 10 ][ 140 ]; // the same texts elsewhere, as when a name is used in several places of a program
static string trace;
static void work( Rng& r, Node* parent, int depth, int& budget, bool scoped )
{
	auto& p = flut::profiler::instance();
	for ( int n = 1 + (int)r.below( 4 ); n && budget > 0; --n )
	{
		--budget; size_t which = r.below( depth > 6 ? 3 : 10 ); const char* nm = r.chance( 1, 4 ) ? strcpy( names2[ which ], names[ which ] ) : names[ which ]; Node* k = parent->kid( nm ); ns t = mono;
		if ( r.chance( 1, 3 ) ) { ns d = span( r ); advance( d ); t = mono; if ( trace.size() < 400 ) trace += " +" + num( d ); } if ( r.chance( 1, 10 ) ) jump( r ); if ( trace.size() < 400 ) trace += string( " <" ) + nm;
		auto body = [&] { advance( span( r ) ); if ( depth < 12 && r.chance( 1, 2 ) ) work( r, k, depth + 1, budget, scoped ); if ( r.chance( 1, 3 ) ) advance( span( r ) ); };
		if ( scoped && r.chance( 1, 2 ) ) { flut::scoped_section_profiler s( nm ); body(); } else if ( scoped ) { FLUT_PROFILE_SCOPE( nm ); body(); } else { p.start_section( nm ); body(); p.end_section(); }
		k->total += mono - t; event( "sections" ); if ( trace.size() < 400 ) trace += ">";
	}
}
static void compare( const flut::prop_node& pn, const Node& n, ld root )
{
	double ms, rel, ex, over; string v = pn.get_value(); int got = sscanf( v.c_str(), " %lfms %lf%% (%lf%% exclusive %lf%% overhead)", &ms, &rel, &ex, &over ); string c = string( n.name ) + " = " + v + " after" + trace;
	VP_CHECK( "report-format", got == 4, c ); ns own = n.total; for ( auto& k : n.kids ) own -= k->total;
	VP_CHECK( "section-time", near( ms, n.total / 1e6L, 0.51L + 1e-12L * n.total / 1e6L ), c + " spent " + s9( n.total ) ); VP_CHECK( "section-share", near( rel, 100.0L * n.total / root, 0.0051L ), c + " share " + num( 100.0L * n.total / root ) ); VP_CHECK( "section-exclusive", near( ex, 100.0L * own / root, 0.0051L ), c + " exclusive " + num( 100.0L * own / root ) ); VP_CHECK( "section-overhead", near( over, 0, 0.0051L ), c );
	VP_CHECK( "sections", pn.size() == n.kids.size(), c + ": " + num( pn.size() ) + " children for " + num( n.kids.size() ) ); ns last = std::numeric_limits< ns >::max(); event( "sections reported" );
	for ( auto it = pn.begin(); it != pn.end(); ++it ) { const Node* k = nullptr; for ( auto& x : n.kids ) if ( it->first == x->name ) k = x.get(); VP_CHECK( "section-known", k != nullptr, c + " has " + it->first ); VP_CHECK( "sorted", k->total <= last, c ); last = k->total; compare( it->second, *k, root ); }
}
PART( profiles, 3000, 100000 )
{
	tiny = r.chance( 1, 12 ); struct Back { ~Back() { tiny = false; } } back; // all spans of a few nanoseconds only
	Virtual vc( r ); trace.clear(); auto& p = flut::profiler::instance(); p.reset(); ns t0 = mono; Node root( "TOTAL" ); int budget = r.chance( 1, 8 ) ? 400 : 1 + (int)r.below( 40 ); bool scoped = r.chance( 1, 2 );
	for ( int round = 0, rounds = 1 + (int)r.below( 3 ); round < rounds; ++round )
	{
		int b = budget; work( r, &root, 0, b, scoped ); if ( r.chance( 1, 2 ) ) advance( span( r ) ); root.total = mono - t0;
		flut::prop_node pn = p.report(); VP_CHECK( "one-root", pn.size() == 1 && pn.begin()->first == "TOTAL", trace ); compare( pn.begin()->second, root, root.total ); trace += " report";
	}
	note( trace ); if ( want_sample() ) sample( trace );
}
// the macros: a section per function, reported to the log
static void inner() { FLUT_PROFILE_FUNCTION; advance( 30000000 ); }
static void outer( int n ) { FLUT_PROFILE_FUNCTION; advance( 10000000 ); for ( int i = 0; i < n; ++i ) inner(); }
PART( profiled_functions, 50, 500 )
{
	Virtual vc( r ); flut_profiler_reset(); int n = (int)r.below( 20 ), m = 1 + (int)r.below( 5 ); for ( int i = 0; i < m; ++i ) outer( n ); ns total = m * ( 10000000ll + n * 30000000ll ); advance( 7000000 ); flut::prop_node pn = flut::profiler::instance().report();
	Node root( "TOTAL" ); root.total = total + 7000000; Node* o = root.kid( "outer" ); o->total = total; if ( n ) o->kid( "inner" )->total = m * n * 30000000ll; trace = " functions"; compare( pn[ "TOTAL" ], root, root.total ); note( num( n ) + " " + num( m ) );
}
PART( profile_with_overhead, 400, 10000 )
{
	// clock reads that take time: totals stay within the reads made, parents contain their children
	Virtual vc( r ); trace.clear(); auto& p = flut::profiler::instance(); tick = r.range( 1, 1000 ); p.reset(); ns spent = 0; int n = 1 + (int)r.below( 10 ); ns t0 = mono;
	for ( int i = 0; i < n; ++i ) { p.start_section( names[ 0 ] ); p.start_section( names[ 1 ] ); ns d = 1000000 + span( r ) % 100000000; advance( d ); spent += d; p.end_section(); p.end_section(); }
	flut::prop_node pn = p.report(); ns whole = mono - t0; double ms, rel, ms2, rel2; string a = pn[ "TOTAL" ][ names[ 0 ] ].get_value(), b = pn[ "TOTAL" ][ names[ 0 ] ][ names[ 1 ] ].get_value(); VP_CHECK( "report-format", sscanf( a.c_str(), " %lfms %lf%%", &ms, &rel ) == 2 && sscanf( b.c_str(), " %lfms %lf%%", &ms2, &rel2 ) == 2, a + b );
	VP_CHECK( "contained", rel2 <= rel + 0.011 && rel <= 100.01 && near( ms2, spent / 1e6L, 0.6L + n * 10 * tick / 1e6L ) && near( ms, spent / 1e6L, 0.6L + n * 10 * tick / 1e6L ) && whole >= spent, a + " / " + b + " spent " + s9( spent ) ); event( "profiles with costly reads" ); note( num( spent ) );
}
// overhead: a share of a section's own time that counts the nested sections' overhead too, however they are nested
static ld overhead( const flut::prop_node& pn, const string& name )
{
	double ms, rel, ex, over; string v = pn.get_value(), c = name + " = " + v + " after" + trace; VP_CHECK( "report-format", sscanf( v.c_str(), " %lfms %lf%% (%lf%% exclusive %lf%% overhead)", &ms, &rel, &ex, &over ) == 4, c );
	VP_CHECK( "overhead-share", over >= 0 && over <= 100.01 && ex <= rel + 0.011, c ); ld own = over / 100 * ms, slack = 0.51L + ms * 0.00005L, kids = 0, kid_slack = 0; for ( auto it = pn.begin(); it != pn.end(); ++it ) { ld o = overhead( it->second, it->first ); kids += o; double m = strtod( it->second.get_value().c_str(), 0 ); kid_slack += 0.51L + m * 0.00005L; }
	VP_CHECK( "overhead-nested", own >= kids - slack - kid_slack, c + ": overhead " + num( own ) + " ms, nested " + num( kids ) + " ms" ); event( "overheads" ); return own;
}
PART( overheads, 400, 10000 )
{
	Virtual vc( r ); trace.clear(); auto& p = flut::profiler::instance(); tick = r.range( 1000000, 50000000 ); p.reset(); int budget = 1 + (int)r.below( 60 ); Node root( "TOTAL" ); std::function< void( int ) > go = [&]( int depth ) { for ( int n = 1 + (int)r.below( 3 ); n && budget > 0; --n ) { --budget; const char* nm = names[ r.below( 4 ) ]; trace += string( " <" ) + nm; p.start_section( nm ); advance( r.range( 0, 1000000000 ) ); if ( depth < 6 && r.chance( 2, 3 ) ) go( depth + 1 ); p.end_section(); trace += ">"; } }; go( 0 );
	flut::prop_node pn = p.report(); VP_CHECK( "one-root", pn.size() == 1 && pn.begin()->first == "TOTAL", trace ); ld o = overhead( pn.begin()->second, "TOTAL" ); VP_CHECK( "overhead-present", o > 0, trace ); note( trace ); tick = 0;
}
// what is added for every entry adds up: twenty entries cost ten times what two cost
PART( overhead_adds_up, 60, 600 )
{
	Virtual vc( r ); auto& p = flut::profiler::instance(); ld o[ 2 ]; ld t[ 2 ]; trace = " repeated"; bool nested = r.chance( 1, 2 ); tick = r.range( 100, 1000 ) * 1000000;
	for ( int k = 0; k < 2; ++k ) { p.reset(); for ( int i = 0; i < ( k ? 20 : 2 ); ++i ) { p.start_section( names[ 0 ] ); if ( nested ) { p.start_section( names[ 1 ] ); p.end_section(); } p.end_section(); } flut::prop_node pn = p.report(); const flut::prop_node& a = pn[ "TOTAL" ][ names[ 0 ] ]; double ms, rel, ex, over; VP_CHECK( "report-format", sscanf( a.get_value().c_str(), " %lfms %lf%% (%lf%% exclusive %lf%% overhead)", &ms, &rel, &ex, &over ) == 4, a.get_value() ); t[ k ] = ms; o[ k ] = over / 100 * ms; }
	tick = 0; VP_CHECK( "time-adds-up", near( t[ 1 ], 10 * t[ 0 ], 0.2L * t[ 1 ] + 2 ), num( t[ 0 ] ) + " ms for 2, " + num( t[ 1 ] ) + " ms for 20" ); VP_CHECK( "overhead-adds-up", near( o[ 1 ], 10 * o[ 0 ], 0.2L * o[ 1 ] + 2 ), num( o[ 0 ] ) + " ms for 2, " + num( o[ 1 ] ) + " ms for 20" ); event( "overhead sums" ); note( num( o[ 0 ] ) );
}
// many sections side by side, most of them equally long
PART( equal_sections, 40, 400 )
{
	Virtual vc( r ); static char many[ 300 ][ 8 ]; auto& p = flut::profiler::instance(); p.reset(); Node root( "TOTAL" ); ns t0 = mono; size_t n = 17 + r.below( 283 ); trace = " " + num( n ) + " sections side by side"; bool nested = r.chance( 1, 2 ); if ( nested ) { p.start_section( "alpha" ); } Node* at = nested ? root.kid( "alpha" ) : &root; ns d = r.chance( 1, 3 ) ? 0 : span( r ) % 100000000000ll;
	for ( size_t i = 0; i < n; ++i ) { snprintf( many[ i ], 8, "s%d", (int)i ); ns e = r.chance( 1, 20 ) ? span( r ) % 100000000000ll : d; p.start_section( many[ i ] ); advance( e ); p.end_section(); at->kid( many[ i ] )->total += e; } if ( nested ) { p.end_section(); at->total = mono - t0; }
	if ( mono == t0 ) { std::ostringstream o; o << p.report(); VP_CHECK( "no-time-passed", o.str().find( "nan" ) == string::npos && o.str().find( "inf" ) == string::npos && o.str().find( "TOTAL" ) != string::npos, o.str() ); event( "reports before any time passed" ); }
	advance( 1000000 ); root.total = mono - t0; flut::prop_node pn = p.report(); VP_CHECK( "one-root", pn.size() == 1 && pn.begin()->first == "TOTAL", trace ); compare( pn.begin()->second, root, root.total ); event( "sections side by side", n ); note( trace );
}
// the profiler belongs to one thread: use from another one is refused and leaves no trace
PART( other_threads, 40, 400 )
{
	Virtual vc( r ); auto& p = flut::profiler::instance(); p.reset(); Node root( "TOTAL" ); ns t0 = mono; trace = " other thread"; p.start_section( "alpha" ); advance( 5000000 ); int kind = (int)( idx % 3 ); bool refused = false;
	on = false; std::thread th( [&] { refused = throws( [&] { if ( kind == 0 ) p.start_section( "gamma" ); else if ( kind == 1 ) p.end_section(); else p.report(); } ); } ); th.join(); on = true;
	VP_CHECK( "other-thread-refused", refused, kind == 0 ? "start_section" : kind == 1 ? "end_section" : "report" ); advance( 5000000 ); p.end_section(); root.kid( "alpha" )->total = mono - t0; advance( 1000000 ); root.total = mono - t0; flut::prop_node pn = p.report(); compare( pn[ "TOTAL" ], root, root.total ); event( "refused in another thread" ); note( num( idx ) );
}
// a profiler that was never reset by hand works too
PART( never_reset, 1, 1 )
{
	auto& p = flut::profiler::instance(); p.start_section( "alpha" ); p.start_section( "alphabet" ); p.end_section(); p.end_section(); p.start_section( "alpha" ); p.end_section(); flut::prop_node pn = p.report(); VP_CHECK( "never-reset", pn.size() == 1 && pn.begin()->first == "TOTAL" && pn[ "TOTAL" ].size() == 1 && pn[ "TOTAL" ][ "alpha" ].size() == 1, "report of a profiler as created" ); double ms = -1, rel = -1; sscanf( pn[ "TOTAL" ].get_value().c_str(), " %lfms %lf%%", &ms, &rel ); VP_CHECK( "never-reset-time", ms >= 0 && ms < 600000 && near( rel, 100, 0.01L ), pn[ "TOTAL" ].get_value() ); event( "first use" ); note( "first use" );
}
// the date and time text is the wall clock's, in the format asked for
PART( date_time, 1500, 40000 )
{
	Virtual vc( r ); wall = (ns)r.below( 4000000000ull ) * 1000000000ll + (ns)r.below( 1000000000 ); if ( r.chance( 1, 6 ) ) wall = r.range( 1, 3000 ) * 1000000000ll * 86400 - (ns)r.below( 2 ); time_t t = (time_t)( wall / 1000000000 ); const char* formats[] = { "%Y-%m-%d_%H.%M.%S", "%H:%M", "%Y", "no fields", "%d%%%m", "%Y%m%dT%H%M%S", "%j %U", "%y_%B_%A" }; size_t k = r.below( 8 ); const char* zone = r.pick( { "UTC0", "XYZ-5:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "AAA11", "CET-1CEST,M3.5.0,M10.5.0/3" } ); setenv( "TZ", zone, 1 ); string got = k == 0 && r.chance( 1, 2 ) ? flut::get_date_time_str() : flut::get_date_time_str( formats[ k ] ); tzset(); struct tm tm; localtime_r( &t, &tm ); char b[ 256 ]; b[ 0 ] = 0; strftime( b, sizeof b, formats[ k ], &tm );
	VP_CHECK( "date-time", got == b, s9( wall ) + " in zone " + zone + " as " + formats[ k ] + " gives " + vp::show( got ) + " instead of " + b ); event( "dates" ); note( string( formats[ k ] ) + b );
}
// sleeping takes at least the time asked for
PART( sleeps, 24, 200 )
{
	int ms = (int)r.below( r.chance( 1, 4 ) ? 500 : 25 ); struct timespec a, b; on = false; clock_gettime( CLOCK_MONOTONIC, &a ); flut::sleep( ms ); clock_gettime( CLOCK_MONOTONIC, &b ); ns e = ( b.tv_sec - a.tv_sec ) * 1000000000ll + b.tv_nsec - a.tv_nsec; VP_CHECK( "sleeps-long-enough", e >= ms * 1000000ll, num( ms ) + " ms took " + s9( e ) ); event( "sleeps" ); note( num( ms ) );
}
