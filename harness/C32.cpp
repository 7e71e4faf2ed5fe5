// C32 The test framework counts and reports every result truthfully
// vp-rule: histories of up to 200 results, reports, resets and switches of the show-passed option, through separate objects and the macros; a recording sink at a random level sees every log line; counted by history
#include "flut/system/test_framework.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "common.hpp"
using namespace vp;
using std::string;
namespace lg = flut::log;

struct Rec : lg::sink
{
	std::vector< std::pair< int, string > > seen;
	Rec( lg::level l ) : sink( l ) {}
	void send_log_message( lg::level l, const string& s ) override { seen.emplace_back( int( l ), s ); }
};
PART( histories, 4000, 100000 )
{
	bool global = r.chance( 1, 3 ); flut::test_framework own; auto& t = global ? flut::test_framework::get_instance() : own; if ( global ) { t.num_tests = t.num_passed = t.num_failed = 0; t.show_passed = false; }
	VP_CHECK( "starts-at-zero", t.num_tests == 0 && t.num_passed == 0 && t.num_failed == 0 && !t.show_passed, "a new framework" );
	Rec sink( (lg::level)r.range( lg::trace_level, lg::never_log_level ) ); int lv = sink.get_log_level(); std::vector< std::pair< int, string > > want; int n = 0, f = 0, p = 0; string trace; int bias = (int)r.below( 4 );
	size_t steps = r.chance( 1, 400 ) ? 4000 : r.chance( 1, 20 ) ? 200 : r.below( 30 );
	auto line = [&]( int l, const string& s ) { if ( l >= lv ) want.emplace_back( l, s ); };
	for ( size_t i = 0; i < steps; ++i )
	{
		switch ( r.below( 12 ) )
		{
		case 0: { trace += "R"; line( f ? lg::error_level : lg::info_level, "Test results: " + num( n ) + " performed, " + num( f ) + " failed, " + num( p ) + " passed" ); int rc = global && r.chance( 1, 2 ) ? FLUT_TEST_REPORT() : t.report(); VP_CHECK( "report-signals", ( rc != 0 ) == ( f > 0 ) && ( f == 0 || rc == -1 ), trace + " returns " + num( rc ) ); event( f ? "reports of failure" : "reports of success" ); break; }
		case 1: t.show_passed = !t.show_passed; trace += "S"; break;
		case 2: if ( r.chance( 1, 4 ) )
			{
				trace += "0"; t.reset(); event( f ? "resets after failures" : "resets" );
				if ( f > 0 && t.num_tests == f && t.num_passed == f && t.num_failed == f ) { ctx().record( "histories:reset-after-failure", "after " + trace + " every count is " + num( f ) + ", the failures before the reset" ); n = p = f; } // the recorded finding; the history goes on from the counts it leaves
				else n = f = p = 0;
			} break;
		default:
			bool ok = bias == 0 ? r.chance( 1, 2 ) : bias == 1 ? r.chance( 9, 10 ) : bias == 2; bool shown = t.show_passed; trace += ok ? "p" : "f"; string name = r.pick( { "x", "a == b", "100% sure", "f( \"s\", '%s' )", "" } ), msg = r.pick( { "", "", "because", "%d %n", "two\nlines" } ); bool got;
			if ( global && r.chance( 1, 2 ) ) { if ( r.chance( 1, 2 ) ) { got = FLUT_TEST( ok ); name = "ok"; msg = ""; } else { got = FLUT_TEST_MSG( 1 == 1 && ok, msg ); name = "1 == 1 && ok"; } } else got = msg.empty() && r.chance( 1, 2 ) ? t.test( name.c_str(), ok ) : t.test( name.c_str(), ok, msg );
			++n; ok ? ++p : ++f; VP_CHECK( "returns-result", got == ok, trace ); if ( !ok ) line( lg::error_level, "TEST " + num( n ) + " " + name + ": FAILED! " + msg ); else if ( shown ) line( lg::info_level, "TEST " + num( n ) + " " + name + ": passed. " + msg ); event( ok ? "passes" : "failures" );
		}
		VP_CHECK( "counts", t.num_tests == n && t.num_passed == p && t.num_failed == f, trace + ": " + num( t.num_tests ) + " tests, " + num( t.num_passed ) + " passed, " + num( t.num_failed ) + " failed" );
		VP_CHECK( "logged", sink.seen == want, trace + ": " + num( sink.seen.size() ) + " lines, expected " + num( want.size() ) + ( sink.seen.empty() ? "" : ", last " + vp::show( sink.seen.back().second ) ) + ( want.empty() ? "" : ", expected " + vp::show( want.back().second ) ) );
	}
	note( trace ); if ( want_sample() ) sample( trace );
}
