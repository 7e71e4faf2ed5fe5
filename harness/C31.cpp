// C31 Debug recordings contain every value written, in order, when the program ends
// vp-rule: each case is a child process that makes 0 to 3000 writes under up to 400 labels (whole rounds, gaps, repeats, labels appearing late, file chosen before, between or never) and ends normally; the file it leaves is parsed and compared with the trace of its writes; counted by label sequence
#include "flut/system/debug_storage.hpp"
#include <sys/wait.h>
#include <cfloat>
#include "common.hpp"
using namespace vp;
using std::string;

struct Event { string label; float value; };
static std::vector< string > cells( const string& line ) { std::vector< string > c( 1 ); for ( char x : line ) if ( x == '\t' ) c.emplace_back(); else c.back() += x; return c; }
static std::vector< string > lines( const string& s ) { std::vector< string > l; size_t at = 0, e; while ( ( e = s.find( '\n', at ) ) != string::npos ) { l.push_back( s.substr( at, e - at ) ); at = e + 1; } if ( at < s.size() ) l.push_back( s.substr( at ) + "<no end of line>" ); return l; }

PART( recordings, 700, 20000 )
{
	Scratch s; std::vector< string > labels; bool wide = r.chance( 1, 12 ); size_t k = wide ? 20 + r.below( r.chance( 1, 3 ) ? 380 : 100 ) : 1 + r.below( r.chance( 1, 5 ) ? 12 : 4 ); while ( labels.size() < k ) { string l = wide ? "w" + num( labels.size() ) : r.chance( 1, 2 ) ? string( 1, 'a' + labels.size() ) : r.text( "abcXYZ_.-/ 0123", 1 + r.small_len( 60 ) ); if ( l.back() != ' ' && l[ 0 ] != ' ' && std::find( labels.begin(), labels.end(), l ) == labels.end() ) labels.push_back( l ); }
	std::vector< Event > trace; size_t n = r.chance( 1, 12 ) ? 0 : r.chance( 1, 30 ) ? 500 + r.below( 2500 ) : wide ? 1 + r.below( 4 * k ) : 1 + r.below( 60 ); int style = (int)r.below( 4 ); string seq;
	auto value = [&]() -> float { switch ( r.below( 6 ) ) { case 0: return 0; case 1: return float( r.range( -1000, 1000 ) ); case 2: return float( r.pickd( { FLT_MAX, FLT_MIN, -FLT_MIN, 1e-30, -1e30, 999999, 1000000, 123456.75, -0.0, INFINITY, -INFINITY, NAN } ) ); case 3: return float( trace.size() ); default: return float( r.real( -1, 1 ) * std::pow( 10, (double)r.range( -8, 12 ) ) ); } };
	for ( size_t i = 0; i < n; ++i ) { size_t c = style == 0 ? i % k : style == 1 ? r.below( k ) : style == 2 ? r.below( std::min( k, 1 + i * k / n ) ) : ( r.chance( 1, 5 ) ? r.below( k ) : ( i % k ) ); trace.push_back( Event{ labels[ c ], value() } ); if ( i < 40 ) seq += wide ? " " + num( c ) : string( 1, char( 'a' + c ) ); }
	int choose = (int)r.below( 4 ); size_t at = choose == 2 ? r.below( n + 1 ) : 0; string file = s / ( choose == 0 ? "debug.txt" : "rec.txt" ); if ( r.chance( 1, 3 ) && n ) put_file( file, "previous recording\nof an earlier run\nmuch longer\tthan\tthis\n" );
	pid_t p = fork();
	if ( p == 0 )
	{
		struct itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer( ITIMER_PROF, &off, 0 ); if ( chdir( s.dir.c_str() ) ) _exit( 90 );
		try { for ( size_t i = 0; i <= n; ++i ) { if ( choose && i == at ) flut::set_debug_output( flut::path( choose == 3 ? string( "rec.txt" ) : s / "rec.txt" ) ); if ( i < n ) flut::write_debug( trace[ i ].label, trace[ i ].value ); } } catch ( std::exception& e ) { fprintf( stderr, "write_debug: %s\n", e.what() ); _exit( 7 ); }
		exit( 0 );
	}
	int st = 0; while ( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
	string w = num( n ) + " writes, labels " + seq + ( choose == 0 ? ", default file" : choose == 2 ? ", file chosen after " + num( at ) : "" ), got;
	VP_CHECK( "child-ends-normally", WIFEXITED( st ) && WEXITSTATUS( st ) == 0, w + " status " + num( st ) );
	bool have = get_file( file, got ); event( n ? "recordings" : "runs without writes" ); event( "values written", n ); note( seq + num( n ) + num( choose ) );
	std::set< string > names; if ( DIR* d = opendir( s.dir.c_str() ) ) { while ( dirent* e = readdir( d ) ) names.insert( e->d_name ); closedir( d ); } names.erase( "." ); names.erase( ".." );
	if ( n == 0 ) { VP_CHECK( "no-file-without-writes", names.empty(), w + ( names.empty() ? "" : " leaves " + *names.begin() ) ); return; }
	VP_CHECK( "file-written", have && names.size() == 1, w + " leaves " + num( names.size() ) + " files" );
	// the reference: one column per label in order of appearance; a write whose cell is taken opens a new row
	std::vector< string > order; std::vector< std::map< string, float > > rows; for ( auto& e : trace ) { if ( std::find( order.begin(), order.end(), e.label ) == order.end() ) order.push_back( e.label ); if ( rows.empty() || rows.back().count( e.label ) ) rows.emplace_back(); rows.back()[ e.label ] = e.value; }
	auto l = lines( got ); VP_CHECK( "row-count", l.size() == rows.size() + 1, w + ": " + num( l.size() ) + " lines for " + num( rows.size() ) + " rounds" );
	auto head = cells( l[ 0 ] ); VP_CHECK( "labels", head == order, w + ": header " + show( l[ 0 ] ) );
	for ( size_t i = 0; i < rows.size(); ++i )
	{
		auto c = cells( l[ i + 1 ] ); VP_CHECK( "row-width", c.size() == order.size(), w + ": row " + num( i ) + " is " + show( l[ i + 1 ] ) );
		for ( size_t j = 0; j < order.size(); ++j )
		{
			auto it = rows[ i ].find( order[ j ] ); char* end = 0; double v = strtod( c[ j ].c_str(), &end ); string ww = w + ": row " + num( i ) + " column " + order[ j ] + " is " + show( c[ j ] ); VP_CHECK( "number", end && !*end && c[ j ].size(), ww );
			if ( it == rows[ i ].end() ) VP_CHECK( "missing-marked", v < -3.4e38 && !std::isinf( v ), ww ); else VP_CHECK( "value-kept", v == it->second || ( std::isnan( v ) && std::isnan( it->second ) ) || std::fabs( v - it->second ) <= 6e-6 * std::fabs( it->second ), ww + " for " + num( it->second ) );
		}
	}
	if ( want_sample() ) sample( w + ": " + show( got ) );
}
