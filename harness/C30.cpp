// C30 File operations do what they report, never clobber wrongly, and fail cleanly
// vp-rule: random scratch folders (files, folders, links, missing names), contents up to 300 kB, injected write faults (file size limit), and 2-8 concurrent threads or processes; the whole scratch tree is recorded before and after each call and compared with the expected change; counted by state, operation and outcome
// vp-builds: asan,tsan
#include "flut/filesystem.hpp"
#include "flut/system_tools.hpp"
#include <thread>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "common.hpp"
using namespace vp;
using std::string;
using flut::path;
#ifdef VP_TSAN
#define ONLY_ASAN( n ) 2
#define N( n ) ( ( n ) / 4 + 4 )
#else
#define ONLY_ASAN( n ) n
#define N( n ) n
#endif

typedef std::map< string, string > Tree; // relative path -> "D", "L" + target or "F" + contents
static void scan( const string& dir, const string& rel, Tree& t )
{
	DIR* d = opendir( ( dir + rel ).c_str() ); if ( !d ) return; std::vector< string > names; while ( dirent* e = readdir( d ) ) { string n = e->d_name; if ( n != "." && n != ".." ) names.push_back( n ); } closedir( d );
	for ( auto& n : names ) { string p = rel + "/" + n; struct stat st; if ( lstat( ( dir + p ).c_str(), &st ) ) continue; if ( S_ISDIR( st.st_mode ) ) { t[ p ] = "D"; scan( dir, p, t ); } else if ( S_ISLNK( st.st_mode ) ) { char b[ 4096 ]; ssize_t k = readlink( ( dir + p ).c_str(), b, sizeof b ); t[ p ] = "L" + string( b, k > 0 ? k : 0 ); } else if ( !S_ISREG( st.st_mode ) ) t[ p ] = "S"; else { string c; get_file( dir + p, c ); t[ p ] = "F" + c; } }
}
static Tree scan( const Scratch& s ) { Tree t; scan( s.dir, "", t ); return t; }
static string diff( const Tree& a, const Tree& b ) { string r; for ( auto& x : a ) { auto i = b.find( x.first ); if ( i == b.end() ) r += " -" + x.first; else if ( i->second != x.second ) r += " !" + x.first + "(" + num( x.second.size() ) + "->" + num( i->second.size() ) + " bytes)"; } for ( auto& x : b ) if ( !a.count( x.first ) ) r += " +" + x.first; return r.substr( 0, 400 ); }
static string contents( Rng& r ) { if ( r.chance( 1, 8 ) ) { string s = r.bytes( 61 ), t; size_t n = ( size_t( 1 ) << ( 9 + r.below( 9 ) ) ) * ( 1 + r.below( 3 ) ) + r.below( 3 ) - 1; while ( t.size() < n ) t += s; t.resize( n ); event( "block-sized contents" ); return t; } if ( r.chance( 1, 6 ) ) return ""; if ( r.chance( 1, 8 ) ) { string s = r.bytes( 64 ), t; size_t n = 1 + r.below( 300000 ); while ( t.size() < n ) t += s; return t; } string s = r.bytes( r.len( 9000 ) ); if ( s.size() && r.chance( 1, 3 ) ) s[ r.below( s.size() ) ] = 0; if ( r.chance( 1, 4 ) ) s += "\r\n\x1a\n"; return s; }
static const char* plain_name( Rng& r ) { return r.pick( { "a", "b.txt", "file name", "x.y.z", ".hidden", "UPPER", "data (1)", "no_ext", "end.", "b\xc3\xa9" } ); }
static const char* name( Rng& r ) { return r.pick( { "a", "b.txt", "file name", "x.y.z", ".hidden", "UPPER", "data (1)", "no_ext", "back\\slash", "end.", "b\xc3\xa9" } ); }
static bool make_socket( const string& f ) { struct sockaddr_un a; memset( &a, 0, sizeof a ); a.sun_family = AF_UNIX; if ( f.size() + 1 > sizeof a.sun_path ) return false; strcpy( a.sun_path, f.c_str() ); int s = socket( AF_UNIX, SOCK_STREAM, 0 ); bool ok = s >= 0 && bind( s, (struct sockaddr*)&a, sizeof a ) == 0; if ( s >= 0 ) close( s ); return ok; }

PART( copies, ONLY_ASAN( 2500 ), ONLY_ASAN( 60000 ) )
{
	Scratch s; string src = s / ( string( "s_" ) + name( r ) ), dst = s / ( string( "d_" ) + name( r ) ), data = contents( r ), old = contents( r ); if ( r.chance( 1, 4 ) ) { old = data; for ( size_t k = 1 + r.below( 3 ); k && !old.empty(); --k ) old[ r.below( old.size() ) ] ^= 1 + (char)r.below( 100 ); } // as long as the source, but not the same
	 put_file( s / "bystander", "untouched" ); mkdir( ( s / "folder" ).c_str(), 0755 ); put_file( s / "folder/inside", "kept" );
	int sk = (int)r.below( 5 ), dk = (int)r.below( 7 ); bool over = r.chance( 1, 2 ); const char* skind = "file";
	if ( sk == 0 ) skind = "missing"; else if ( sk == 1 && r.chance( 1, 2 ) ) { src = s / "folder"; skind = "folder"; } else { put_file( src, data ); if ( r.chance( 1, 10 ) ) { symlink( src.c_str(), ( s / "link" ).c_str() ); src = s / "link"; skind = "link"; } }
	bool have = string( skind ) == "file" || string( skind ) == "link"; const char* dkind = "new"; bool expect = have;
	switch ( dk )
	{
	case 0: case 1: put_file( dst, old ); dkind = "existing"; expect = have && over; break;
	case 2: dst = s / "folder"; dkind = "folder"; expect = false; break;
	case 3: dst = s / "nowhere/file"; dkind = "in a missing folder"; expect = false; break;
	case 4: if ( have ) { if ( r.chance( 1, 2 ) ) { dst = src; dkind = "itself"; } else { link( src.c_str(), dst.c_str() ); dkind = "hard link to itself"; } expect = false; } break;
	case 5: dst = s / "folder/copy"; dkind = "new in folder"; break;
	}
	Tree before = scan( s ); bool got = flut::copy_file( path( src ), path( dst ), over ); Tree after = scan( s ), want = before; if ( expect ) want[ dst.substr( s.dir.size() ) ] = "F" + data;
	string w = string( skind ) + " of " + num( data.size() ) + " bytes to " + dkind + ( over ? " with" : " without" ) + " overwriting"; event( ( string( "copy " ) + skind + " to " + dkind ).c_str() );
	VP_CHECK( "copy-reported", got == expect, w + " returns " + num( got ) ); VP_CHECK( expect ? "copy-exact" : "copy-refused-cleanly", after == want, w + " changes" + diff( want, after ) ); note( w ); if ( want_sample() ) sample( w );
}
PART( copy_faults, ONLY_ASAN( 600 ), ONLY_ASAN( 20000 ) )
{
	Scratch s; string data; size_t n = 1 + r.len( 60000 ); if ( r.chance( 1, 2 ) ) n += 4096; data = r.bytes( n ); put_file( s / "src", data ); put_file( s / "bystander", "untouched" ); bool exists = r.chance( 1, 2 ); if ( exists ) put_file( s / "dst", "previous contents" );
	size_t limit = r.chance( 1, 4 ) ? n : r.chance( 1, 4 ) ? n - 1 : r.below( n ); if ( r.chance( 1, 6 ) ) limit = n + r.below( 1000 );
	signal( SIGXFSZ, SIG_IGN ); struct rlimit old, lim; getrlimit( RLIMIT_FSIZE, &old ); lim = old; lim.rlim_cur = limit; setrlimit( RLIMIT_FSIZE, &lim ); bool got = flut::copy_file( path( s / "src" ), path( s / "dst" ), true ); setrlimit( RLIMIT_FSIZE, &old );
	string w = num( n ) + " bytes with room for " + num( limit ), out, in, by; event( limit < n ? "writes cut short" : "writes with enough room" );
	VP_CHECK( limit < n ? "write-fault-reported" : "no-false-failure", got == ( limit >= n ), w + " returns " + num( got ) ); get_file( s / "src", in ); get_file( s / "bystander", by ); VP_CHECK( "source-kept", in == data && by == "untouched", w ); if ( got ) VP_CHECK( "copy-exact", get_file( s / "dst", out ) && out == data, w ); note( w );
}
PART( loads, ONLY_ASAN( 1500 ), ONLY_ASAN( 40000 ) )
{
	Scratch s; string f = s / name( r ), data = contents( r ); if ( r.chance( 1, 4 ) ) data = string( r.pick( { "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\x1A", "\r\n", "\n", " ", "#!", "\xEF\xBB" } ) ) + data; if ( r.chance( 1, 4 ) ) data += r.pick( { "\n", "\r\n", "\r", "\x1A", "\n\n", " ", "\t", "\xEF\xBB\xBF" } ); if ( r.chance( 1, 8 ) ) data += '\0'; int kind = (int)r.below( 5 ); if ( kind == 0 ) {} else if ( kind == 1 ) mkdir( f.c_str(), 0755 ); else put_file( f, data ); Tree before = scan( s ); string w = kind == 0 ? "missing file" : kind == 1 ? "folder" : "file of " + num( data.size() ) + " bytes";
	flut::error_code ec; string got = flut::load_string( path( f ), &ec ); if ( kind > 1 ) { VP_CHECK( "load", ec.ok() && !ec.error() && got == data && flut::load_string( path( f ) ) == data, w ); event( "files loaded" ); } else { VP_CHECK( "load-error", ec.error() && !ec.ok() && ec.code() != 0, w ); VP_CHECK( "load-throws", throws( [&] { flut::load_string( path( f ) ); } ), w ); event( "loads refused" ); }
	VP_CHECK( "load-changes-nothing", scan( s ) == before, w ); note( w + f.substr( s.dir.size() ) );
}
PART( questions, ONLY_ASAN( 1500 ), ONLY_ASAN( 40000 ) )
{
	Scratch s; string n = name( r ), f = s / n; const char* kind = r.pick( { "missing", "file", "empty file", "folder", "full folder", "link to file", "link to folder", "dangling link", "below file", "trailing separator", "closed folder", "socket", "pipe" } ); string k = kind; bool other = false; bool file = false, folder = false;
	if ( k == "file" ) put_file( f, "x" ), file = true; if ( k == "empty file" ) put_file( f, "" ), file = true; if ( k == "folder" || k == "full folder" ) { mkdir( f.c_str(), 0755 ); folder = true; if ( k == "full folder" ) put_file( f + "/x", "y" ); } if ( k == "link to file" ) { put_file( s / "t", "x" ); symlink( ( s / "t" ).c_str(), f.c_str() ); file = true; } if ( k == "link to folder" ) { mkdir( ( s / "t" ).c_str(), 0755 ); symlink( ( s / "t" ).c_str(), f.c_str() ); folder = true; } if ( k == "dangling link" ) symlink( ( s / "t" ).c_str(), f.c_str() ); if ( k == "below file" ) { put_file( s / "t", "x" ); f = s / "t/u"; } if ( k == "trailing separator" ) { mkdir( f.c_str(), 0755 ); f += "/"; folder = true; }
	if ( k == "closed folder" ) { mkdir( f.c_str(), 0 ); folder = true; } if ( k == "socket" ) { if ( !make_socket( f ) ) return; other = true; } if ( k == "pipe" ) { if ( mkfifo( f.c_str(), 0600 ) ) return; other = true; } // neither file nor folder; a pipe is not asked whether it is a file, since opening it waits for a writer
	Tree before = scan( s ); path p( f ); VP_CHECK( "exists", flut::exists( p ) == ( file || folder || other ), k ); if ( k != "pipe" ) VP_CHECK( "file-exists", flut::file_exists( p ) == file, k ); VP_CHECK( "folder-exists", flut::folder_exists( p ) == folder, k ); VP_CHECK( "asking-changes-nothing", scan( s ) == before, k + diff( before, scan( s ) ) ); event( kind ); note( k + n );
	// removal: of files and empty folders, of nothing else
	if ( k.find( "link" ) == string::npos && k != "trailing separator" )
	{
		put_file( s / "bystander", "z" ); bool can = file || k == "folder" || k == "closed folder" || other; bool got = flut::remove( p ); Tree after = scan( s ), want = before; want[ "/bystander" ] = "Fz"; if ( can ) want.erase( "/" + n );
		VP_CHECK( "remove", got == can && after == want, k + " returns " + num( got ) + diff( want, after ) ); VP_CHECK( "removed", !can || !flut::exists( p ), k ); event( can ? "removed" : "removal refused" );
	}
}
PART( folders, ONLY_ASAN( 1500 ), ONLY_ASAN( 40000 ) )
{
	Scratch s; string rel; size_t depth = 1 + r.below( 6 ), have = r.below( depth + 1 ); Tree want; std::vector< string > parts; for ( size_t i = 0; i < depth; ++i ) { rel += string( "/" ) + plain_name( r ); parts.push_back( rel ); if ( i < have ) mkdir( ( s.dir + rel ).c_str(), 0755 ); want[ rel ] = "D"; } bool fresh = have < depth, relative = r.chance( 1, 4 );
	put_file( s / "bystander", "z" ); want[ "/bystander" ] = "Fz"; string w = num( depth ) + " levels, " + num( have ) + " present" + ( relative ? ", relative" : "" ); if ( relative ) chdir( s.dir.c_str() ); const char* trail = r.chance( 1, 4 ) ? r.pick( { "/", "//" } ) : ""; if ( *trail ) w += ", trailing separator"; bool got = flut::create_directories( path( ( relative ? rel.substr( 1 ) : s.dir + rel ) + trail ) );
	VP_CHECK( "creates-all", scan( s ) == want, w + diff( want, scan( s ) ) ); VP_CHECK( "created-reported", got == fresh, w + " returns " + num( got ) ); event( fresh ? "folders created" : "folder already there" ); note( w + rel );
	// current folder
	path cur( s.dir + rel ); flut::current_path( cur ); char real[ 4096 ]; VP_CHECK( "current-folder", flut::current_path().str() == realpath( ( s.dir + rel ).c_str(), real ), rel ); chdir( "/" ); event( "folder changes" );
	// a file in the way: nothing is created or lost
	string blocked = s / "bystander/sub"; VP_CHECK( "blocked", !flut::create_directories( path( blocked ) ) && scan( s ) == want, w + diff( want, scan( s ) ) );
}
// without permission: refused, reported, and nothing changed. A child gives up its privileges first; where it cannot, nothing is judged
PART( denied, ONLY_ASAN( 60 ), ONLY_ASAN( 1500 ) )
{
	Scratch s; string data = contents( r ) + "x", old = contents( r ) + "y"; chmod( s.dir.c_str(), 0755 ); mkdir( ( s / "open" ).c_str(), 0777 ); chmod( ( s / "open" ).c_str(), 0777 ); mkdir( ( s / "closed" ).c_str(), 0755 ); put_file( s / "open/secret", data ); put_file( s / "open/mine", data ); put_file( s / "open/dest", old ); put_file( s / "open/locked", old ); put_file( s / "closed/kept", old ); mkdir( ( s / "closed/sub" ).c_str(), 0755 );
	chmod( ( s / "open/secret" ).c_str(), 0 ); chmod( ( s / "open/mine" ).c_str(), 0644 ); chmod( ( s / "open/dest" ).c_str(), 0666 ); chmod( ( s / "open/locked" ).c_str(), 0444 ); Tree before = scan( s ); int kind = (int)( idx % 8 ); bool over = r.chance( 1, 2 ); fflush( 0 );
	pid_t p = fork(); if ( p == 0 )
	{
		if ( chdir( s.dir.c_str() ) || setgid( 65534 ) || setuid( 65534 ) || access( "open/secret", R_OK ) == 0 || access( "closed", W_OK ) == 0 || access( "open/mine", R_OK ) != 0 ) _exit( 3 );
		bool good = false; try { switch ( kind )
		{
		case 0: good = !flut::copy_file( path( "open/secret" ), path( "open/dest" ), true ); break;
		case 1: good = !flut::copy_file( path( "open/secret" ), path( "open/new" ), over ); break;
		case 2: good = !flut::copy_file( path( "open/mine" ), path( "open/locked" ), true ); break;
		case 3: good = !flut::copy_file( path( "open/mine" ), path( "closed/new" ), over ); break;
		case 4: { flut::error_code ec; string t = flut::load_string( path( "open/secret" ), &ec ); good = t.empty() && ec.error() && throws( [&] { flut::load_string( path( "open/secret" ) ); } ); break; }
		case 5: good = !flut::create_directories( path( "closed/new" ) ) && !flut::create_directories( path( "closed/x/y" ) ); break;
		case 6: good = !flut::remove( path( "closed/kept" ) ) && !flut::remove( path( "closed/sub" ) ); break;
		default: good = throws( [&] { flut::create_unique_folder( path( "closed/run" ), 5 ); } );
		} } catch ( std::exception& ) {}
		_exit( good ? 0 : 1 );
	}
	int st = 0; waitpid( p, &st, 0 ); static const char* names[] = { "copy of an unreadable file over another", "copy of an unreadable file", "copy over a file that cannot be written", "copy into a folder that cannot be written", "load of an unreadable file", "new folder in a folder that cannot be written", "removal from a folder that cannot be written", "unique folder in a folder that cannot be written" };
	if ( !WIFEXITED( st ) || WEXITSTATUS( st ) == 3 ) { if ( WIFEXITED( st ) ) { event( "privileges could not be given up" ); return; } }
	VP_CHECK( "denied-reported", WIFEXITED( st ) && WEXITSTATUS( st ) == 0, string( names[ kind ] ) + " ends with " + num( st ) ); Tree after = scan( s ); VP_CHECK( "denied-cleanly", after == before, string( names[ kind ] ) + " changes" + diff( before, after ) ); event( names[ kind ] ); note( string( names[ kind ] ) + num( data.size() ) );
}
// the user's folders follow the environment
PART( standard_folders, ONLY_ASAN( 200 ), ONLY_ASAN( 2000 ) )
{
	string home = string( r.pick( { "/home/user", "/root", "/tmp", "/home/some one", "/a", "/x/.y" } ) ) + ( r.chance( 1, 2 ) ? "/" + num( r.below( 100 ) ) : "" ); const char* was = getenv( "HOME" ); string keep = was ? was : ""; setenv( "HOME", home.c_str(), 1 );
	string d = flut::get_documents_folder().str(), c = flut::get_config_folder().str(); if ( was ) setenv( "HOME", keep.c_str(), 1 ); else unsetenv( "HOME" ); VP_CHECK( "documents-folder", d == home, d + " for home " + home ); VP_CHECK( "config-folder", c == home + "/.config", c + " for home " + home ); event( "standard folders" ); note( home );
}
PART( unique, ONLY_ASAN( 1200 ), ONLY_ASAN( 30000 ) )
{
	Scratch s; string base = string( plain_name( r ) ) + ( r.chance( 1, 3 ) ? "_run" : "" ); bool deep = r.chance( 1, 4 ); if ( deep ) base = "deep/er/" + base; if ( r.chance( 1, 2 ) && deep ) { mkdir( ( s / "deep" ).c_str(), 0755 ); mkdir( ( s / "deep/er" ).c_str(), 0755 ); }
	string taken; if ( !deep ) for ( int i = 0; i < 6; ++i ) { string n = i ? base + " (" + num( i ) + ")" : base; if ( r.chance( 1, 2 ) ) { if ( r.chance( 1, 4 ) ) { put_file( s / n, "file" ); taken += " f" + num( i ); } else { mkdir( ( s / n ).c_str(), 0755 ); put_file( s / ( n + "/old" ), "kept" ); taken += " d" + num( i ); } } }
	string w = base + " with" + taken + " taken"; Tree before = scan( s ); std::set< string > given;
	for ( int i = 0; i < 4; ++i ) { string got = flut::create_unique_folder( path( s / base ) ).str(); string rel = got.substr( std::min( got.size(), s.dir.size() ) ); Tree after = scan( s ), want = before; want[ rel ] = "D"; if ( deep ) { want[ "/deep" ] = "D"; want[ "/deep/er" ] = "D"; } VP_CHECK( "unique-new", !before.count( rel ) && given.insert( rel ).second && rel.compare( 0, base.size() + 1, "/" + base ) == 0, w + " gives " + rel ); VP_CHECK( "unique-as-asked", before.count( "/" + base ) || rel == "/" + base, w + " gives " + rel ); VP_CHECK( "unique-created", after == want, w + " gives " + rel + diff( want, after ) ); before = after; event( "unique folders" ); }
	int tries = r.chance( 1, 6 ) ? 5 + (int)r.below( 60 ) : 1 + (int)r.below( 4 ); Scratch t; for ( int i = 0; i < tries; ++i ) mkdir( ( t / ( i ? "u (" + num( i ) + ")" : string( "u" ) ) ).c_str(), 0755 ); Tree tb = scan( t ); VP_CHECK( "attempts-exhausted", throws( [&] { flut::create_unique_folder( path( t / "u" ), tries ); } ) && scan( t ) == tb, num( tries ) + " attempts" ); event( "attempts exhausted" );
	string more = flut::create_unique_folder( path( t / "u" ), tries + 1 ).str(); VP_CHECK( "last-attempt", !tb.count( more.substr( t.dir.size() ) ) && scan( t ).count( more.substr( t.dir.size() ) ), num( tries + 1 ) + " attempts" ); VP_CHECK( "last-name", more.compare( 0, t.dir.size() + 2, t.dir + "/u" ) == 0, more ); note( w );
}
/// offline check of the folders handed out by several callers
static void judge( const Scratch& s, std::vector< string > got, size_t calls, const Tree& before, const string& w )
{
	VP_CHECK( "all-answered", got.size() == calls, w + ": " + num( got.size() ) + " of " + num( calls ) ); std::sort( got.begin(), got.end() ); size_t twice = 0; for ( size_t i = 1; i < got.size(); ++i ) twice += got[ i ] == got[ i - 1 ]; VP_CHECK( "handed-out-once", twice == 0, w + ": " + num( twice ) + " folders handed out twice" );
	Tree after = scan( s ), want = before; for ( auto& g : got ) { string rel = g.substr( std::min( g.size(), s.dir.size() ) ); VP_CHECK( "not-there-before", !before.count( rel ), w + ": " + rel ); for ( size_t p = rel.find( '/', 1 ); p != string::npos; p = rel.find( '/', p + 1 ) ) want[ rel.substr( 0, p ) ] = "D"; want[ rel ] = "D"; } VP_CHECK( "exactly-those", after == want, w + diff( want, after ) ); event( "folders handed out concurrently", calls );
}
PART( unique_threads, N( 120 ), N( 4000 ) )
{
	Scratch s; size_t k = 2 + r.below( 7 ), m = 1 + r.below( 5 ); bool deep = r.chance( 1, 3 ); string base = s / ( deep ? "p/q/run" : "run" ); if ( r.chance( 1, 2 ) && !deep ) mkdir( base.c_str(), 0755 ); Tree before = scan( s ); std::atomic< int > ready( 0 ), failed( 0 ); std::vector< std::vector< string > > got( k ); std::vector< std::thread > th;
	for ( size_t i = 0; i < k; ++i ) th.emplace_back( [&, i] { ++ready; while ( ready < int( k ) ) {} try { for ( size_t j = 0; j < m; ++j ) got[ i ].push_back( flut::create_unique_folder( path( base ) ).str() ); } catch ( std::exception& ) { ++failed; } } ); for ( auto& t : th ) t.join();
	std::vector< string > all; string order; for ( size_t i = 0; i < k; ++i ) for ( auto& g : got[ i ] ) { all.push_back( g ); order += num( i ) + g.substr( s.dir.size() ) + ","; } judge( s, all, k * m, before, num( k ) + " threads" ); note( order ); if ( want_sample() ) sample( order );
}
PART( unique_processes, ONLY_ASAN( 40 ), ONLY_ASAN( 1500 ) )
{
	Scratch s; size_t k = 2 + r.below( 5 ), m = 1 + r.below( 4 ); string base = s / "run"; Tree before = scan( s ); int go[ 2 ], out[ 2 ]; if ( pipe( go ) || pipe( out ) ) _exit( 90 ); std::vector< pid_t > kids;
	for ( size_t i = 0; i < k; ++i ) { pid_t p = fork(); if ( p == 0 ) { close( go[ 1 ] ); char c; if ( read( go[ 0 ], &c, 1 ) ) {} try { for ( size_t j = 0; j < m; ++j ) { string g = flut::create_unique_folder( path( base ) ).str() + "\n"; if ( write( out[ 1 ], g.data(), g.size() ) ) {} } } catch ( std::exception& ) { } _exit( 0 ); } kids.push_back( p ); }
	close( go[ 0 ] ); close( out[ 1 ] ); close( go[ 1 ] ); string txt; char b[ 4096 ]; ssize_t n; while ( ( n = read( out[ 0 ], b, sizeof b ) ) > 0 ) txt.append( b, n ); close( out[ 0 ] ); for ( auto p : kids ) waitpid( p, 0, 0 ); std::vector< string > all; size_t at = 0, e; while ( ( e = txt.find( '\n', at ) ) != string::npos ) { all.push_back( txt.substr( at, e - at ) ); at = e + 1; } judge( s, all, k * m, before, num( k ) + " processes" ); note( txt.size() > s.dir.size() ? num( k ) + " " + num( m ) + " " + num( idx ) : "" );
}
PART( same_folders, N( 100 ), N( 3000 ) )
{
	// many threads creating overlapping nested folders: all of them exist afterwards
	Scratch s; size_t k = 2 + r.below( 7 ); std::vector< string > want; string common = "/top/mid"; for ( size_t i = 0; i < k; ++i ) want.push_back( s.dir + common + "/" + ( r.chance( 1, 2 ) ? "same" : "leaf" + num( i ) ) + "/end" ); std::atomic< int > ready( 0 ); std::vector< std::thread > th;
	for ( size_t i = 0; i < k; ++i ) th.emplace_back( [&, i] { ++ready; while ( ready < int( k ) ) {} flut::create_directories( path( want[ i ] ) ); } ); for ( auto& t : th ) t.join(); for ( auto& f : want ) VP_CHECK( "all-exist", flut::folder_exists( path( f ) ), f.substr( s.dir.size() ) ); event( "concurrent nested folders", k ); note( num( k ) + want[ 0 ].substr( s.dir.size() ) + want[ 1 ].substr( s.dir.size() ) );
}
PART( copies_threads, N( 60 ), N( 1500 ) )
{
	// threads copying distinct files at the same time
	Scratch s; size_t k = 2 + r.below( 5 ); std::vector< string > data( k ); for ( size_t i = 0; i < k; ++i ) { data[ i ] = contents( r ) + num( i ); put_file( s / ( "s" + num( i ) ), data[ i ] ); } std::vector< std::thread > th; std::vector< char > ok( k );
	for ( size_t i = 0; i < k; ++i ) th.emplace_back( [&, i] { ok[ i ] = flut::copy_file( path( s / ( "s" + num( i ) ) ), path( s / ( "d" + num( i ) ) ), false ) && flut::load_string( path( s / ( "d" + num( i ) ) ) ) == data[ i ]; } ); for ( auto& t : th ) t.join(); for ( size_t i = 0; i < k; ++i ) VP_CHECK( "copies-apart", ok[ i ], "file " + num( i ) ); event( "concurrent copies", k ); note( data[ 0 ] );
}
