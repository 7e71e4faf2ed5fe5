// C06 Path operations decompose and recompose every path consistently
// vp-rule: path texts over letters, dots and both separators (exhaustive up to length 6 over {a . / \}, random beyond), random operation sequences; non-trivial: contains a dot or separator; counted by text
#include "flut/system/path.hpp"
#include "common.hpp"
#include <sstream>
using namespace vp;
using std::string;
using flut::path;

struct Parts { string parent, file, stem, ext; bool has_sep = false, has_dot = false; };
static Parts parts_of( const string& s )
{
	Parts p; size_t sep = s.size();
	while ( sep > 0 && s[ sep - 1 ] != '/' && s[ sep - 1 ] != '\\' ) --sep; // index after the last separator
	p.has_sep = sep > 0;
	if ( sep ) p.parent = s.substr( 0, sep - 1 );
	p.file = s.substr( sep );
	size_t dot = p.file.size(); while ( dot > 0 && p.file[ dot - 1 ] != '.' ) --dot;
	p.has_dot = dot > 0;
	p.stem = dot ? p.file.substr( 0, dot - 1 ) : p.file;
	if ( dot ) p.ext = p.file.substr( dot );
	return p;
}
static bool is_sep( char c ) { return c == '/' || c == '\\'; }
static string join( const string& a, const string& b ) { return a.empty() || is_sep( a.back() ) ? a + b : a + "/" + b; }
// outside the guarantee: directly below the root, and repeated separators before the file name
static bool rooted( const string& s ) { Parts p = parts_of( s ); return p.has_sep && ( p.parent.empty() || is_sep( p.parent.back() ) ); }

static void observe( const string& s, Rng& r )
{
	const path p( s ); Parts x = parts_of( s ); const string w = show( s );
	VP_CHECK( "str", p.str() == s && p.string() == s && p.c_str() == string( s.c_str() ), w );
	VP_CHECK( "filename", p.filename().str() == x.file, w + " -> " + show( p.filename().str() ) );
	VP_CHECK( "stem", p.stem().str() == x.stem, w + " -> " + show( p.stem().str() ) );
	VP_CHECK( "extension", p.extension().str() == x.ext, w + " -> " + show( p.extension().str() ) );
	VP_CHECK( "parent", p.parent_path().str() == x.parent, w + " -> " + show( p.parent_path().str() ) );
	VP_CHECK( "empty", p.empty() == s.empty(), w );
	VP_CHECK( "has-filename", p.has_filename() == !x.file.empty(), w );
	VP_CHECK( "has-parent", p.has_parent_path() == x.has_sep, w );
	event( "decompose" );
	if ( !x.parent.empty() && !rooted( s ) )
	{
		string j = ( p.parent_path() / p.filename() ).str(), e = s; e[ x.parent.size() ] = '/';
		VP_CHECK( "recompose", j == e, w + " -> " + show( j ) );
	}
	path q( s ); q.remove_filename();
	VP_CHECK( "remove-filename", q.str() == x.parent, w + " -> " + show( q.str() ) );
	path m( s ); m.make_preferred(); string e = s; for ( char& c : e ) if ( c == '\\' ) c = '/';
	VP_CHECK( "preferred", m.str() == e, w + " -> " + show( m.str() ) );
	VP_CHECK( "preferred-separator", path::preferred_separator() == '/', "" );
	path t( s ); t.replace_extension();
	string base = x.has_sep ? s.substr( 0, s.size() - x.file.size() ) : string();
	VP_CHECK( "remove-extension", t.str() == base + x.stem, w + " -> " + show( t.str() ) );
	path u( s ); u.replace_extension( "txt" );
	VP_CHECK( "replace-extension", u.str() == base + x.stem + ".txt", w + " -> " + show( u.str() ) );
	VP_CHECK( "replaced-reads-back", u.extension() == "txt" && u.parent_path() == p.parent_path() && ( u.stem() == p.stem() ), w );
	if ( !rooted( s ) )
	{
		path v( s ); v.replace_filename( "new.dat" );
		VP_CHECK( "replace-filename", v.str() == join( x.parent, "new.dat" ), w + " -> " + show( v.str() ) );
		VP_CHECK( "replace-filename-parent", v.parent_path() == p.parent_path() && v.filename() == "new.dat", w );
	}
	for ( const char* b : { "b", "b.c", "d/e", "" } )
	{
		string j = join( s, b );
		VP_CHECK( "join-path", ( p / path( b ) ).str() == j, w + " / " + b );
		VP_CHECK( "join-string", ( p / string( b ) ).str() == j, w + " / " + b );
		VP_CHECK( "join-literal", ( p / b ).str() == j, w + " / " + b );
		path a1( s ), a2( s ); a1 /= path( b ); a2 /= string( b );
		VP_CHECK( "join-assign", a1.str() == j && a2.str() == j, w + " /= " + b + " -> " + show( a1.str() ) );
	}
	VP_CHECK( "append", ( p + string( "x.y" ) ).str() == s + "x.y" && ( string( "x.y" ) + p ).str() == "x.y" + s, w );
	std::ostringstream os; os << p; VP_CHECK( "stream", os.str() == s, w );
	VP_CHECK( "equality", p == path( s ) && !( p != path( s ) ) && p != path( s + "x" ) && !( p == path( s + "x" ) ), w );
	// equality is equality of the text
	if ( !s.empty() )
	{
		string t = s; size_t at = r.below( t.size() );
		switch ( r.below( 6 ) )
		{
		case 5: t[ at ] = char( t[ at ] ^ ( 1 << r.below( 8 ) ) ); break;
		case 0: t[ at ] = t[ at ] == '/' ? '\\' : t[ at ] == '\\' ? '/' : isalpha( (unsigned char)t[ at ] ) ? char( t[ at ] ^ 0x20 ) : t[ at ]; break;
		case 1: t.erase( at, 1 ); break;
		case 2: t.insert( at, 1, "/.a\\"[ r.below( 4 ) ] ); break;
		case 3: t += r.pick( { "/", "\\", ".", "/." } ); break;
		default: t = "./" + t;
		}
		VP_CHECK( "equality-text", ( p == path( t ) ) == ( s == t ) && ( path( t ) == p ) == ( s == t ) && ( p != path( t ) ) == ( s != t ), w + " and " + show( t ) );
		event( "compare" );
	}
	path c1( p ), c2; c2 = p; path c3( std::move( c1 ) ); VP_CHECK( "copy", c2 == p && c3 == p && p.str() == s, w );
	path c4; c4 = std::move( c2 ); path c5; c5 = s; path c6; c6 = string( s );
	VP_CHECK( "assign", c4 == p && c5 == p && c6 == p, w );
	VP_CHECK( "cast", flut::string_cast< path >::from( s ) == p && flut::string_cast< path >::to( p ) == s, w );
	VP_CHECK( "const", p.str() == s, w + " changed by its accessors" );
	if ( s.find_first_of( "./\\" ) != string::npos ) note( s );
	if ( want_sample() ) sample( w );
}

PART( exhaustive, 5461, 21845 )
{
	string s; size_t len = 0; uint64_t k = idx, n = 1; while ( k >= n ) { k -= n; n *= 4; ++len; }
	for ( size_t i = 0; i < len; ++i ) { s += "a./\\"[ k % 4 ]; k /= 4; }
	observe( s, r );
}
PART( generated, 30000, 600000 )
{
	string s;
	switch ( r.below( 3 ) )
	{
	case 0: s = r.text( "ab.c/\\-_ \xc3", r.below( 24 ) ); break;
	case 1: s = r.bytes( r.below( 24 ) ); if ( !s.empty() && r.chance( 1, 4 ) ) s[ r.below( s.size() ) ] = 0; break;
	default: for ( size_t i = r.below( 6 ); i; --i ) { s += r.pick( { "folder", "a.b", "..", ".", "x", "file.tar.gz", "C:", "~", ".hidden", "end." } ); if ( i > 1 || r.chance( 1, 4 ) ) s += r.pick( { "/", "/", "\\" } ); }
	}
	if ( r.chance( 1, 60 ) ) s += r.text( "abc/.", r.len( 5000 ) );
	observe( s, r );
}
// sequences of modifications
PART( histories, 10000, 200000 )
{
	string s = r.pick( { "a/b.c", "x", "dir.d/file", "a\\b", "d/e/f.g.h", "" } ); path p( s ); string trace = show( s );
	for ( size_t i = 1 + r.below( 10 ); i; --i )
	{
		Parts x = parts_of( s ); string base = x.has_sep ? s.substr( 0, s.size() - x.file.size() ) : string();
		string a = r.pick( { "q", "r.s", "t/u", "v.w/x", "long_name.ext" } );
		switch ( r.below( 7 ) )
		{
		case 0: p /= path( a ); s = join( s, a ); trace += " /= " + a; break;
		case 1: p.replace_extension( path( "e1" ) ); s = base + x.stem + ".e1"; trace += " replace_extension(e1)"; break;
		case 2: p.replace_extension(); s = base + x.stem; trace += " replace_extension()"; break;
		case 3: p.remove_filename(); s = x.parent; trace += " remove_filename"; break;
		case 4: if ( !rooted( s ) ) { p.replace_filename( path( "f.g" ) ); s = join( x.parent, "f.g" ); trace += " replace_filename"; } break;
		case 5: p.make_preferred(); for ( char& c : s ) if ( c == '\\' ) c = '/'; trace += " make_preferred"; break;
		default: p = p + string( ".z" ); s += ".z"; trace += " + .z";
		}
		event( "modify" );
		VP_CHECK( "history", p.str() == s, trace + " gives " + show( p.str() ) + " expected " + show( s ) );
		Parts y = parts_of( s );
		VP_CHECK( "history-parts", p.filename().str() == y.file && p.extension().str() == y.ext && p.parent_path().str() == y.parent && p.stem().str() == y.stem, trace );
	}
	note( trace );
}

// paths far longer than any system limit, with many parts
PART( large, 60, 1500 )
{
	string s;
	switch ( r.below( 3 ) )
	{
	case 0: s = r.text( "abc/.", r.len( 100000 ) ); break;
	case 1: for ( size_t n = r.len( 10000 ); n; --n ) { s += r.pick( { "folder", "a.b", "..", "x" } ); s += n > 1 || r.chance( 1, 2 ) ? "/" : ""; } break;
	default: s = "d/" + r.text( "abcdefg", r.len( 70000 ) ) + "." + r.text( "abcdefg.", r.len( 70000 ) );
	}
	observe( s, r ); event( "large paths" );
}
