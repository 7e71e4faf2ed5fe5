// C10 INI files round-trip, and comments and blank lines change nothing
// vp-rule: random two-level trees, with comments, blank lines, spaces and line endings inserted into the saved file at random, malformed lines; non-trivial: at least 2 entries; counted by contents
#include "flut/prop_node_tools.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;

static bool blankc( char c ) { return strchr( " \t\r\n\f\v", c ) != nullptr; }
static string trimmed( string s ) { while ( !s.empty() && blankc( s.back() ) ) s.pop_back(); size_t i = 0; while ( i < s.size() && blankc( s[ i ] ) ) ++i; return s.substr( i ); }
static string line_text( Rng& r, size_t n )
{
	string s;
	switch ( r.below( 4 ) )
	{
	case 0: s = r.bytes( n ); break;
	case 1: s = r.text( "=#[];\"' a.:\\%", n ); break;
	default: s = r.text( "abcXYZ 0123456789_.-", n );
	}
	s.erase( std::remove_if( s.begin(), s.end(), []( char c ) { return c == '\n' || c == '\r'; } ), s.end() );
	return trimmed( s );
}
static size_t size( Rng& r ) { return r.chance( 1, 60 ) ? r.len( 5000 ) : r.below( 10 ); }
static string key( Rng& r, const Shadow& s )
{
	while ( true )
	{
		string k = line_text( r, size( r ) );
		k.erase( std::remove( k.begin(), k.end(), '=' ), k.end() ); k = trimmed( k );
		if ( k.empty() || k[ 0 ] == '#' || k[ 0 ] == '[' ) k = "k" + k;
		if ( s.find( k ) ) k += "_" + std::to_string( s.kids.size() ); // unique
		if ( !s.find( k ) ) return k;
	}
}
static Shadow make( Rng& r )
{
	Shadow s;
	for ( size_t n = r.below( 5 ); n; --n ) { string k = key( r, s ), v = line_text( r, size( r ) ); s.add( k, v.empty() ? "v" : v ); }
	for ( size_t n = r.chance( 1, 60 ) ? r.below( 100 ) : r.below( 5 ); n; --n )
	{
		string name = line_text( r, size( r ) ); if ( name.empty() ) name = "g";
		Shadow& g = s.add( name );
		for ( size_t m = 1 + ( r.chance( 1, 40 ) ? r.below( 300 ) : r.below( 5 ) ); m; --m ) { string k = key( r, g ); g.add( k, line_text( r, size( r ) ) ); }
	}
	return s;
}
static string ini_line( Rng& r, const string& k, const string& v, bool plain ) { auto sp = [&] { return plain ? string() : r.text( " \t", r.below( 3 ) ); }; return sp() + k + sp() + "=" + sp() + v + sp(); }

PART( round_trip, 8000, 250000 )
{
	static Scratch sc;
	Shadow s = make( r ); flut::prop_node pn = to_flut( s ); const string w = show( s );
	flut::save_ini( pn, flut::path( sc / "t.ini" ) );
	VP_CHECK( "save-keeps-tree", from_flut( pn ) == s, w );
	string text; VP_CHECK( "written", get_file( sc / "t.ini", text ), w );
	string d = differs( from_flut( flut::load_ini( flut::path( sc / "t.ini" ) ) ), s );
	event( "save+load" ); event( "nodes", s.nodes() );
	VP_CHECK( "equal", d.empty(), d + "; " + w + " saved as " + vp::show( text, 600 ) );
	if ( s.nodes() > 2 ) note( text );
	if ( want_sample() ) sample( vp::show( text ) );

	// insert blank lines and comments into the saved file
	for ( int k = 0; k < 2; ++k )
	{
		string t; size_t at = 0; const string eol = r.pick( { "\n", "\r\n" } );
		auto noise = [&] { while ( r.chance( 1, 3 ) ) { switch ( r.below( 4 ) ) { case 0: t += eol; break; case 1: t += r.text( " \t", r.below( 4 ) ) + eol; break; default: t += r.text( " \t", r.below( 3 ) ) + "#" + r.text( "abc=[]# ;", r.below( 10 ) ) + eol; } } };
		while ( at < text.size() ) { noise(); size_t e = text.find( '\n', at ); t += text.substr( at, e - at ) + eol; at = e + 1; }
		noise();
		if ( r.chance( 1, 4 ) ) while ( !t.empty() && strchr( "\r\n", t.back() ) ) t.pop_back();
		put_file( sc / "n.ini", t );
		string d2 = differs( from_flut( flut::load_ini( flut::path( sc / "n.ini" ) ) ), s );
		event( "with comments" );
		VP_CHECK( "comments", d2.empty(), d2 + "; file " + vp::show( t, 800 ) );
	}
}
PART( hand_written, 8000, 250000 )
{
	static Scratch sc;
	Shadow s = make( r ); string t; const string eol = r.pick( { "\n", "\r\n" } );
	std::vector< size_t > starts;
	auto noise = [&] { while ( r.chance( 1, 5 ) ) t += ( r.chance( 1, 2 ) ? "# note = 1" : "" ) + eol; };
	for ( auto& e : s.kids )
	{
		noise(); starts.push_back( t.size() );
		if ( e.second.kids.empty() ) t += ini_line( r, e.first, e.second.value, false ) + eol;
		else
		{
			t += r.text( " \t", r.below( 3 ) ) + "[" + e.first + "]" + r.text( " \t", r.below( 3 ) ) + eol;
			for ( auto& f : e.second.kids ) { noise(); starts.push_back( t.size() ); t += ini_line( r, f.first, f.second.value, false ) + eol; }
		}
	}
	noise();
	put_file( sc / "h.ini", t );
	string d = differs( from_flut( flut::load_ini( flut::path( sc / "h.ini" ) ) ), s );
	event( "hand-written" );
	VP_CHECK( "tree", d.empty(), d + "; file " + vp::show( t, 900 ) );
	if ( s.nodes() > 2 ) note( t );
	// a line that is neither comment, group nor assignment
	starts.push_back( t.size() );
	string bad = t; bad.insert( starts[ r.below( starts.size() ) ], string( r.pick( { "nothing", "two words", "[open", "]", "[]", "; x", "a:b" } ) ) + eol );
	put_file( sc / "bad.ini", bad );
	event( "malformed" );
	VP_CHECK( "malformed", throws( [&] { flut::load_ini( flut::path( sc / "bad.ini" ) ); } ), "file " + vp::show( bad, 900 ) );
	if ( idx % 200 == 0 ) VP_CHECK( "missing", throws( [&] { flut::load_ini( flut::path( sc / "missing.ini" ) ); } ), "loading a missing file" );
}

// many groups and entries, long lines
PART( large, 60, 1200 )
{
	static Scratch sc; Shadow s; const size_t style = r.below( 4 );
	size_t top = style == 0 ? r.len( 3000 ) : r.below( 5 ), groups = style == 1 ? r.len( 3000 ) : 1 + r.below( 4 ), entries = style == 2 ? r.len( 6000 ) : 1 + r.below( 4 ), length = style == 3 ? r.len( 140000 ) : r.below( 20 );
	auto val = [&] { string v = line_text( r, length ); return v.empty() ? string( "v" ) : v; };
	for ( size_t i = 0; i < top; ++i ) s.add( "t" + std::to_string( i ), val() );
	for ( size_t g = 0; g < groups; ++g ) { Shadow& x = s.add( "g" + std::to_string( g ) ); for ( size_t i = 0; i < entries; ++i ) x.add( "k" + std::to_string( i ), val() ); x.add( "k" + r.text( "abcXYZ", length ), "1" ); }
	const string w = num( top ) + " top entries, " + num( groups ) + " groups of " + num( entries ) + ", length " + num( length );
	flut::save_ini( to_flut( s ), flut::path( sc / "l.ini" ) );
	string d = differs( from_flut( flut::load_ini( flut::path( sc / "l.ini" ) ) ), s ); event( "save+load" ); event( "nodes", s.nodes() );
	VP_CHECK( "large", d.empty(), d.substr( 0, 900 ) + "; " + w );
	string text; get_file( sc / "l.ini", text ); note( text );
	string t; for ( size_t n = r.len( 5000 ); n; --n ) t += r.chance( 1, 3 ) ? "# comment\n" : "\n"; t += "#" + r.text( "abc=[]# ;", r.len( 100000 ) ) + "\n";
	put_file( sc / "l.ini", t + text );
	VP_CHECK( "large-comments", from_flut( flut::load_ini( flut::path( sc / "l.ini" ) ) ) == s, num( t.size() ) + " bytes of comments before " + w );
	put_file( sc / "l.ini", text + "nothing\n" ); event( "malformed" );
	VP_CHECK( "large-malformed", throws( [&] { flut::load_ini( flut::path( sc / "l.ini" ) ); } ), "malformed line after " + w );
}
