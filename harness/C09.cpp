// C09 XML property files round-trip and bad XML is reported, not crashed on
// vp-rule: random single-root trees with XML-name keys and text over all bytes (markup characters over-represented), hand-written files with attributes, truncated/mutated/random files; non-trivial: at least 2 elements or rejected input; counted by contents
#include "flut/prop_node_tools.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;

static string key( Rng& r ) { return string( 1, "abXY_"[ r.below( 5 ) ] ) + r.text( "abcXYZ019_.-", r.chance( 1, 60 ) ? r.len( 2000 ) : r.below( 6 ) ); }
static bool blank( const string& s ) { return s.find_first_not_of( " \t\r\n" ) == string::npos; }
static string content( Rng& r )
{
	size_t n = r.chance( 1, 60 ) ? r.len( 6000 ) : 1 + r.below( 10 );
	string s;
	switch ( r.below( 5 ) )
	{
	case 0: s = r.bytes( n ); break;
	case 1: s = r.text( "<>&\"'; ab#x;/!-[]?=", n ); break;
	case 2: s = r.pick( { "&amp;", "&lt;", "&#65;", "<a/>", "<!-- c -->", "]]>", "<![CDATA[x]]>", "a & b", " lead", "trail ", "a\nb", "\xc3\xa9", "'q'", "\"q\"", "&", "<", ">", "&&", "&#x41;", "&unknown;" } ); break;
	default: s = r.text( "abcdef 0123456789.-", n );
	}
	return blank( s ) ? "x" + s : s;
}
static void grow( Rng& r, Shadow& s, int depth, size_t& budget )
{
	for ( size_t n = r.chance( 1, 60 ) ? r.below( 300 ) : 1 + r.below( 4 ); n && budget; --n )
	{
		--budget;
		Shadow& c = s.add( r.chance( 1, 5 ) && !s.kids.empty() ? s.kids[ 0 ].first : key( r ) );
		if ( depth > 0 && r.chance( 1, 2 ) ) grow( r, c, depth - 1, budget );
		else if ( !r.chance( 1, 5 ) ) c.value = content( r );
	}
}

PART( trees, 6000, 200000 )
{
	static Scratch sc;
	Shadow s; Shadow& root = s.add( key( r ) );
	size_t budget = r.chance( 1, 40 ) ? 600 : 30;
	if ( r.chance( 1, 12 ) ) root.value = r.chance( 1, 2 ) ? content( r ) : ""; else grow( r, root, (int)r.below( 5 ), budget );
	if ( r.chance( 1, 40 ) ) { Shadow* p = &root; p->value = ""; for ( size_t d = 1 + r.below( 300 ); d; --d ) p = &p->add( key( r ) ); p->value = "deep"; }
	string file = sc / "t.xml"; const string w = show( s );
	flut::prop_node pn = to_flut( s );
	flut::save_xml( pn, flut::path( file ) );
	VP_CHECK( "save-keeps-tree", from_flut( pn ) == s, w );
	string text; VP_CHECK( "file-written", get_file( file, text ), w );
	flut::error_code ec;
	flut::prop_node back = flut::load_xml( flut::path( file ), &ec );
	VP_CHECK( "no-error", ec.ok(), ec.message() + " for " + vp::show( text, 600 ) );
	string d = differs( from_flut( back ), s );
	event( "save+load" ); event( "nodes", s.nodes() );
	VP_CHECK( "equal", d.empty(), d + "; " + w + " saved as " + vp::show( text, 600 ) );
	VP_CHECK( "auto-detect", flut::load_file( flut::path( file ) ) == pn, w );
	VP_CHECK( "plain-load", flut::load_xml( flut::path( file ) ) == pn, w );
	if ( s.nodes() > 2 ) note( w );
	if ( want_sample() ) sample( w );
}
PART( bytes, 255, 255 )
{
	static Scratch sc;
	char c = char( idx + 1 ); Shadow s; Shadow& root = s.add( "root" );
	root.add( "a", string( "x" ) + c + "y" ); root.add( "b", string( "x" ) + c ); root.add( "c", string( 1, c ) + "x" );
	if ( !blank( string( 1, c ) ) ) { root.add( "d", string( 1, c ) ); root.add( "e", string( 3, c ) ); }
	for ( char d : string( "<>&;\"'#" ) ) root.add( "f", string( 1, d ) + c + d );
	flut::save_xml( to_flut( s ), flut::path( sc / "b.xml" ) );
	string d = differs( from_flut( flut::load_xml( flut::path( sc / "b.xml" ) ) ), s );
	VP_CHECK( "byte", d.empty(), "byte " + num( (int)idx + 1 ) + ": " + d );
	event( "save+load" ); note( idx );
}

static string escape( const string& s, Rng& r )
{
	string o;
	for ( char c : s ) switch ( c )
	{
	case '<': o += "&lt;"; break;
	case '>': o += r.chance( 1, 2 ) ? "&gt;" : ">"; break;
	case '&': o += "&amp;"; break;
	case '"': o += "&quot;"; break;
	case '\'': o += "&apos;"; break;
	default: if ( c >= 'a' && c <= 'z' && r.chance( 1, 20 ) ) { o += "&#" + std::to_string( (int)c ) + ";"; } else o += c;
	}
	return o;
}
// a tree whose leading children may be written as attributes
static string hand_written( const string& k, const Shadow& s, Rng& r, int depth )
{
	string o = "<" + k; size_t i = 0;
	if ( s.value.empty() )
		while ( i < s.kids.size() && s.kids[ i ].second.kids.empty() && r.chance( 1, 2 ) )
		{
			const char* q = r.chance( 1, 2 ) ? "\"" : "'";
			o += r.pick( { " ", "\n  ", "\t" } ) + s.kids[ i ].first + r.pick( { "=", " = " } ) + q + escape( s.kids[ i ].second.value, r ) + q; ++i;
		}
	if ( r.chance( 1, 4 ) ) o += " ";
	if ( s.value.empty() && i == s.kids.size() && r.chance( 1, 2 ) ) return o + "/>";
	o += ">";
	o += escape( s.value, r );
	string nl = s.value.empty() ? "\n" + string( depth, ' ' ) : "";
	for ( ; i < s.kids.size(); ++i )
	{
		o += nl; if ( r.chance( 1, 8 ) ) o += "<!-- comment <x> -->";
		o += hand_written( s.kids[ i ].first, s.kids[ i ].second, r, depth + 1 );
	}
	return o + nl + "</" + k + ">";
}
static void attr_grow( Rng& r, Shadow& s, int depth )
{
	for ( size_t n = r.below( 5 ); n; --n ) { Shadow& c = s.add( key( r ) ); if ( depth > 0 && r.chance( 1, 3 ) ) attr_grow( r, c, depth - 1 ); else if ( r.chance( 3, 4 ) ) c.value = content( r ); }
}
PART( hand_written, 6000, 150000 )
{
	static Scratch sc;
	Shadow s; Shadow& root = s.add( key( r ) ); attr_grow( r, root, 3 );
	string text = ( r.chance( 1, 3 ) ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" : "" ) + hand_written( s.kids[ 0 ].first, root, r, 0 ) + ( r.chance( 1, 2 ) ? "\n" : "" );
	put_file( sc / "h.xml", text );
	flut::prop_node pn = flut::load_xml( flut::path( sc / "h.xml" ) );
	string d = differs( from_flut( pn ), s );
	event( "hand-written" );
	VP_CHECK( "tree", d.empty(), d + "; file " + vp::show( text, 900 ) );
	if ( s.nodes() > 2 ) note( text );
	if ( want_sample() ) sample( vp::show( text ) );
}

PART( hostile, 20000, 600000 )
{
	static Scratch sc;
	string t;
	switch ( r.below( 4 ) )
	{
	case 0: t = r.bytes( r.below( 80 ) ); if ( r.chance( 1, 3 ) ) t += string( 1, '\0' ) + r.bytes( r.below( 5 ) ); break;
	case 1: t = r.text( "<>/a=\"'&;#![]-? x", r.below( 60 ) ); break;
	case 2: for ( size_t n = r.below( 20 ); n; --n ) t += r.pick( { "<a>", "</a>", "<a/>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "&#", "&#x110000;", "&#xFFFFFFFF;", "&amp", "<!DOCTYPE a [", "a=\"", "'", "<", ">", "text", "\xef\xbb\xbf" } ); break;
	default:
		{
			Shadow s; Shadow& root = s.add( key( r ) ); attr_grow( r, root, 2 ); t = hand_written( s.kids[ 0 ].first, root, r, 0 );
			if ( r.chance( 1, 2 ) ) t.resize( r.below( t.size() + 1 ) ); // truncated
			else for ( size_t k = 1 + r.below( 4 ); k && !t.empty(); --k ) t[ r.below( t.size() ) ] = char( r.below( 256 ) );
		}
	}
	put_file( sc / "x.xml", t );
	flut::error_code ec; bool threw = false; flut::prop_node a, b;
	VP_CHECK( "error-code-no-throw", !throws( [&] { a = flut::load_xml( flut::path( sc / "x.xml" ), &ec ); } ), vp::show( t ) );
	try { b = flut::load_xml( flut::path( sc / "x.xml" ) ); } catch ( std::exception& ) { threw = true; }
	event( threw ? "rejected" : "accepted" );
	VP_CHECK( "same-verdict", threw == ec.error(), vp::show( t ) + " exception " + num( threw ) + " error code " + num( ec.error() ) );
	if ( !threw ) VP_CHECK( "same-tree", a == b, vp::show( t ) );
	note( t );
	if ( idx % 500 == 0 )
	{
		flut::error_code em;
		VP_CHECK( "missing-exception", throws( [&] { flut::load_xml( flut::path( sc / "missing.xml" ) ); } ), "loading a missing file" );
		VP_CHECK( "missing-error-code", !throws( [&] { flut::load_xml( flut::path( sc / "missing.xml" ), &em ); } ) && em.error() && !em.message().empty(), "loading a missing file with an error code" );
		for ( const char* bad : { "<a>", "<a", "<a b=1/>", "text", "<a><b></a>", "</a>" } )
		{
			put_file( sc / "bad.xml", bad ); flut::error_code eb;
			VP_CHECK( "bad-exception", throws( [&] { flut::load_xml( flut::path( sc / "bad.xml" ) ); } ), bad );
			VP_CHECK( "bad-error-code", !throws( [&] { flut::load_xml( flut::path( sc / "bad.xml" ), &eb ); } ) && eb.error() && !eb.message().empty(), bad );
			// the exception carries the same message as the error code
			string what; try { flut::load_xml( flut::path( sc / "bad.xml" ) ); } catch ( std::exception& e ) { what = e.what(); } VP_CHECK( "bad-message", !what.empty() && ( what.find( eb.message() ) != string::npos || eb.message().find( what ) != string::npos ), string( bad ) + " throws " + vp::show( what ) + ", reports " + vp::show( eb.message() ) ); event( "error messages" );
		}
	}
}

// wide and deep trees, long names and texts
PART( large, 60, 1200 )
{
	static Scratch sc; Shadow s; Shadow& root = s.add( "root" ); Shadow* p = &root; const size_t style = r.below( 4 );
	size_t width = style == 0 ? r.len( 12000 ) : r.below( 20 ), depth = style == 1 ? r.len( 700 ) : r.below( 6 ), length = style >= 2 ? r.len( 140000 ) : r.len( 600 );
	for ( size_t i = 0; i < depth; ++i ) { if ( r.chance( 1, 2 ) ) p->add( key( r ), content( r ) ); p = &p->add( "d" + std::to_string( i ) ); }
	for ( size_t i = 0; i < width; ++i ) p->add( r.chance( 1, 3 ) ? "same" : "k" + std::to_string( i ), r.chance( 1, 4 ) ? "" : content( r ) );
	p->add( "text", "x" + ( style == 2 ? r.bytes( length ) : r.text( "<>&\"'; ab#x", length ) ) + "x" );
	p->add( style == 3 ? "k" + r.text( "abcXYZ019_.-", length ) : "k", "end" );
	const string w = "width " + num( width ) + " depth " + num( depth ) + " length " + num( length );
	flut::prop_node pn = to_flut( s ); flut::save_xml( pn, flut::path( sc / "l.xml" ) );
	flut::error_code ec; flut::prop_node back = flut::load_xml( flut::path( sc / "l.xml" ), &ec );
	string d = differs( from_flut( back ), s ); event( "save+load" ); event( "nodes", s.nodes() );
	VP_CHECK( "large", ec.ok() && d.empty(), d.substr( 0, 900 ) + "; " + w );
	VP_CHECK( "large-auto-detect", flut::load_file( flut::path( sc / "l.xml" ) ) == pn, w );
	string text; get_file( sc / "l.xml", text ); note( text );
	// cut off
	text.resize( text.size() - 1 - r.below( std::min< size_t >( text.size() - 1, 400 ) ) );
	while ( !text.empty() && strchr( " \t\r\n", text.back() ) ) text.pop_back();
	if ( text.size() < 7 || text.substr( text.size() - 7 ) != "</root>" )
	{
		put_file( sc / "l.xml", text ); flut::error_code eb; event( "cut off" );
		VP_CHECK( "large-cut", throws( [&] { flut::load_xml( flut::path( sc / "l.xml" ) ); } ), "cut at " + num( text.size() ) + " of " + w );
		VP_CHECK( "large-cut-error-code", !throws( [&] { flut::load_xml( flut::path( sc / "l.xml" ), &eb ); } ) && eb.error(), "cut at " + num( text.size() ) + " of " + w );
	}
}
