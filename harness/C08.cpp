// C08 Property text has one meaning regardless of layout; malformed text is an error
// vp-rule: random trees written in random layouts (comments, blank lines, indentation, line endings, separators, quoting), malformed variants, random and mutated bytes; non-trivial: layout contains a comment, quote or unusual separator; counted by text
#include "flut/prop_node_tools.hpp"
#include "flut/string_tools.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;

static string word( Rng& r ) { return string( 1, "abcXYZ"[ r.below( 6 ) ] ) + r.text( "abcXYZ019_.-:/", r.below( 6 ) ); }
static string value( Rng& r )
{
	switch ( r.below( 8 ) )
	{
	case 0: return "";
	case 1: return word( r ) + " " + word( r );
	case 2: return r.pick( { "1", "-2.5", "1e-5", "0", "..", "1..2", "[1 2 3]", "*", "a,b", "#x", "/usr", "\xc3\xa9" } );
	case 3: return r.pick( { "a=b", "{", "}", "{}", "%", "50% off", "a;b", "it's", "say \"x\"", "back\\slash", "tab\tin", "line\nbreak" } );
	default: return word( r );
	}
}
static void grow( Rng& r, Shadow& s, int depth, size_t& budget )
{
	for ( size_t n = r.below( 5 ); n && budget; --n )
	{
		--budget;
		Shadow& c = s.add( r.chance( 1, 8 ) ? word( r ) + " " + word( r ) : word( r ) );
		if ( !r.chance( 1, 4 ) ) c.value = value( r );
		if ( depth > 0 && r.chance( 1, 2 ) ) grow( r, c, depth - 1, budget );
	}
}

struct Writer
{
	Rng& r; string out, eol; int fancy;
	std::vector< size_t > opens; // positions right after an opening brace
	std::vector< std::pair< size_t, size_t > > blocks; // from the opening brace to the closing brace
	std::vector< size_t > root_slots; // positions where an entry may start outside all blocks
	std::vector< size_t > slots; // positions where an entry may start inside a block, after a complete entry or '{'
	Writer( Rng& rng ) : r( rng ), eol( rng.pick( { "\n", "\n", "\r\n", "\r" } ) ), fancy( (int)rng.below( 3 ) ) {}
	string spaces() { return r.chance( 1, 2 ) ? "" : r.text( r.chance( 1, 12 ) ? " \t\f\v" : " \t", 1 + r.below( 3 ) ); }
	string comment() { return "%" + r.text( "abc =;{}\"'%\\ #", r.below( 12 ) ) + eol; }
	/// blank space where only layout is allowed
	string gap() { string s = spaces(); if ( fancy ) while ( r.chance( 1, 6 ) ) { s += r.chance( 1, 3 ) ? comment() : eol; s += spaces(); } return s; }
	/// end of an entry
	string sep()
	{
		string s = spaces();
		s += fancy && r.chance( 1, 3 ) ? string( r.pick( { ";", ";;", " ; " } ) ) : fancy && r.chance( 1, 6 ) ? comment() : eol;
		if ( fancy ) while ( r.chance( 1, 4 ) ) { s += r.chance( 1, 2 ) ? comment() : r.chance( 1, 2 ) ? eol : string( ";" ); s += spaces(); }
		return s;
	}
	string text( const string& t )
	{
		bool special = t.empty() || t.find_first_of( "={}%;'\"\\\t\n\r\f\v" ) != string::npos;
		if ( special || r.chance( 1, 4 ) )
		{
			if ( t.find( '\'' ) == string::npos && r.chance( 1, 3 ) ) { string q = flut::quoted( t ); return "'" + q.substr( 1, q.size() - 2 ) + "'"; }
			return flut::quoted( t );
		}
		return t;
	}
	void entry( const string& k, const Shadow& s, bool in_block )
	{
		if ( !in_block ) root_slots.push_back( out.size() );
		out += spaces() + text( k );
		bool val = !s.value.empty() || s.kids.empty();
		bool block = !s.kids.empty();
		if ( val && s.value.empty() && r.chance( 1, 4 ) ) { val = false; block = true; } // an empty block is an empty node
		if ( val ) out += gap() + "=" + gap() + text( s.value );
		if ( block )
		{
			out += gap() + "{"; const size_t open = out.size() - 1; out += r.chance( 1, 2 ) ? sep() : gap(); opens.push_back( out.size() );
			for ( auto& e : s.kids ) { slots.push_back( out.size() ); entry( e.first, e.second, true ); }
			slots.push_back( out.size() );
			out += spaces() + "}"; blocks.emplace_back( open, out.size() - 1 );
			out += r.chance( 1, 4 ) ? gap() + " " : sep();
		}
		else out += sep();
	}
};

PART( layouts, 15000, 400000 )
{
	Shadow s; size_t budget = 25; grow( r, s, (int)r.below( 5 ), budget );
	for ( int k = 0; k < 4; ++k )
	{
		Writer wr( r );
		wr.out += wr.fancy ? wr.gap() : "";
		for ( auto& e : s.kids ) wr.entry( e.first, e.second, false );
		if ( wr.fancy && r.chance( 1, 4 ) ) wr.out += "% the end";
		if ( r.chance( 1, 4 ) ) while ( !wr.out.empty() && strchr( "\r\n", wr.out.back() ) ) wr.out.pop_back(); // no final newline
		HeapText h( wr.out );
		const string w = vp::show( wr.out, 900 );
		flut::error_code ec;
		flut::prop_node pn = flut::parse_prop( h.p );
		string d = differs( from_flut( pn ), s );
		event( "parsed nodes", s.nodes() );
		VP_CHECK( "tree", d.empty(), d + "; text " + w );
		flut::prop_node pn2 = flut::parse_prop( h.p, &ec );
		VP_CHECK( "no-error", ec.ok() && pn2 == pn, "error reported for " + w );
		VP_CHECK( "literal", flut::prop_node( (const char*)h.p ) == pn, w );
		if ( wr.out.find_first_of( "%;\"'\r" ) != string::npos ) note( wr.out );
		if ( want_sample() ) sample( w );

		// the same text with a token inside a block that is neither a label nor a closing brace
		if ( !wr.slots.empty() )
		{
			string bad = wr.out; size_t at = wr.slots[ r.below( wr.slots.size() ) ];
			if ( at <= bad.size() )
			{
				if ( !wr.opens.empty() && r.chance( 1, 8 ) ) bad.insert( std::min( bad.size(), wr.opens[ r.below( wr.opens.size() ) ] ), r.pick( { "{", "{ b = 1 }", "{}" } ) );
				else bad.insert( at, wr.eol + r.pick( { "5", "_x", "-1", "=", "= 1", "?", "\"\"", "'1'", ".5", "*", "9a = 1", "[", "\xc3\xa9 = 1" } ) + wr.eol );
				HeapText hb( bad ); flut::error_code eb;
				const string wb = vp::show( bad, 900 );
				event( "malformed" );
				VP_CHECK( "malformed-exception", throws( [&] { flut::parse_prop( hb.p ); } ), wb );
				bool threw = throws( [&] { flut::parse_prop( hb.p, &eb ); } );
				VP_CHECK( "malformed-error-code", !threw && eb.error() && !eb.message().empty(), wb + ( threw ? " threw" : " reported no error" ) );
			}
		}
		// outside all blocks such a token is reported too, a closing brace included; so is a block that is never closed, or text that ends inside one
		for ( int kind = 0; kind < 3; ++kind )
		{
			string bad = wr.out;
			if ( kind == 0 ) { if ( wr.root_slots.empty() ) continue; size_t at = wr.root_slots[ r.below( wr.root_slots.size() ) ]; if ( r.chance( 1, 3 ) ) { at = bad.size(); if ( at && !strchr( "\r\n", bad[ at - 1 ] ) ) bad += wr.eol, at = bad.size(); } bad.insert( at, wr.eol + r.pick( { "5", "_x", "-1", "= 1", "?", "'1'", ".5", "*", "9a = 1", "}", "{", "\xc3\xa9 = 1" } ) + wr.eol ); }
			else
			{
				if ( wr.blocks.empty() ) continue; auto b = wr.blocks[ r.below( wr.blocks.size() ) ]; if ( b.second >= bad.size() ) continue;
				if ( kind == 1 ) bad.erase( b.second, 1 ); else bad.resize( b.first + 1 + r.below( b.second - b.first ) );
			}
			HeapText hb( bad ); flut::error_code eb; const string wb = vp::show( bad, 900 ); static const char* kinds[] = { "stray token", "missing brace", "ends inside a block" }; event( kinds[ kind ] );
			VP_CHECK( "incomplete-exception", throws( [&] { flut::parse_prop( hb.p ); } ), string( kinds[ kind ] ) + ": " + wb ); bool threw = throws( [&] { flut::parse_prop( hb.p, &eb ); } ); VP_CHECK( "incomplete-error-code", !threw && eb.error() && !eb.message().empty(), string( kinds[ kind ] ) + ": " + wb + ( threw ? " threw" : " reported no error" ) );
		}
	}
	evals( 3 );
}

PART( files, 300, 5000 )
{
	static Scratch sc;
	Shadow s; size_t budget = 15; grow( r, s, 3, budget );
	Writer wr( r ); for ( auto& e : s.kids ) wr.entry( e.first, e.second, false );
	put_file( sc / "t.prop", wr.out );
	flut::error_code ec;
	flut::prop_node pn = flut::load_prop( flut::path( sc / "t.prop" ), &ec );
	string d = differs( from_flut( pn ), s );
	VP_CHECK( "file", ec.ok() && d.empty(), d + "; file " + vp::show( wr.out, 900 ) );
	VP_CHECK( "missing-exception", throws( [&] { flut::load_prop( flut::path( sc / "missing.prop" ) ); } ), "loading a missing file" );
	flut::error_code em;
	VP_CHECK( "missing-error-code", !throws( [&] { flut::load_prop( flut::path( sc / "missing.prop" ), &em ); } ) && em.error() && !em.message().empty(), "loading a missing file with an error code" );
	put_file( sc / "bad.prop", "a { b = 1\n 5 }" );
	flut::error_code eb;
	VP_CHECK( "bad-file-error-code", !throws( [&] { flut::load_prop( flut::path( sc / "bad.prop" ), &eb ); } ) && eb.error() && !eb.message().empty(), "loading a malformed file with an error code" );
	VP_CHECK( "bad-file-exception", throws( [&] { flut::load_prop( flut::path( sc / "bad.prop" ) ); } ), "loading a malformed file" );
	event( "files" );
	note( wr.out );
}

// arbitrary and mutated bytes: returns or reports, never crashes, hangs or reads outside
PART( hostile, 40000, 1200000 )
{
	string t;
	switch ( r.below( 4 ) )
	{
	case 0: t = r.bytes( r.below( 60 ) ); break;
	case 1: t = r.text( "ab={}%;\"'\\\n ", r.below( 60 ) ); break;
	case 2: { size_t n = 1 + r.below( r.chance( 1, 50 ) ? 800 : 20 ); for ( size_t i = 0; i < n; ++i ) t += r.pick( { "a{", "a={", "a=b{", "b=1;", "\"q\"{" } ); t += r.text( "}", r.below( n + 2 ) ); break; }
	default:
		{
			Shadow s; size_t budget = 12; grow( r, s, 3, budget ); Writer wr( r ); for ( auto& e : s.kids ) wr.entry( e.first, e.second, false );
			t = wr.out;
			for ( size_t k = 1 + r.below( 4 ); k && !t.empty(); --k )
				switch ( r.below( 3 ) )
				{
				case 0: t.erase( r.below( t.size() ), 1 + r.below( 4 ) ); break;
				case 1: t[ r.below( t.size() ) ] = char( 1 + r.below( 255 ) ); break;
				default: t.insert( r.below( t.size() + 1 ), r.pick( { "{", "}", "=", "\"", "'", "%", "\\", ";" } ) );
				}
		}
	}
	HeapText h( t ); flut::error_code ec; bool threw = false;
	flut::prop_node a, b;
	VP_CHECK( "error-code-no-throw", !throws( [&] { a = flut::parse_prop( h.p, &ec ); } ), vp::show( t ) );
	try { b = flut::parse_prop( h.p ); } catch ( std::exception& ) { threw = true; }
	event( threw ? "rejected" : "accepted" );
	VP_CHECK( "same-verdict", threw == ec.error(), vp::show( t ) + " exception " + num( threw ) + " error code " + num( ec.error() ) );
	VP_CHECK( "message", ec.ok() || !ec.message().empty(), vp::show( t ) + " is reported without a message" );
	if ( !threw ) VP_CHECK( "same-tree", a == b, vp::show( t ) );
	note( t );
}

// many entries, deep nesting, long names, values and comments
PART( large, 60, 1500 )
{
	Shadow s; const size_t style = r.below( 4 );
	size_t width = style == 0 ? r.len( 4000 ) : r.below( 20 ), depth = style == 1 ? r.len( 400 ) : r.below( 6 ), length = style == 2 ? r.len( 70000 ) : r.len( 600 );
	Shadow* p = &s;
	for ( size_t i = 0; i < depth; ++i ) { if ( r.chance( 1, 2 ) ) p->add( word( r ), value( r ) ); p = &p->add( "d" + std::to_string( i ), r.chance( 1, 3 ) ? word( r ) : "" ); }
	for ( size_t i = 0; i < width; ++i ) { Shadow& c = p->add( r.chance( 1, 3 ) ? "same" : "k" + std::to_string( i ), value( r ) ); if ( r.chance( 1, 10 ) ) c.add( word( r ), value( r ) ); }
	p->add( "k" + r.text( "abcXYZ019_.", length ), r.text( "abcXYZ019_.", length ) );
	p->add( "quoted", "q " + r.text( "abc \"\\={}%;", length ) + "." );
	s.add( "last", "end" );
	for ( int k = 0; k < 2; ++k )
	{
		Writer wr( r ); wr.fancy = k;
		if ( k ) { if ( style == 3 ) wr.out += "%" + r.text( "abc =;{}\"'%\\ #", r.len( 70000 ) ) + wr.eol; for ( size_t n = style == 3 ? r.len( 20000 ) : 0; n; --n ) wr.out += r.chance( 1, 9 ) ? "% c" + wr.eol : wr.eol; }
		for ( auto& e : s.kids ) wr.entry( e.first, e.second, false );
		HeapText h( wr.out );
		const string w = num( wr.out.size() ) + " bytes, width " + num( width ) + " depth " + num( depth ) + " length " + num( length );
		flut::prop_node pn; flut::error_code ec;
		pn = flut::parse_prop( h.p );
		string d = differs( from_flut( pn ), s );
		VP_CHECK( "large-tree", d.empty(), d.substr( 0, 900 ) + "; " + w );
		VP_CHECK( "large-no-error", flut::parse_prop( h.p, &ec ) == pn && ec.ok(), w );
		event( "large texts" ); event( "parsed nodes", s.nodes() ); note( wr.out );
		if ( !wr.slots.empty() )
		{
			string bad = wr.out; size_t at = wr.slots[ r.chance( 1, 2 ) ? wr.slots.size() - 1 : r.below( wr.slots.size() ) ];
			if ( at <= bad.size() )
			{
				bad.insert( at, wr.eol + r.pick( { "5", "= 1", "?", ".5", "9a = 1" } ) + wr.eol ); HeapText hb( bad ); flut::error_code eb; event( "malformed" );
				VP_CHECK( "large-malformed", throws( [&] { flut::parse_prop( hb.p ); } ), "unexpected token at " + num( at ) + " of " + w );
				VP_CHECK( "large-malformed-error-code", !throws( [&] { flut::parse_prop( hb.p, &eb ); } ) && eb.error(), "unexpected token at " + num( at ) + " of " + w );
			}
		}
	}
}
