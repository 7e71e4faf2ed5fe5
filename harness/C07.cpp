// C07 Saving a property tree and loading it back gives an equal tree
// vp-rule: random trees (depth, width, duplicate keys, value and children together) over all bytes with characters special to the format over-represented, readable and compact; non-trivial: at least 2 entries; counted by contents and format
#include "flut/prop_node_tools.hpp"
#include <sys/resource.h>
#include "tree.hpp"
using namespace vp;
using std::string;

static bool blank( char c ) { return strchr( " \t\r\n\f\v", c ) != nullptr; }
static string trimmed( string s ) { while ( !s.empty() && blank( s.back() ) ) s.pop_back(); size_t i = 0; while ( i < s.size() && blank( s[ i ] ) ) ++i; return s.substr( i ); }
static string chars( Rng& r )
{
	size_t n = r.chance( 1, 60 ) ? r.len( 6000 ) : r.below( 10 );
	switch ( r.below( 6 ) )
	{
	case 0: return r.bytes( n );
	case 1: return r.text( "\"'\\={}%;# \n\t,.", n );
	case 2: return r.text( "ab=\"' {", n );
	case 3: return string( r.pick( { "=", "{", "}", "%", ";", "\"", "'", "\\", "\"\"", "''", "%x", "{}", "= 1", "a;b", "a%b", "a'b", "\"a", "a\"", "'a'", "a b", "a\nb", "\x01", "\x1f" "7", "\xff", "\\n", "\\", "a\\" } ) );
	default: return r.text( "abcdefgXYZ0123456789_.-+", n );
	}
}
static string key( Rng& r, const std::vector< string >& used )
{
	if ( !used.empty() && r.chance( 1, 6 ) ) return used[ r.below( used.size() ) ];
	return trimmed( string( 1, "aBcXyZ"[ r.below( 6 ) ] ) + chars( r ) );
}
static void grow( Rng& r, Shadow& s, int depth, size_t& budget )
{
	size_t n = r.chance( 1, 80 ) ? r.below( 200 ) : r.below( 5 );
	std::vector< string > used;
	while ( n-- && budget )
	{
		--budget;
		string k = key( r, used ); used.push_back( k );
		Shadow& c = s.add( k );
		if ( !r.chance( 1, 4 ) ) c.value = trimmed( chars( r ) );
		if ( depth > 0 && r.chance( 1, 2 ) ) grow( r, c, depth - 1, budget );
	}
}

static void round_trip( const Shadow& s, const Scratch& sc )
{
	for ( int readable = 0; readable < 2; ++readable )
	{
		flut::prop_node pn = to_flut( s );
		string file = sc / ( readable ? "r.prop" : "c.prop" );
		const string w = string( readable ? "readable " : "compact " ) + show( s );
		VP_CHECK( "saved", flut::save_prop( pn, flut::path( file ), readable != 0 ), w );
		VP_CHECK( "save-keeps-tree", from_flut( pn ) == s, w );
		string text; get_file( file, text );
		flut::prop_node back = flut::load_prop( flut::path( file ) );
		string d = differs( from_flut( back ), s );
		event( "save+load" );
		VP_CHECK( "equal", d.empty(), d + "; " + w + " saved as " + vp::show( text, 600 ) );
		VP_CHECK( "operator==", back == pn && !( back != pn ), w );
		flut::error_code ec;
		flut::prop_node back2 = flut::load_prop( flut::path( file ), &ec );
		VP_CHECK( "no-error", ec.ok() && back2 == pn, w );
		if ( readable ) VP_CHECK( "auto-detect", flut::load_file( flut::path( file ) ) == pn, w );
		if ( s.kids.size() > 1 || s.nodes() > 2 ) note( w );
		if ( want_sample() ) sample( w );
	}
}

PART( trees, 4000, 150000 )
{
	static Scratch sc;
	for ( int k = 0; k < 4; ++k )
	{
		Shadow s; size_t budget = r.chance( 1, 50 ) ? 400 : 40;
		grow( r, s, (int)r.below( 6 ), budget );
		event( "nodes", s.nodes() );
		round_trip( s, sc );
		evals( 2 );
	}
}
// one entry with every single byte / pair of special bytes inside key and value
PART( bytes, 255, 255 )
{
	static Scratch sc;
	Shadow s; char c = char( idx + 1 );
	if ( blank( c ) ) { s.add( string( "k" ) + c + "k", string( "v" ) + c + "v" ); }
	else
	{
		s.add( string( "k" ) + c, string( 1, c ) );
		s.add( string( "k" ) + c + "k", string( "v" ) + c );
		s.add( "plain", string( 1, c ) + "v" );
		for ( char d : string( "\"'\\={}%;07nr" ) ) { s.add( string( "k" ) + c + d, string( 1, c ) + d ); s.add( string( "k" ) + d + c, string( 1, d ) + c ); }
		s.add( "group", string( 1, c ) ).add( string( "k" ) + c, string( 1, c ) + c );
	}
	s.add( "after", "1" );
	round_trip( s, sc );
}
// deep chains and wide nodes, long texts
PART( extremes, 60, 600 )
{
	static Scratch sc;
	Shadow s; Shadow* p = &s;
	size_t depth = idx % 3 == 0 ? 50 + r.below( 300 ) : 1;
	for ( size_t i = 0; i < depth; ++i ) { p->add( "before", "1" ); p = &p->add( "d" + std::to_string( i ), r.chance( 1, 2 ) ? "v" : "" ); }
	size_t width = idx % 3 == 1 ? 1000 + r.below( 3000 ) : 3;
	for ( size_t i = 0; i < width; ++i ) p->add( r.chance( 1, 3 ) ? "same" : "k" + std::to_string( i ), std::to_string( r.range( -1000, 1000 ) ) );
	p->add( "long", trimmed( r.bytes( idx % 3 == 2 ? 60000 + r.below( 60000 ) : r.len( 9000 ) ) ) );
	p->add( "K" + trimmed( r.text( "abc =", 1 + r.len( 3000 ) ) ) + "e", "x" );
	s.add( "last", "end" );
	round_trip( s, sc );
	VP_CHECK( "unwritable", !flut::save_prop( to_flut( s ), flut::path( sc / "missing-folder/x.prop" ) ), "saving into a folder that does not exist reports success" );
}
// the file cannot be written completely (injected file size limit, unwritable places): reported, never taken for a saved tree
PART( faults, 500, 12000 )
{
	static Scratch sc; Shadow s; size_t budget = r.chance( 1, 6 ) ? 3000 : 40; grow( r, s, (int)r.below( 4 ), budget ); if ( r.chance( 1, 3 ) ) s.add( "long", r.text( "abc def", r.len( 30000 ) ) + "." ); s.add( "last", "end" );
	flut::prop_node pn = to_flut( s ); bool readable = r.chance( 1, 2 ); flut::path f( sc / "f.prop" ); VP_CHECK( "saved", flut::save_prop( pn, f, readable ), "the tree" ); string whole; get_file( f.str(), whole ); size_t n = whole.size(), limit = r.chance( 1, 5 ) ? n : r.chance( 1, 4 ) ? n - 1 : r.chance( 1, 8 ) ? n + 100 : r.below( n ); if ( r.chance( 1, 2 ) ) put_file( f.str(), "previous" ); else unlink( f.str().c_str() );
	signal( SIGXFSZ, SIG_IGN ); struct rlimit old, lim; getrlimit( RLIMIT_FSIZE, &old ); lim = old; lim.rlim_cur = limit; setrlimit( RLIMIT_FSIZE, &lim ); bool ok; try { ok = flut::save_prop( pn, f, readable ); } catch ( ... ) { setrlimit( RLIMIT_FSIZE, &old ); throw; } setrlimit( RLIMIT_FSIZE, &old );
	string w = num( n ) + " bytes with room for " + num( limit ), now; event( limit < n ? "writes cut short" : "writes with enough room" ); VP_CHECK( limit < n ? "write-fault-reported" : "no-false-failure", ok == ( limit >= n ), w + " returns " + num( ok ) ); if ( ok ) VP_CHECK( "complete", get_file( f.str(), now ) && now == whole, w ); VP_CHECK( "save-keeps-tree", from_flut( pn ) == s, w );
	string d = sc / "folder.prop"; mkdir( d.c_str(), 0755 ); VP_CHECK( "unwritable", !flut::save_prop( pn, flut::path( d ), readable ), "saving over a folder reports success" ); note( w );
}
