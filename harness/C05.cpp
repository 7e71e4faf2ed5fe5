// C05 Wildcard matching accepts exactly the names its pattern describes
// vp-rule: names over small alphabets with patterns derived from them (parts replaced by * and ?) or unrelated, exhaustive over short ones, lists and property trees; non-trivial: the pattern contains a wildcard; counted by (name, pattern)
#include "flut/string_tools.hpp"
#include "flut/pattern_matcher.hpp"
#include "flut/prop_node.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

static bool ref_match( const string& s, const string& p )
{
	std::vector< char > cur( s.size() + 1, 0 ), nxt( s.size() + 1 );
	cur[ 0 ] = 1;
	for ( char c : p )
	{
		std::fill( nxt.begin(), nxt.end(), 0 );
		if ( c == '*' ) { char any = 0; for ( size_t i = 0; i <= s.size(); ++i ) { any |= cur[ i ]; nxt[ i ] = any; } }
		else for ( size_t i = 0; i < s.size(); ++i ) if ( cur[ i ] && ( c == '?' || s[ i ] == c ) ) nxt[ i + 1 ] = 1;
		cur.swap( nxt );
	}
	return cur[ s.size() ];
}
static void compare( const string& s, const string& p )
{
	bool a = flut::pattern_match( s, p ), b = ref_match( s, p );
	event( b ? "match" : "no match" );
	VP_CHECK( "match", a == b, "name " + show( s ) + " pattern " + show( p ) + " gives " + num( a ) );
	if ( p.find_first_of( "*?" ) != string::npos ) note( s + "\n" + p );
}
static const char* alphabet = "ab.ab.c_/\\-0A #!^$+(){}|,%~";
static string name( Rng& r, size_t max = 12 ) { return r.text( r.chance( 1, 2 ) ? "ab" : alphabet, r.below( max + 1 ) ); }
static string derive( Rng& r, const string& s )
{
	string p;
	for ( size_t i = 0; i < s.size(); )
		switch ( r.below( 6 ) )
		{
		case 0: p += '?'; ++i; break;
		case 1: p += '*'; i += r.below( 4 ); break;
		case 2: if ( r.chance( 1, 6 ) ) p += r.pick( { "**", "*?", "?*", "a", "?" } ); p += s[ i++ ]; break;
		default: p += s[ i++ ];
		}
	if ( r.chance( 1, 6 ) ) p += r.pick( { "*", "?", "a", "*a", ".*" } );
	if ( r.chance( 1, 8 ) && p.size() ) p.erase( r.below( p.size() ), 1 );
	return p;
}

// all names over {a,b,.} up to length 4 x all patterns over {a,b,*,?} up to length 4 (341 patterns)
PART( exhaustive, 341, 341 )
{
	auto nth = []( uint64_t k, const char* abc, size_t base ) { string s; size_t len = 0; uint64_t n = 1; while ( k >= n ) { k -= n; n *= base; ++len; } for ( size_t i = 0; i < len; ++i ) { s += abc[ k % base ]; k /= base; } return s; };
	string p = nth( idx, "ab*?", 4 );
	for ( uint64_t k = 0; k < 121; ++k ) compare( nth( k, "ab.", 3 ), p );
	evals( 120 );
}

PART( generated, 60000, 1500000 )
{
	string s = r.chance( 1, 40 ) ? r.text( r.chance( 1, 2 ) ? "ab/." : "abcxyzABCXYZ_.", r.len( 400 ) ) : name( r );
	string p = r.chance( 1, 4 ) ? r.text( "ab*?.*", r.below( 10 ) ) : derive( r, s );
	compare( s, p );
	// one character changed in kind: upper or lower case, or with its highest bit set
	if ( !p.empty() && r.chance( 1, 3 ) )
	{
		string q = p; size_t at = r.below( q.size() ); const char c = q[ at ];
		if ( isalpha( (unsigned char)c ) ) { q[ at ] = char( c ^ 0x20 ); compare( s, q ); }
		if ( c != '*' && c != '?' ) { q[ at ] = char( c ^ 0x80 ); compare( s, q ); }
		if ( s.size() > 30 ) for ( size_t k = 0; k < 4; ++k ) { string t = s; size_t i = r.below( t.size() ); if ( isalpha( (unsigned char)t[ i ] ) ) { t[ i ] ^= 0x20; compare( t, s ); compare( t, "*" + s.substr( s.size() / 2 ) ); } }
	}
	if ( want_sample() ) sample( show( s ) + " " + show( p ) );
	if ( r.chance( 1, 10 ) ) { string n = r.text( "xyz \x80\xff\t", r.below( 6 ) ); compare( n, n ); compare( n, "*" ); compare( n, n + "*" ); compare( n, "*" + n ); if ( !n.empty() ) compare( n, n.substr( 1 ) ); }
}

// names that start with a period, contain slashes, and long star-heavy patterns
PART( corners, 2000, 40000 )
{
	string s = r.pick( { ".", "/", "./", "a/b", "/a", "a/", ".a.b", "a\\b", "\\", "\\*", "?" } ) + name( r, 5 );
	compare( s, derive( r, s ) );
	compare( s, "*" ); compare( s, "*" + s.substr( 1 ) ); compare( s, "?" + s.substr( 1 ) ); compare( s, s );
	string l( 40 + r.below( 200 ), 'a' ), p;
	for ( int i = 0; i < 4; ++i ) p += "*aa";
	compare( l, p ); compare( l, p + "b" ); compare( l + "b", p + "b" ); compare( l, p + "*" );
}

PART( lists, 15000, 300000 )
{
	const char* delim = r.pick( { ";", ",", " ", ";, " } );
	string list; std::vector< string > pats; size_t n = r.below( 5 );
	std::vector< string > names; for ( size_t i = 0; i < 1 + r.below( 6 ); ++i ) names.push_back( r.text( "abc._", r.below( 6 ) ) );
	for ( size_t i = 0; i < n; ++i )
	{
		if ( i || r.chance( 1, 8 ) ) for ( size_t k = r.chance( 1, 6 ) ? 2 : 1; k; --k ) list += delim[ r.below( strlen( delim ) ) ];
		string p = r.chance( 1, 2 ) ? derive( r, names[ r.below( names.size() ) ] ) : r.text( "abc*?", 1 + r.below( 3 ) );
		list += p; if ( !p.empty() ) pats.push_back( p );
	}
	if ( r.chance( 1, 8 ) ) list += delim[ 0 ];
	auto ref = [&]( const string& s ) { for ( auto& p : pats ) if ( ref_match( s, p ) ) return true; return false; };
	flut::pattern_matcher m1( list, delim ), m2( list.c_str(), delim );
	const string w = "patterns " + show( list ) + " delimiters " + show( delim );
	for ( auto& s : names )
	{
		bool x = ref( s );
		event( "list match" );
		VP_CHECK( "list", m1( s ) == x && m2( s ) == x, w + " name " + show( s ) );
		flut::pattern_matcher m3( m1 ); VP_CHECK( "list-copy", m3( s ) == x, w + " name " + show( s ) );
		const string* ptr = &s; VP_CHECK( "list-pointer", m1( ptr ) == x, w );
	}
	VP_CHECK( "none", !flut::pattern_matcher()( names[ 0 ] ), w );
	size_t first = 0; while ( first < names.size() && !ref( names[ first ] ) ) ++first;
	auto it = m1.find_match( names.begin(), names.end() );
	VP_CHECK( "find", size_t( it - names.begin() ) == first, w + " found " + num( size_t( it - names.begin() ) ) + " expected " + num( first ) );
	// default delimiter, also from a property
	string semi = list; for ( char& c : semi ) if ( strchr( delim, c ) ) c = ';';
	flut::prop_node pn; pn.set( "pattern", semi );
	flut::pattern_matcher m4( semi ), m5 = pn.get< flut::pattern_matcher >( "pattern" );
	for ( auto& s : names ) VP_CHECK( "semicolon", m4( s ) == ref( s ) && m5( s ) == ref( s ), "patterns " + show( semi ) + " name " + show( s ) );

	// selecting children
	flut::prop_node tree; for ( size_t i = 0; i < names.size(); ++i ) tree.push_back( names[ i ], string( std::to_string( i ) ) );
	string p = pats.empty() ? "*" : pats[ 0 ];
	std::vector< string > got, expect;
	const flut::prop_node& ct = tree;
	for ( auto& kvp : ct.select_pattern( p ) ) { got.push_back( kvp.first + "=" + kvp.second.get_value() ); if ( got.size() > names.size() ) break; }
	for ( size_t i = 0; i < names.size(); ++i ) if ( ref_match( names[ i ], p ) ) expect.push_back( names[ i ] + "=" + std::to_string( i ) );
	{
		// the same selection with explicit iterators, stepped before and after use
		std::vector< string > pre, post; auto view = ct.select_pattern( p );
		for ( auto it = view.begin(); it != view.end() && pre.size() <= names.size(); ++it ) pre.push_back( ( *it ).first + "=" + it->second.get_value() );
		for ( auto it = view.begin(); it != view.end() && post.size() <= names.size(); ) { auto was = it++; post.push_back( ( *was ).first + "=" + was->second.get_value() ); }
		VP_CHECK( "select-pattern-iterators", pre == got && post == got, "pattern " + show( p ) + " stepping gives " + num( pre.size() ) + " and " + num( post.size() ) + ", range loop " + num( got.size() ) );
	}
	event( "select_pattern" );
	VP_CHECK( "select-pattern", got == expect, "pattern " + show( p ) + " selected " + num( got.size() ) + " of " + num( names.size() ) + " expected " + num( expect.size() ) );
	got.clear(); expect.clear(); string key = names[ r.below( names.size() ) ];
	for ( auto& kvp : ct.select( key ) ) { got.push_back( kvp.second.get_value() ); if ( got.size() > names.size() ) break; }
	for ( size_t i = 0; i < names.size(); ++i ) if ( names[ i ] == key ) expect.push_back( std::to_string( i ) );
	VP_CHECK( "select", got == expect, "key " + show( key ) );
	if ( n > 1 ) note( list );
}

// long names, long lists of patterns and wide trees
PART( large, 150, 3000 )
{
	{
		string s = r.text( r.chance( 1, 2 ) ? "ab" : "abcdefghijklmnopqrstuvwxyz_.", r.len( 1500 ) ), p;
		// few wildcards, so that the comparison stays cheap for any matcher
		switch ( r.below( 5 ) )
		{
		case 0: p = s; break;
		case 1: p = s; for ( size_t k = r.below( 4 ); k && !p.empty(); --k ) p[ r.below( p.size() ) ] = '?'; break;
		case 2: { size_t a = r.below( s.size() + 1 ); p = s.substr( 0, a ) + "*" + s.substr( a + r.below( s.size() - a + 1 ) ); break; }
		case 3: p = "*" + s.substr( s.size() / 2 ); break;
		default: p = s.substr( 0, s.size() / 2 ) + "*"; break;
		}
		compare( s, p ); compare( s, p + "?" ); if ( !p.empty() ) { string q = p; q[ r.below( q.size() ) ] = 'Z'; compare( s, q ); compare( s, p.substr( 0, p.size() - 1 ) ); compare( s, p.substr( 1 ) ); }
	}
	size_t n = r.len( 600 ); string list; std::vector< string > pats; std::vector< string > names;
	for ( size_t i = 0; i < n; ++i ) { string p = "n" + std::to_string( i * 3 ); if ( r.chance( 1, 3 ) ) p += r.pick( { "_*", "?x", "*y" } ); pats.push_back( p ); if ( i ) list += ";"; list += p; }
	flut::pattern_matcher m( list, ";" );
	auto ref = [&]( const string& s ) { for ( auto& p : pats ) if ( ref_match( s, p ) ) return true; return false; };
	for ( size_t k = 0; k < 40; ++k )
	{
		// names of the last, the first and any pattern
		size_t i = k < 5 ? ( n + k > 4 ? n + k - 4 : 0 ) : r.below( n + 1 );
		string s = "n" + std::to_string( i * 3 + ( r.chance( 1, 3 ) ? 1 : 0 ) ); if ( r.chance( 1, 2 ) ) s += r.pick( { "_", "_q", "0x", "zzy", "x" } );
		VP_CHECK( "large-list", m( s ) == ref( s ), num( n ) + " patterns, name " + show( s ) ); event( "large list match" );
		names.push_back( s );
	}
	size_t wide = r.len( 3000 ); flut::prop_node tree; std::vector< string > all;
	for ( size_t i = 0; i < wide; ++i ) { all.push_back( r.pick( { "item", "item_a", "other", "item_b.x" } ) + ( r.chance( 1, 3 ) ? std::to_string( r.below( 50 ) ) : string() ) ); tree.push_back( all.back(), std::to_string( i ) ); }
	const flut::prop_node& ct = tree;
	for ( const char* p : { "item*", "*_a*", "item", "*", "other?", "none" } )
	{
		std::vector< size_t > got, expect;
		for ( auto& kvp : ct.select_pattern( p ) ) { got.push_back( std::stoul( kvp.second.get_value() ) ); if ( got.size() > wide ) break; }
		for ( size_t i = 0; i < wide; ++i ) if ( ref_match( all[ i ], p ) ) expect.push_back( i );
		VP_CHECK( "large-select-pattern", got == expect, "pattern " + show( p ) + " selected " + num( got.size() ) + " of " + num( wide ) + " expected " + num( expect.size() ) );
		got.clear(); expect.clear();
		for ( auto& kvp : ct.select( p ) ) { got.push_back( std::stoul( kvp.second.get_value() ) ); if ( got.size() > wide ) break; }
		for ( size_t i = 0; i < wide; ++i ) if ( all[ i ] == p ) expect.push_back( i );
		VP_CHECK( "large-select", got == expect, "key " + show( p ) + " selected " + num( got.size() ) + " of " + num( wide ) + " expected " + num( expect.size() ) );
	}
	note( list + num( wide ) );
}
