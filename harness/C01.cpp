// C01 Quoting text and reading it back returns exactly the same text
// vp-rule: texts over bytes 1..255 (exhaustive up to length 2, boundary-biased lengths beyond, malformed escapes); non-trivial: contains a quote, backslash, space, control byte or byte above 127; counted by content
#include "flut/string_tools.hpp"
#include "flut/char_stream.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

static bool special( const string& s ) { for ( unsigned char c : s ) if ( c <= 32 || c == '"' || c == '\\' || c > 126 ) return true; return false; }

static void round_trip( const string& s )
{
	if ( special( s ) ) note( s );
	const string w = show( s );
	string q = flut::quoted( s );
	event( "quoted" );
	VP_CHECK( "quotes-present", q.size() >= 2 && q.front() == '"' && q.back() == '"', w + " -> " + show( q ) );
	// independent scan: no raw control byte, no unescaped quote inside
	for ( size_t i = 1; i + 1 < q.size(); ++i )
	{
		VP_CHECK( "raw-control", (unsigned char)q[ i ] >= 32, w + " -> " + show( q ) );
		if ( q[ i ] == '\\' ) { ++i; VP_CHECK( "dangling-escape", i + 1 < q.size(), w + " -> " + show( q ) ); }
		else VP_CHECK( "unescaped-quote", q[ i ] != '"', w + " -> " + show( q ) );
	}
	string u = flut::try_unquoted( q );
	VP_CHECK( "unquote", u == s, w + " quoted " + show( q ) + " unquoted " + show( u ) );

	{
		HeapText h( q );
		flut::char_stream str( h.p );
		string t = str.get_token();
		VP_CHECK( "token", t == s, w + " quoted " + show( q ) + " token " + show( t ) );
		VP_CHECK( "token-eof", str.eof() && !str.fail(), w );
	}
	{
		// followed by another token
		HeapText h( q + " next" );
		flut::char_stream str( h.p );
		string t1 = str.get_token( "={}" ), t2 = str.get_token( "={}" );
		VP_CHECK( "token-then-next", t1 == s && t2 == "next", w + " tokens " + show( t1 ) + " " + show( t2 ) );
	}

	string c = flut::try_quoted( s );
	event( "try_quoted" );
	VP_CHECK( "needs_quotes", flut::needs_quotes( s ) ? c == q : c == s, w + " -> " + show( c ) );
	if ( !( s.size() >= 2 && s.front() == '"' && s.back() == '"' && c == s ) )
	{
		string cu = flut::try_unquoted( c );
		VP_CHECK( "try-round-trip", cu == s, w + " conditionally quoted " + show( c ) + " unquoted " + show( cu ) );
	}
	if ( !s.empty() )
	{
		HeapText h( c );
		flut::char_stream str( h.p );
		string t = str.get_token();
		VP_CHECK( "try-token", t == s, w + " conditionally quoted " + show( c ) + " token " + show( t ) );
		VP_CHECK( "try-token-eof", str.eof(), w );
	}
	if ( want_sample() ) sample( show( s, 60 ) + " quoted " + show( q, 80 ) );
}

// all texts of length 0, 1 and 2
PART( exhaustive, 256, 256 )
{
	if ( idx == 0 ) { round_trip( "" ); return; }
	string a( 1, char( idx ) );
	round_trip( a );
	for ( int b = 1; b < 256; ++b ) round_trip( a + char( b ) );
	evals( 255 );
}

PART( generated, 60000, 1500000 )
{
	size_t n = r.chance( 1, 10 ) ? r.len( 9000 ) : r.below( 40 );
	string s;
	switch ( r.below( 5 ) )
	{
	case 0: s = r.bytes( n ); break;
	case 1: s = r.text( "\"\\ \n\t\r01237x", n ); break;
	case 2: s = r.text( "abc xyz\"\\\xc3\xa9\x80\xff\x7f\x01\x1f", n ); break;
	case 3: s = r.text( string( "\x01\x02\x07\x08\x0b\x1b\x1f" ) + "01234567", n ); break; // control bytes followed by digits
	default: s = r.text( "abcdefghij0123456789_-.", n ); if ( r.chance( 1, 2 ) && n ) s[ r.below( n ) ] = char( 1 + r.below( 255 ) ); break;
	}
	if ( r.chance( 1, 6 ) ) s += r.pick( { "\\", "\"", "\\\"", "\n", " ", "\x80", "\\0", "\\n" } );
	if ( r.chance( 1, 6 ) ) s = r.pick( { "\\", "\"", "\\\"", "\n", " ", "\xff", "\\1" } ) + s;
	round_trip( s );
}

// every byte can be encoded and decoded by itself, with every following byte
PART( encode_char, 255, 255 )
{
	char c = char( idx + 1 );
	string e = flut::encode_char( c );
	VP_CHECK( "empty", !e.empty(), "byte " + num( (int)idx + 1 ) );
	for ( int f = -1; f < 256; ++f )
	{
		string b = e; if ( f >= 0 ) b += char( f );
		std::unique_ptr< char[] > buf( new char[ b.size() ] ); memcpy( buf.get(), b.data(), b.size() );
		int len = -1;
		char d = flut::decode_char( buf.get(), b.size(), &len );
		event( "decode_char" );
		VP_CHECK( "decode", d == c, "byte " + num( (int)idx + 1 ) + " encoded " + show( e ) + " decoded " + num( (int)(unsigned char)d ) + " follower " + num( f ) );
		VP_CHECK( "length", len == (int)e.size(), "byte " + num( (int)idx + 1 ) + " encoded " + show( e ) + " length " + num( len ) + " follower " + num( f ) );
	}
	note( idx );
}

// malformed text: always terminates, stays inside the text, consumes it
PART( malformed, 60000, 1500000 )
{
	string s;
	size_t n = r.chance( 1, 20 ) ? r.len( 3000 ) : r.below( 14 );
	switch ( r.below( 3 ) )
	{
	case 0: s = r.bytes( n ); break;
	case 1: s = r.text( "\"\\01789an \n", n ); break;
	default: s = "\"" + r.text( "\\\"0123nrtx ab", n ) + ( r.chance( 1, 2 ) ? "\"" : "" ); break;
	}
	if ( s.find_first_of( "\"\\" ) != string::npos ) note( s );
	const string w = show( s );
	if ( want_sample() ) sample( w );
	string u = flut::try_unquoted( s );
	event( "try_unquoted" );
	VP_CHECK( "unquote-not-longer", u.size() <= s.size(), w + " unquoted " + show( u ) );
	if ( s.size() < 2 || s.front() != '"' || s.back() != '"' )
		VP_CHECK( "unquote-unquoted", u == s, w + " unquoted " + show( u ) );

	for ( size_t i = 0; i < s.size() && i < 64; ++i )
	{
		std::unique_ptr< char[] > buf( new char[ s.size() - i ] ); memcpy( buf.get(), s.data() + i, s.size() - i );
		int len = -1;
		char d = flut::decode_char( buf.get(), s.size() - i, &len );
		event( "decode_char" );
		VP_CHECK( "decode-length", len >= 1 && len <= (int)( s.size() - i ), show( s.substr( i ) ) + " length " + num( len ) );
		if ( s[ i ] != '\\' ) VP_CHECK( "decode-plain", d == s[ i ] && len == 1, show( s.substr( i ) ) );
	}

	for ( const char* ops : { "", "={}[];" } )
		for ( const char* quotes : { "\"", "\"'", "" } )
		{
			HeapText h( s );
			flut::char_stream str( h.p );
			size_t count = 0, total = 0;
			while ( str.good() && count <= s.size() + 1 ) { total += str.get_token( ops, quotes ).size(); ++count; }
			event( "tokens", count );
			VP_CHECK( "tokens-end", count <= s.size() + 1, w + " yields more tokens than bytes" );
			VP_CHECK( "tokens-not-longer", total <= s.size(), w );
		}
}

// texts far longer than any buffer
PART( large, 300, 6000 )
{
	size_t n = r.chance( 1, 2 ) ? r.len( 200000 ) : 5000 + r.below( 66000 );
	string s;
	switch ( r.below( 4 ) )
	{
	case 0: s = r.bytes( n ); break;
	case 1: s = string( n, r.pick( { "\"", "\\", " ", "\n", "a", "\x01", "\xff" } )[ 0 ] ); break; // one byte over and over
	case 2: s = r.text( "abcdefghij \"\\\n", n ); break;
	default: s = r.text( "abcdefghij0123456789_-.", n ); if ( r.chance( 1, 2 ) && n ) s[ r.below( n ) ] = char( 1 + r.below( 255 ) );
	}
	event( "large texts" );
	round_trip( s );
}
