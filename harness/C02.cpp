// C02 Stream reads deliver the text exactly once, in order, and signal end and failure
// vp-rule: random texts (words, numbers, quoted parts, operators, delimiters) x random sequences of number/word/line/char/token reads with copies, assignments and moves mid-way; non-trivial: at least 3 reads of 2 kinds; counted by text, settings and read sequence
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
#include "flut/filesystem.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

struct Model
{
	string t, delim; size_t pos = 0; bool eof = false, fail = false;
	Model( const string& text, const string& d ) : t( text ), delim( d ) { skip(); }
	bool is_delim( char c ) const { return delim.find( c ) != string::npos; }
	void skip() { while ( pos < t.size() && is_delim( t[ pos ] ) ) ++pos; if ( pos == t.size() ) eof = true; }
	bool good() const { return !eof && !fail; }
	void consumed( size_t n ) { if ( n == 0 ) fail = true; else { pos += n; skip(); } }
	template< typename T > bool number( T& v )
	{
		const char* b = t.c_str() + pos; char* e = nullptr; bool in_range = true;
		errno = 0;
		if ( std::is_same< T, float >::value ) v = (T)strtof( b, &e );
		else if ( std::is_same< T, double >::value ) v = (T)strtod( b, &e );
		else if ( std::is_signed< T >::value ) { long long x = strtoll( b, &e, 10 ); v = (T)x; in_range = errno == 0 && x >= (long long)std::numeric_limits< T >::min() && x <= (long long)std::numeric_limits< T >::max(); }
		else { unsigned long long x = strtoull( b, &e, 10 ); v = (T)x; in_range = errno == 0 && x <= (unsigned long long)std::numeric_limits< T >::max() && memchr( b, '-', e - b ) == nullptr; }
		bool found = e != b;
		consumed( e - b );
		return found && in_range;
	}
	string word() { size_t n = 0; while ( pos + n < t.size() && !strchr( " \t\n\v\f\r", t[ pos + n ] ) ) ++n; string s = t.substr( pos, n ); consumed( n ); return s; }
	string line() { size_t n = 0; while ( pos + n < t.size() && t[ pos + n ] != '\r' && t[ pos + n ] != '\n' ) ++n; string s = t.substr( pos, n ); consumed( n ); return s; }
	char get() { char c = t[ pos++ ]; if ( pos == t.size() ) eof = true; return c; }
	string token( const string& ops, const string& quotes )
	{
		string s; bool any = false;
		while ( pos < t.size() )
		{
			char c = t[ pos ];
			if ( is_delim( c ) ) break;
			if ( quotes.find( c ) != string::npos )
			{
				any = true; ++pos;
				while ( pos < t.size() && t[ pos ] != c )
				{
					if ( t[ pos ] != '\\' ) { s += t[ pos++ ]; continue; }
					char e = t.at( pos + 1 );
					if ( e == 'n' || e == 'r' || e == 't' || e == '\\' || e == '"' ) { s += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e; pos += 2; }
					else { s += char( ( t.at( pos + 1 ) - '0' ) * 64 + ( t.at( pos + 2 ) - '0' ) * 8 + t.at( pos + 3 ) - '0' ); pos += 4; }
				}
				if ( pos < t.size() ) ++pos;
			}
			else if ( ops.find( c ) != string::npos )
			{
				if ( !any ) { s = c; ++pos; }
				break;
			}
			else { s += c; ++pos; any = true; }
		}
		skip();
		return s;
	}
};

static string piece( Rng& r, const string& quotes )
{
	char b[ 64 ];
	switch ( r.below( 14 ) )
	{
	case 0: snprintf( b, sizeof b, "%lld", (long long)r.range( -99, 99 ) ); return b;
	case 1: { static const long long e[] = { 0, -1, 32767, -32768, 65535, 2147483647, -2147483648ll, 4294967295ll, 9223372036854775807ll, (long long)( -9223372036854775807ll - 1 ) }; snprintf( b, sizeof b, "%lld", e[ r.below( 10 ) ] ); return b; }
	case 2: snprintf( b, sizeof b, "%.9g", r.real( -1e6, 1e6 ) ); return b;
	case 3: return r.pick( { "1e300", "-0.5", ".25", "1e-40", "0x1p3", "007", "+3", "18446744073709551615", "1.", "-", "+", "." } );
	case 4: case 5: return r.text( "abcxyz_09.-\x80\xe9", 1 + r.below( 6 ) );
	case 6:
		{
			if ( r.chance( 1, 2 ) )
			{
				// any non-blank byte
				string s; size_t n = 1 + r.below( 8 );
				for ( size_t i = 0; i < n; ++i ) { char c = char( r.chance( 1, 2 ) ? r.range( 128, 255 ) : r.range( 33, 126 ) ); s += quotes.find( c ) != string::npos || c == '\\' ? 'k' : c; }
				return s;
			}
			// decimal text just beside the midpoint of two neighbouring floats
			float f = float( r.real( 1, 1000 ) ), g = std::nextafterf( f, 2000.0f );
			snprintf( b, sizeof b, "%.28f", ( double( f ) + double( g ) ) / 2 );
			string s = b; size_t e = s.find_last_not_of( '0' ); s.erase( e + 1 );
			if ( r.chance( 1, 2 ) ) s += string( r.below( 12 ), '0' ) + "1"; else { s.back() -= 1; s += string( 1 + r.below( 14 ), '9' ); }
			event( "near a midpoint" );
			return s;
		}
	case 7: return r.text( "abcdefghij", r.len( 300 ) );
	case 8: case 9:
		{
			if ( quotes.empty() ) return "q";
			char q = quotes[ r.below( quotes.size() ) ];
			string s( 1, q ); size_t n = r.below( 6 );
			for ( size_t i = 0; i < n; ++i )
				switch ( r.below( 5 ) )
				{
				case 0: s += r.pick( { "\\n", "\\t", "\\r", "\\\\", "\\\"", "\\001", "\\037", "\\016" } ); break;
				case 1: s += r.pick( { " ", "=", "{", ",", "\n", "}" } ); break;
				default: s += char( 'a' + r.below( 4 ) );
				}
			if ( !r.chance( 1, 30 ) ) s += q;
			return s;
		}
	default: return r.pick( { "=", "{", "}", "[", "]", ",", ";" } );
	}
}

PART( reads, 60000, 1500000 )
{
	static const char* delims[] = { " \t\r\n\f\v", " \t\r\n\f\v", " ", ",", ",; ", "\n", "\r\n", "=\n ", " \t", "" };
	static const char* quotes[] = { "\"", "\"", "\"'", "'", "" };
	static const char* opsets[] = { "", "={}", "=", "[]{},;=", "{" };
	const string delim = delims[ r.below( 10 ) ], quote = quotes[ r.below( 5 ) ], ops = opsets[ r.below( 5 ) ];

	string text; size_t n = r.chance( 1, 50 ) ? r.below( 400 ) : r.below( 12 );
	if ( r.chance( 1, 4 ) ) text += r.text( " \n\t,", r.below( 4 ) );
	for ( size_t i = 0; i < n; ++i )
	{
		text += piece( r, quote );
		if ( !r.chance( 1, 5 ) ) text += r.chance( 1, 8 ) ? r.text( " \t\r\n\f\v", 1 + r.below( 5 ) ) : string( r.pick( { " ", " ", "\n", "\r\n", ",", ";", "  ", "\t" } ) );
	}

	// the stream under test, in every way to make one
	HeapText heap( text ); HeapText hd( delim );
	std::unique_ptr< flut::char_stream > str;
	switch ( idx % 40 == 7 ? 3 : r.below( 3 ) )
	{
	case 0: str.reset( new flut::char_stream( heap.p, hd.p ) ); break;
	case 1: str.reset( new flut::char_stream( string( text ), hd.p ) ); break;
	case 2: { flut::char_stream tmp( string( text ), hd.p ); str.reset( new flut::char_stream( std::move( tmp ) ) ); break; }
	default:
		{
			Scratch sc; put_file( sc / "t.txt", text );
			if ( r.chance( 1, 2 ) ) str.reset( new flut::char_stream( flut::load_char_stream( flut::path( sc / "t.txt" ), hd.p ) ) );
			else str.reset( new flut::char_stream( flut::path( sc / "t.txt" ), hd.p ) );
			event( "from file" );
		}
	}
	Model m( text, delim );
	string trace = "text " + show( text ) + " delim " + show( delim ) + " quotes " + show( quote ) + " ops " + show( ops ) + ":";

	auto flags = [&]( flut::char_stream& s, const Model& m ) {
		VP_CHECK( "eof", s.eof() == m.eof, trace + " eof " + num( s.eof() ) + " expected " + num( m.eof ) );
		VP_CHECK( "fail", s.fail() == m.fail, trace + " fail " + num( s.fail() ) + " expected " + num( m.fail ) );
		VP_CHECK( "good", s.good() == m.good(), trace );
	};
	// reads everything that is left, independently, as tokens
	auto drain = [&]( flut::char_stream& s, Model m, const char* key ) {
		size_t guard = 0; string rest;
		while ( m.good() && guard++ < text.size() + 2 )
		{
			if ( !s.good() ) { VP_CHECK( key, s.good(), trace + " copy ended early" ); }
			string a = s.get_token( ops.c_str(), quote.c_str() ), b = m.token( ops, quote );
			VP_CHECK( key, a == b, trace + " copy token " + show( a ) + " expected " + show( b ) );
		}
		flags( s, m );
	};
	flags( *str, m );
	std::unique_ptr< flut::char_stream > other; std::unique_ptr< Model > other_m;
	unsigned kinds = 0; size_t reads = 0; size_t style = r.below( 14 );
	size_t guard = 0;
	while ( m.good() && guard++ < text.size() + 20 )
	{
		size_t op = r.chance( 1, 2 ) ? style : r.below( 17 );
		kinds |= 1u << op;
		++reads;
#define NUMBER( T ) { T a = 0, b = 0; *str >> a; bool cmp = m.number( b ); event( "number" ); trace += " >>" #T; \
		if ( cmp ) VP_CHECK( "number-" #T, a == b || ( a != a && b != b ), trace + " value " + num( a ) + " expected " + num( b ) ); break; }
		switch ( op )
		{
		case 0: NUMBER( int )
		case 1: NUMBER( unsigned )
		case 2: NUMBER( long )
		case 3: { unsigned long a = 0, b = 0; *str >> a; bool cmp = m.number( b ); trace += " >>ulong"; if ( cmp ) VP_CHECK( "number-ulong", a == b, trace ); break; }
		case 4: { long long a = 0, b = 0; *str >> a; bool cmp = m.number( b ); trace += " >>longlong"; if ( cmp ) VP_CHECK( "number-longlong", a == b, trace ); break; }
		case 5: { unsigned long long a = 0, b = 0; *str >> a; bool cmp = m.number( b ); trace += " >>ulonglong"; if ( cmp ) VP_CHECK( "number-ulonglong", a == b, trace ); break; }
		case 6: NUMBER( float )
		case 7: NUMBER( double )
		case 8: { short a = 0, b = 0; *str >> a; bool cmp = m.number( b ); trace += " >>short"; if ( cmp ) VP_CHECK( "number-short", a == b, trace ); break; }
		case 9: { unsigned short a = 0, b = 0; *str >> a; bool cmp = m.number( b ); trace += " >>ushort"; if ( cmp ) VP_CHECK( "number-ushort", a == b, trace ); break; }
		case 10: { string a; *str >> a; string b = m.word(); trace += " >>string"; event( "word" ); VP_CHECK( "word", a == b, trace + " " + show( a ) + " expected " + show( b ) ); break; }
		case 11: { string a = str->get_line(), b = m.line(); trace += " line"; event( "line" ); VP_CHECK( "line", a == b, trace + " " + show( a ) + " expected " + show( b ) ); break; }
		case 12: { char p = str->peekc(), q = m.t[ m.pos ]; char a = str->getc(), b = m.get(); trace += " getc"; event( "char" ); VP_CHECK( "char", a == b && p == q, trace + " " + show( string( 1, a ) ) ); break; }
		case 13: case 14: { string a = str->get_token( ops.c_str(), quote.c_str() ), b = m.token( ops, quote ); trace += " token"; event( "token" ); VP_CHECK( "token", a == b, trace + " " + show( a ) + " expected " + show( b ) ); break; }
		case 15:
			{
				// copy, then let both go on
				event( "copy" ); trace += " copy";
				if ( r.chance( 1, 2 ) )
				{
					flut::char_stream c( *str );
					drain( c, m, "copy" );
				}
				else
				{
					std::unique_ptr< flut::char_stream > c( new flut::char_stream( *str ) );
					if ( r.chance( 1, 3 ) ) { *c = *c; }
					other = std::move( str ); other_m.reset( new Model( m ) ); str = std::move( c );
					if ( r.chance( 1, 2 ) ) { drain( *other, *other_m, "original" ); other.reset(); }
				}
				break;
			}
		default:
			{
				event( "assign" ); trace += " assign";
				std::unique_ptr< flut::char_stream > c( new flut::char_stream( string( "some other, longer text that the assigned stream owned before" ) ) );
				switch ( r.below( 4 ) )
				{
				case 0: { string dummy; *c >> dummy; break; }
				case 1: { while ( c->good() ) c->get_token( "" ); event( "assign over an ended stream" ); break; }
				case 2: { int dummy; *c >> dummy; event( "assign over a failed stream" ); break; }
				default: break;
				}
				if ( r.chance( 1, 2 ) ) *c = *str; else *c = std::move( *str );
				str = std::move( c );
				break;
			}
		}
		flags( *str, m );
	}
	if ( other ) drain( *other, *other_m, "original-later" );
	if ( !m.good() )
	{
		// a copy of an ended or failed stream stands where its original stands, and reads on from there
		flut::char_stream a( *str ), b( string( "another text" ) ); b = *str;
		flut::char_stream* all[] = { str.get(), &a, &b };
		for ( auto* s : all )
		{
			Model k( m ); flags( *s, k );
			VP_CHECK( "ended-position", s->peekc() == ( k.pos < k.t.size() ? k.t[ k.pos ] : '\0' ), trace + " then peek" );
			for ( int i = 0; i < 3; ++i )
			{
				if ( ( idx + i ) % 3 == 0 ) { string x, y; *s >> x; y = k.word(); VP_CHECK( "ended-word", x == y, trace + " then >>string gives " + show( x ) + " expected " + show( y ) ); }
				else if ( ( idx + i ) % 3 == 1 ) { string x = s->get_line(), y = k.line(); VP_CHECK( "ended-line", x == y, trace + " then line gives " + show( x ) + " expected " + show( y ) ); }
				else { long long x = 0, y = 0; *s >> x; if ( k.number( y ) ) VP_CHECK( "ended-number", x == y, trace + " then number gives " + num( x ) ); }
				flags( *s, k );
			}
			event( "reads after the end or a failure" );
		}
	}
	if ( reads >= 3 && ( kinds & ( kinds - 1 ) ) ) { note( trace ); if ( want_sample() ) sample( trace ); }
}

// tokens alone always reach the end and reproduce the unquoted text
PART( tokens, 20000, 500000 )
{
	string text, flat; size_t n = r.chance( 1, 30 ) ? r.below( 2000 ) : r.below( 30 );
	std::vector< string > expect;
	for ( size_t i = 0; i < n; ++i )
	{
		string tok = r.text( "abcdefg0123.-_+/\x90\xfe", 1 + ( r.chance( 1, 30 ) ? r.len( 600 ) : r.below( 8 ) ) );
		if ( r.chance( 1, 4 ) ) { tok = r.bytes( r.below( 10 ) ); text += flut::quoted( tok ); }
		else text += tok;
		expect.push_back( tok );
		if ( r.chance( 1, 4 ) ) { if ( r.chance( 1, 2 ) ) text += " "; text += "="; expect.push_back( "=" ); if ( r.chance( 1, 2 ) ) text += "\n"; }
		else text += r.pick( { " ", "\n", "\t ", "\r\n" } );
	}
	HeapText h( text );
	flut::char_stream str( h.p );
	for ( size_t i = 0; i < expect.size(); ++i )
	{
		VP_CHECK( "early-end", str.good(), show( text ) + " at token " + num( i ) );
		string t = str.get_token( "=" );
		VP_CHECK( "token", t == expect[ i ], show( text ) + " token " + num( i ) + " is " + show( t ) + " expected " + show( expect[ i ] ) );
	}
	event( "token", expect.size() );
	VP_CHECK( "end", str.eof() && !str.fail(), show( text ) );
	if ( n > 2 ) note( text );
}

// arbitrary bytes never read past the end, and reads always terminate
PART( hostile, 20000, 500000 )
{
	string text = r.chance( 1, 2 ) ? r.bytes( r.below( 40 ) ) : r.text( "\"\\'=0123 \n-e.x", r.below( 40 ) );
	HeapText h( text );
	flut::char_stream str( h.p, r.pick( { " \t\r\n\f\v", ",", "" } ) );
	size_t guard = 0;
	while ( str.good() && guard++ <= text.size() + 1 )
		switch ( r.below( 5 ) )
		{
		case 0: { double d; str >> d; break; }
		case 1: { string s; str >> s; break; }
		case 2: str.get_line(); break;
		case 3: str.getc(); break;
		default: str.get_token( "={}", "\"'" );
		}
	event( "hostile reads", guard );
	VP_CHECK( "terminates", guard <= text.size() + 1, show( text ) );
	note( text );
}

// texts, words, lines and tokens far longer than any buffer
PART( large, 150, 4000 )
{
	string text; std::vector< string > words; const bool few = r.chance( 1, 2 );
	size_t n = few ? 1 + r.below( 6 ) : r.len( 30000 );
	for ( size_t i = 0; i < n; ++i )
	{
		string w = r.text( "abcdefghijklm0123456789._-+", 1 + ( few ? r.len( 100000 ) : r.below( 9 ) ) );
		words.push_back( w ); text += w; text += i % 7 == 6 ? '\n' : ' ';
	}
	const string w = num( n ) + " words, " + num( text.size() ) + " bytes: " + show( text, 80 );
	HeapText h( text );
	{
		flut::char_stream str( h.p ); string s;
		for ( size_t i = 0; i < n; ++i )
		{
			VP_CHECK( "large-early-end", str.good(), w + " at word " + num( i ) );
			if ( ( i + idx ) % 2 ) str >> s; else s = str.get_token( "={}" );
			VP_CHECK( "large-word", s == words[ i ], w + " word " + num( i ) + " is " + show( s, 60 ) + " of " + num( s.size() ) + " bytes" );
		}
		VP_CHECK( "large-end", str.eof() && !str.fail(), w );
	}
	{
		flut::char_stream str( h.p, "\r\n" ); size_t pos = 0;
		while ( pos < text.size() )
		{
			size_t e = text.find( '\n', pos ); if ( e == string::npos ) e = text.size();
			VP_CHECK( "large-line-early-end", str.good(), w );
			string l = str.get_line();
			VP_CHECK( "large-line", l == text.substr( pos, e - pos ), w + " line at " + num( pos ) + " is " + num( l.size() ) + " bytes" );
			pos = e + 1;
		}
		VP_CHECK( "large-line-end", str.eof() && !str.fail(), w );
	}
	{
		flut::char_stream str( string( text ), "" ); flut::char_stream copy( str ); size_t i = 0;
		while ( copy.good() ) { VP_CHECK( "large-char", copy.getc() == text[ i ], w + " at " + num( i ) ); ++i; }
		VP_CHECK( "large-char-count", i == text.size(), w );
	}
	if ( idx % 4 == 0 )
	{
		Scratch sc; put_file( sc / "t.txt", text );
		VP_CHECK( "large-file", flut::load_string( flut::path( sc / "t.txt" ) ) == text, w );
		flut::char_stream str = flut::load_char_stream( flut::path( sc / "t.txt" ) ); size_t i = 0; string s;
		while ( str.good() ) { str >> s; VP_CHECK( "large-file-word", i < n && s == words[ i ], w + " word " + num( i ) ); ++i; }
		VP_CHECK( "large-file-count", i == n, w );
	}
	event( "large words", n );
	if ( n > 2 ) note( text );
}
