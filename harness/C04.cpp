// C04 Formatted text is complete and exact, whatever its length
// vp-rule: random printf conversions, flags, widths, precisions and literal text, with result lengths around 2^k and far beyond, through stringf and every printf-style log call; non-trivial: result not empty; counted by result
#include "flut/string_tools.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "common.hpp"
using namespace vp;
using std::string;
namespace fl = flut::log;

static string reference( const char* fmt, ... )
{
	va_list a, b; va_start( a, fmt ); va_copy( b, a );
	int n = vsnprintf( nullptr, 0, fmt, a ); va_end( a );
	std::vector< char > v( n + 1 );
	vsnprintf( v.data(), v.size(), fmt, b ); va_end( b );
	return string( v.data(), n );
}

struct Capture : public fl::sink
{
	std::vector< std::pair< fl::level, string > > got;
	Capture() : fl::sink( fl::trace_level ) {}
	void send_log_message( fl::level l, const string& m ) override { got.emplace_back( l, m ); }
};

template< typename... A > void compare( Rng& r, const string& fmt, A... a )
{
	HeapText f( fmt );
	string x = reference( fmt.c_str(), a... );
	string y = flut::stringf( f.p, a... );
	const string w = "format " + show( fmt, 80 ) + " length " + num( x.size() ) + " got length " + num( y.size() );
	event( "stringf" ); evals( 1 );
	VP_CHECK( "stringf-length", y.size() == x.size(), w );
	VP_CHECK( "stringf-text", y == x, w + " " + show( y ) + " expected " + show( x ) );
	if ( !x.empty() ) note( x );
	if ( want_sample() ) sample( "format " + show( fmt, 80 ) + " -> " + num( x.size() ) + " characters" );

	Capture c;
	fl::level l = fl::level( 1 + r.below( 6 ) );
	switch ( r.chance( 1, 2 ) ? 0 : (int)l )
	{
	case 0: fl::messagef( l, f.p, a... ); break;
	case 1: fl::tracef( f.p, a... ); break;
	case 2: fl::debugf( f.p, a... ); break;
	case 3: fl::infof( f.p, a... ); break;
	case 4: fl::warningf( f.p, a... ); break;
	case 5: fl::errorf( f.p, a... ); break;
	default: fl::criticalf( f.p, a... ); break;
	}
	event( "logged" );
	VP_CHECK( "log-once", c.got.size() == 1 && c.got[ 0 ].first == l, w + " messages " + num( c.got.size() ) );
	VP_CHECK( "log-length", c.got[ 0 ].second.size() == x.size(), w + " logged length " + num( c.got[ 0 ].second.size() ) );
	VP_CHECK( "log-text", c.got[ 0 ].second == x, w );
}

static size_t length( Rng& r ) { return r.chance( 1, 200 ) ? 10000 + r.below( 150000 ) : r.chance( 1, 3 ) ? r.below( 30 ) : r.len( 9000 ); }
static string literal( Rng& r, size_t n ) { string s = r.text( "abcdefghijklmnopqrstuvwxyz ,.:\n\t\xc3\xa9", n ); if ( r.chance( 1, 8 ) ) s += r.pick( { "\n", "\r\n", " ", "\r", "\n\n", "\t", ".", "\b", "\x1b[0m" } ); if ( r.chance( 1, 8 ) ) s += "%%"; return s; }
static string spec( Rng& r, const char* conv, bool alt )
{
	string s = "%";
	if ( r.chance( 1, 3 ) ) s += r.pick( { "-", "0", "+", " ", "-+" } );
	if ( alt && r.chance( 1, 6 ) ) s += "#";
	if ( r.chance( 1, 3 ) ) s += std::to_string( 1 + length( r ) % 9000 );
	if ( r.chance( 1, 3 ) ) s += "." + std::to_string( r.chance( 1, 8 ) ? r.below( 400 ) : r.below( 20 ) );
	return s + conv;
}

PART( formats, 30000, 800000 )
{
	string pre = literal( r, r.chance( 1, 2 ) ? 0 : length( r ) ), post = literal( r, r.chance( 1, 2 ) ? 0 : r.below( 20 ) );
	switch ( r.below( 13 ) )
	{
	case 0: compare( r, pre + post ); break;
	case 1: { string s = r.bytes( length( r ) ); compare( r, pre + "%s" + post, s.c_str() ); break; }
	case 2: { string s = r.bytes( length( r ) ); string f = spec( r, "s", false ); f.erase( std::remove( f.begin(), f.end(), '+' ), f.end() ); f.erase( std::remove( f.begin() + 1, f.end(), ' ' ), f.end() ); compare( r, pre + f + post, s.c_str() ); break; }
	case 3: compare( r, pre + spec( r, "d", false ) + post, (int)r.next() ); break;
	case 4: compare( r, pre + spec( r, r.pick( { "u", "x", "X", "o" } ), true ) + post, (unsigned)r.next() ); break;
	case 5: compare( r, pre + spec( r, "lld", false ) + post, (long long)r.next() ); break;
	case 6: compare( r, pre + spec( r, "lu", false ) + post, (unsigned long)r.next() ); break;
	case 7: { double d = r.chance( 1, 4 ) ? r.pickd( { 0.0, -0.0, 1e308, -1e308, 5e-324, HUGE_VAL } ) : r.real( -1e6, 1e6 ); compare( r, pre + spec( r, r.pick( { "f", "g", "e", "a", "G", "E" } ), true ) + post, d ); break; }
	case 8: compare( r, pre + "%c" + post, r.chance( 1, 8 ) ? 0 : (int)( 1 + r.below( 255 ) ) ); break;
	case 12: compare( r, pre + "%c%s%-5c|%c" + post, (int)r.below( 4 ), r.chance( 1, 2 ) ? "text" : "", (int)r.below( 3 ), (int)r.below( 2 ) ); break;
	case 9: compare( r, pre + "%*d|%-*.*f" + post, (int)r.below( 300 ), (int)r.next(), (int)r.below( 300 ), (int)r.below( 30 ), r.real( -1, 1 ) ); break;
	case 10: { string s = r.bytes( length( r ) ), t = r.bytes( length( r ) ); compare( r, pre + "%s=%d %s %5.2f%%" + post, s.c_str(), (int)r.next(), t.c_str(), r.real( -1e3, 1e3 ) ); break; }
	default: compare( r, pre + "%d %u %ld %lu %lld %g %s %c %x" + post, (int)r.next(), (unsigned)r.next(), (long)r.next(), (unsigned long)r.next(), (long long)r.next(), r.real( -1e9, 1e9 ), "text", 'c', (unsigned)r.next() );
	}
}

// every result length from 0 to 4200 (thorough: 70000), by text and by padding
PART( every_length, 4200, 70000 )
{
	string s( idx, 'x' ); for ( size_t i = 0; i < s.size(); ++i ) s[ i ] = char( 'a' + i % 26 );
	compare( r, "%s", s.c_str() );
	if ( idx ) compare( r, "%*d", (int)idx, 7 );
}
