// C34 Optional values and version numbers keep exactly what was put in
// vp-rule: histories of assignments, copies and stream reads over optionals of integers, floats, texts and structs next to a shadow value; versions of random components printed, parsed and compared; counted by history and version
#include "flut/math/optional.hpp"
#include "flut/system/version.hpp"
#include "flut/system/flut_version.hpp"
#include <sstream>
#include "common.hpp"
using namespace vp;
using std::string;

struct Thing { std::unique_ptr< string > big; int n; Thing() : n( 0 ) {} Thing( const string& s, int v ) : big( new string( s ) ), n( v ) {} Thing( const Thing& o ) : big( o.big ? new string( *o.big ) : nullptr ), n( o.n ) {} Thing( Thing&& o ) : big( std::move( o.big ) ), n( o.n ) { o.n = -1; } Thing& operator=( const Thing& o ) { big.reset( o.big ? new string( *o.big ) : nullptr ); n = o.n; return *this; } Thing& operator=( Thing&& o ) { big = std::move( o.big ); n = o.n; o.n = -1; return *this; } bool operator==( const Thing& o ) const { return n == o.n && ( big ? o.big && *big == *o.big : !o.big ); } };
template< typename T > struct Gen;
template<> struct Gen< int > { static int make( Rng& r ) { switch ( r.below( 4 ) ) { case 0: return 0; case 1: return int( r.pickd( { 2147483647., -2147483648., -2147483647., 1, -1 } ) ); default: return int( r.next() ); } } };
template<> struct Gen< size_t > { static size_t make( Rng& r ) { return r.chance( 1, 4 ) ? r.below( 3 ) : r.chance( 1, 6 ) ? ~size_t( 0 ) : r.next(); } };
template<> struct Gen< short > { static short make( Rng& r ) { return short( r.next() ); } };
template<> struct Gen< bool > { static bool make( Rng& r ) { return r.chance( 1, 2 ); } };
template<> struct Gen< float > { static float make( Rng& r ) { switch ( r.below( 4 ) ) { case 0: return float( r.pickd( { 0, -0.0, 1, INFINITY, -INFINITY, 3.4028234e38, -3.4028234e38, 1e-45 } ) ); default: return float( r.real( -1, 1 ) * std::pow( 10, (double)r.range( -20, 20 ) ) ); } } };
template<> struct Gen< double > { static double make( Rng& r ) { switch ( r.below( 4 ) ) { case 0: return r.pickd( { 0, -0.0, 1, INFINITY, -INFINITY, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324 } ); default: return r.real( -1, 1 ) * std::pow( 10, (double)r.range( -300, 300 ) ); } } };
template<> struct Gen< string > { static string make( Rng& r ) { return r.bytes( r.len( 200 ) ); } };
template<> struct Gen< Thing > { static Thing make( Rng& r ) { return Thing( r.bytes( r.len( 200 ) ), int( r.next() ) ); } };
template< typename T > typename std::enable_if< std::is_arithmetic< T >::value, string >::type tell( const T& v ) { return num( v ); }
template<> string tell( const short& v ) { return num( int( v ) ); }
static string tell( const string& s ) { return vp::show( s, 30 ); }
static string tell( const Thing& s ) { return num( s.n ); }
template< typename T > bool same( const T& a, const T& b ) { return a == b; }
template<> bool same( const float& a, const float& b ) { return memcmp( &a, &b, sizeof a ) == 0; }
template<> bool same( const double& a, const double& b ) { return memcmp( &a, &b, sizeof a ) == 0; }
template< typename T > typename std::enable_if< std::is_integral< T >::value && !std::is_same< T, bool >::value, bool >::type reserved( const T& v ) { return v == flut::constants< T >::sentinel(); }
template< typename T > typename std::enable_if< !std::is_integral< T >::value || std::is_same< T, bool >::value, bool >::type reserved( const T& ) { return false; }

template< typename T > static void history( Rng& r, const char* type )
{
	typedef flut::optional< T > O; struct Ref { bool has = false; T v; }; std::vector< std::unique_ptr< O > > o; std::vector< Ref > m( 4 ); string trace; for ( int i = 0; i < 4; ++i ) o.emplace_back( new O() );
	size_t steps = 2 + r.below( 30 );
	for ( size_t i = 0; i < steps; ++i )
	{
		size_t a = r.below( 4 ), b = r.below( 4 ); trace += " " + num( a );
		T v = Gen< T >::make( r ); while ( reserved( v ) ) v = Gen< T >::make( r );
		switch ( r.below( 7 ) )
		{
		case 0: *o[ a ] = v; trace += "="; m[ a ].has = true; m[ a ].v = v; event( "assigned" ); break;
		case 1: { T tmp( v ); *o[ a ] = std::move( tmp ); trace += "=&&"; m[ a ].has = true; m[ a ].v = v; event( "assigned" ); break; }
		case 2: if ( r.chance( 1, 2 ) ) o[ a ].reset( new O( v ) ); else { T tmp( v ); o[ a ].reset( new O( std::move( tmp ) ) ); } trace += "new"; m[ a ].has = true; m[ a ].v = v; event( "made from a value" ); break;
		case 3: o[ a ].reset( new O() ); trace += "new()"; m[ a ] = Ref(); event( "made empty" ); break;
		case 4: if ( a != b ) { *o[ a ] = *o[ b ]; trace += "<-" + num( b ); m[ a ] = m[ b ]; event( "copies" ); } break;
		case 5: { O* c = new O( *o[ b ] ); o[ a ].reset( c ); trace += "(" + num( b ) + ")"; if ( a != b ) m[ a ] = m[ b ]; event( "copies" ); break; }
		case 6: { O c; c = *o[ a ]; *o[ a ] = v; *o[ a ] = c; trace += "round"; event( "copies" ); break; }
		}
		for ( size_t k = 0; k < 4; ++k ) { VP_CHECK( "has-value", bool( *o[ k ] ) == m[ k ].has, string( type ) + " " + num( k ) + " after" + trace ); if ( m[ k ].has ) VP_CHECK( "value", same( **o[ k ], m[ k ].v ), string( type ) + " " + num( k ) + " holds " + tell( **o[ k ] ) + " instead of " + tell( m[ k ].v ) + " after" + trace ); }
	}
	note( type + trace ); if ( want_sample() ) sample( type + trace );
}
PART( optionals, 6000, 200000 )
{
	switch ( r.below( 7 ) ) { case 0: history< int >( r, "int" ); break; case 1: history< size_t >( r, "size" ); break; case 2: history< short >( r, "short" ); break; case 3: history< float >( r, "float" ); break; case 4: history< double >( r, "double" ); break; case 5: history< string >( r, "text" ); break; default: history< Thing >( r, "struct" ); }
}
template< typename S, typename T > static void reads( Rng& r, const char* type )
{
	// a line of words, some of them values of the type; reading stops at the first that is not
	T prior = Gen< T >::make( r ); while ( reserved( prior ) ) prior = Gen< T >::make( r ); bool set = r.chance( 1, 2 ); size_t n = r.below( 5 ); string text; std::vector< T > vals; for ( size_t i = 0; i < n; ++i ) { T v = T( r.range( 0, 100000 ) ); if ( std::is_floating_point< T >::value ) v = T( v / 4 ); vals.push_back( v ); std::ostringstream s; s.precision( 17 ); s << v; text += ( i ? " " : "" ) + s.str(); }
	bool bad = r.chance( 1, 2 ); if ( bad && ( n || !std::is_same< S, flut::char_stream >::value ) ) text += n ? " word" : "word"; string w = string( type ) + " from " + vp::show( text );
	S str( text.c_str() ); for ( size_t i = 0; i < n; ++i ) { flut::optional< T > o; if ( set ) o = prior; str >> o; VP_CHECK( "read", bool( o ) && *o == vals[ i ] && !str.fail(), w + " value " + num( i ) ); event( "values read" ); }
	flut::optional< T > o; if ( set ) o = prior; bool left = true; try { str >> o; } catch ( std::exception& ) { event( "reads refused by exception" ); } if ( left ) VP_CHECK( "failed-read-leaves-it", bool( o ) == set && ( !set || same( *o, prior ) ), w + " after the end" ); event( "failed reads" ); note( w );
}
PART( streams, 3000, 100000 )
{
	switch ( r.below( 6 ) ) { case 0: reads< std::istringstream, int >( r, "int (istream)" ); break; case 1: reads< std::istringstream, double >( r, "double (istream)" ); break; case 2: reads< flut::char_stream, int >( r, "int" ); break; case 3: reads< flut::char_stream, double >( r, "double" ); break; case 4: reads< std::istringstream, float >( r, "float (istream)" ); break; default: reads< flut::char_stream, float >( r, "float" ); }
}
PART( versions, 5000, 200000 )
{
	auto comp = [&]() -> int { switch ( r.below( 4 ) ) { case 0: return int( r.below( 3 ) ); case 1: return int( r.below( 100000 ) ); case 2: return int( r.pickd( { 9, 10, 99, 100, 2147483647 } ) ); default: return int( r.below( 30 ) ); } };
	int a = comp(), b = comp(), c = comp(), d = r.chance( 1, 2 ) ? comp() : 0; string post = r.chance( 1, 2 ) ? r.text( "abcdefgXYZ0123456789-+_.()", 1 + ( r.chance( 1, 8 ) ? r.len( 300 ) : r.below( 12 ) ) ) : ""; if ( r.chance( 1, 8 ) && post.size() ) post = r.pick( { "alpha", "rc1", ".5", "1", "0.1", "-1", "RC.2", "beta 2", "release candidate 1", "1 2", "x  y", "a\tb" } ); else if ( r.chance( 1, 8 ) && post.size() ) { for ( size_t k = 1 + r.below( 5 ); k > 0; --k ) post += string( 1 + r.below( 2 ), ' ' ) + r.text( "abcXYZ0123456789-+_.()", 1 + r.below( 8 ) ); event( "postfix of several words" ); }
	flut::version v = d || post.size() ? flut::version( a, b, c, d, post ) : flut::version( a, b, c ); string want = num( a ) + "." + num( b ) + "." + num( c ) + ( d ? "." + num( d ) : "" ) + ( post.empty() ? "" : " " + post );
	VP_CHECK( "components", v.major == a && v.minor == b && v.patch == c && v.build == d && v.postfix == post, want ); VP_CHECK( "printed", v.to_str() == want, want + " prints " + vp::show( v.to_str() ) ); std::ostringstream s; s << v; VP_CHECK( "printed", s.str() == want, want + " prints " + vp::show( s.str() ) );
	// dirty the stack a constructor would reuse, so that a component left alone shows
	{ volatile char junk[ 2048 ]; for ( size_t i = 0; i < sizeof junk; ++i ) junk[ i ] = 0x5a; (void)junk[ r.below( sizeof junk ) ]; }
	string text = want; if ( d == 0 && r.chance( 1, 4 ) ) text = num( a ) + "." + num( b ) + "." + num( c ) + ".0" + ( post.empty() ? "" : " " + post ); flut::version q( text ); VP_CHECK( "parsed", q.major == a && q.minor == b && q.patch == c && q.build == d && q.postfix == post, text + " parses to " + num( q.major ) + "." + num( q.minor ) + "." + num( q.patch ) + "." + num( q.build ) + " " + vp::show( q.postfix ) ); VP_CHECK( "round-trip", q.to_str() == want, text );
	if ( post.size() && ( isalpha( (unsigned char)post[ 0 ] ) || post[ 0 ] == '-' || post[ 0 ] == '_' ) && post[ 0 ] != 'e' && post[ 0 ] != 'E' )
	{
		string tight = want; tight.erase( tight.size() - post.size() - 1, 1 ); flut::version t( tight ); VP_CHECK( "parsed-without-space", t.major == a && t.minor == b && t.patch == c && t.build == d && t.postfix == post, tight + " parses to " + t.to_str() ); event( "postfix without space" );
	}
	// components left out at the end are zero
	{ size_t k = r.below( 3 ); string part = k > 0 ? num( a ) : ""; if ( k > 1 ) part += "." + num( b ); if ( k && r.chance( 1, 3 ) ) part += "."; flut::version t( part ); VP_CHECK( "parsed-short", t.major == ( k > 0 ? a : 0 ) && t.minor == ( k > 1 ? b : 0 ) && t.patch == 0 && t.build == 0 && t.postfix.empty(), vp::show( part ) + " parses to " + t.to_str() ); event( "short versions" ); }
	event( d ? "with build number" : "without build number" ); event( post.empty() ? "without postfix" : "with postfix" ); note( want ); if ( want_sample() ) sample( want ); if ( idx == 0 ) { auto g = flut::get_flut_version(); VP_CHECK( "own-version", flut::version( g.to_str() ).to_str() == g.to_str(), g.to_str() ); }
}
