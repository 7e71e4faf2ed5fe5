// C03 String helpers return exactly the documented part of their argument
// vp-rule: strings over small alphabets (so that separators collide) and over all bytes, boundary lengths, every count; non-trivial: at least 2 characters; counted by content and argument
#include "flut/string_tools.hpp"
#include "common.hpp"
using namespace vp;
using std::string;
typedef std::vector< string > vs;

static bool in( char c, const string& set ) { for ( char x : set ) if ( x == c ) return true; return false; }
static string ref_trim_left( const string& s, const string& set ) { size_t i = 0; while ( i < s.size() && in( s[ i ], set ) ) ++i; return string( s.begin() + i, s.end() ); }
static string ref_trim_right( const string& s, const string& set ) { size_t n = s.size(); while ( n > 0 && in( s[ n - 1 ], set ) ) --n; return string( s.begin(), s.begin() + n ); }
static string ref_trim( const string& s, const string& set ) { return ref_trim_right( ref_trim_left( s, set ), set ); }
static vs ref_split( const string& s, const string& set )
{
	vs r; string cur;
	for ( char c : s ) { if ( in( c, set ) ) { if ( !cur.empty() ) r.push_back( cur ); cur.clear(); } else cur += c; }
	if ( !cur.empty() ) r.push_back( cur );
	return r;
}
static string show( const vs& v ) { string r = "["; for ( auto& s : v ) r += vp::show( s, 40 ) + " "; return r + "]"; }

static string gen( Rng& r )
{
	size_t n = r.chance( 1, 30 ) ? r.len( r.chance( 1, 30 ) ? 150000 : 5000 ) : r.below( 16 );
	switch ( r.below( 4 ) )
	{
	case 0: { string s = r.bytes( n ); if ( r.chance( 1, 3 ) && n ) { for ( size_t i = 0, k = 1 + r.below( 3 ); i < k; ++i ) s[ r.below( n ) ] = '\0'; event( "texts with NUL bytes" ); } return s; }
	case 1: return r.text( "a b\t\n\r\f\v", n );
	case 2: return r.text( "ab=,;. /", n );
	default: return r.text( "a.b/c\\", n );
	}
}

PART( parts_of_strings, 60000, 1500000 )
{
	string s = gen( r ); const string w = vp::show( s );
	if ( s.size() > 1 ) note( s );
	if ( want_sample() ) sample( w );
	const string ws = " \t\r\n\f\v";
	VP_CHECK( "trim", flut::trim_str( s ) == ref_trim( s, ws ), w + " -> " + vp::show( flut::trim_str( s ) ) );
	VP_CHECK( "trim-right", flut::trim_right_str( s ) == ref_trim_right( s, ws ), w + " -> " + vp::show( flut::trim_right_str( s ) ) );
	const string set = r.pick( { "a", "ab", " ", "=", ",;", "./", "\\/", "x", ".", "\x80\xff", "ab =,;./" } );
	const string w2 = w + " set " + vp::show( set );
	VP_CHECK( "trim-set", flut::trim_str( s, set.c_str() ) == ref_trim( s, set ), w2 );
	VP_CHECK( "trim-right-set", flut::trim_right_str( s, set.c_str() ) == ref_trim_right( s, set ), w2 );
	vs a = flut::split_str( s, set ), b = ref_split( s, set );
	event( "split parts", a.size() );
	VP_CHECK( "split", a == b, w2 + " -> " + show( a ) );
	// first and last separator
	size_t first = 0; while ( first < s.size() && !in( s[ first ], set ) ) ++first;
	size_t last = s.size(); while ( last > 0 && !in( s[ last - 1 ], set ) ) --last; // index after the last separator, 0 if none
	VP_CHECK( "left-of", flut::left_of_str( s, set ) == string( s.begin(), s.begin() + first ), w2 + " -> " + vp::show( flut::left_of_str( s, set ) ) );
	VP_CHECK( "right-of", flut::right_of_str( s, set ) == string( s.begin() + last, s.end() ), w2 + " -> " + vp::show( flut::right_of_str( s, set ) ) );
	auto kv = flut::make_key_value_str( s, set );
	if ( first < s.size() )
	{
		VP_CHECK( "key", kv.first == ref_trim( string( s.begin(), s.begin() + first ), ws ), w2 + " key " + vp::show( kv.first ) );
		VP_CHECK( "value", kv.second == ref_trim( string( s.begin() + first + 1, s.end() ), ws ), w2 + " value " + vp::show( kv.second ) );
	}
	else VP_CHECK( "key-only", ( kv.first == s || kv.first == ref_trim( s, ws ) ) && kv.second.empty(), w2 + " -> " + vp::show( kv.first ) );

	// left, middle, right
	int n = (int)s.size(), k = r.chance( 1, 4 ) ? n : (int)r.below( n + 1 );
	const string w3 = w + " n=" + num( k );
	VP_CHECK( "left", flut::left_str( s, k ) == string( s.begin(), s.begin() + k ), w3 );
	VP_CHECK( "right", flut::right_str( s, k ) == string( s.end() - k, s.end() ), w3 );
	if ( k > 0 )
	{
		VP_CHECK( "left-drop", flut::left_str( s, -k ) == string( s.begin(), s.end() - k ), w3 + " -> " + vp::show( flut::left_str( s, -k ) ) );
		VP_CHECK( "right-drop", flut::right_str( s, -k ) == string( s.begin() + k, s.end() ), w3 + " -> " + vp::show( flut::right_str( s, -k ) ) );
	}
	VP_CHECK( "left-mid", flut::left_str( s, k ) + flut::mid_str( s, k ) == s, w3 );
	size_t m = r.below( n - k + 1 );
	VP_CHECK( "mid", flut::mid_str( s, k, m ) == string( s.begin() + k, s.begin() + k + m ), w3 + " m=" + num( m ) );

	// begin / end / position of a text
	string t;
	switch ( r.below( 5 ) )
	{
	case 0: t = s.substr( 0, k ); break;
	case 1: t = s.substr( n - k ); break;
	case 2: t = s.substr( k, r.below( 4 ) ); break;
	case 3: t = s.substr( n - k ) + r.pick( { "a", "", "." } ); break;
	default: t = gen( r ).substr( 0, 3 );
	}
	bool begins = t.size() <= s.size() && std::equal( t.begin(), t.end(), s.begin() );
	bool ends = t.size() <= s.size() && std::equal( t.rbegin(), t.rend(), s.rbegin() );
	const string w4 = w + " and " + vp::show( t );
	VP_CHECK( "begins", flut::str_begins_with( s, t ) == begins, w4 );
	VP_CHECK( "ends", flut::str_ends_with( s, t ) == ends, w4 );
	auto it = std::search( s.begin(), s.end(), t.begin(), t.end() );
	size_t pos = flut::in_str( s, t );
	if ( t.empty() || it != s.end() ) VP_CHECK( "in_str", pos == size_t( it - s.begin() ), w4 + " pos " + num( pos ) );
	else VP_CHECK( "in_str-none", pos == flut::no_index, w4 + " pos " + num( pos ) );

	// file names
	string folder = flut::get_filename_folder( s ), file = flut::get_filename_without_folder( s );
	VP_CHECK( "folder+file", folder + file == s, w + " folder " + vp::show( folder ) + " file " + vp::show( file ) );
	VP_CHECK( "file-plain", file.find( '/' ) == string::npos && file.find( '\\' ) == string::npos, w + " file " + vp::show( file ) );
	VP_CHECK( "folder-slash", folder.empty() || folder.back() == '/' || folder.back() == '\\', w + " folder " + vp::show( folder ) );
	string ext = flut::get_filename_ext( s ), stem = flut::get_filename_without_ext( s );
	VP_CHECK( "stem+ext", ext.empty() ? stem == s : stem + "." + ext == s, w + " stem " + vp::show( stem ) + " ext " + vp::show( ext ) );
	size_t dot = file.size(); while ( dot > 0 && file[ dot - 1 ] != '.' ) --dot;
	VP_CHECK( "ext", ext == ( dot ? file.substr( dot ) : string() ), w + " ext " + vp::show( ext ) );
}

// typed values from text
PART( typed, 40000, 1000000 )
{
	// up to 4 values of type int, double, string, long in a random order given by case
	string text = r.text( " \t\n", r.below( 3 ) );
	size_t n = r.below( 10 );
	std::vector< string > words;
	for ( size_t i = 0; i < n; ++i )
	{
		char b[ 40 ];
		switch ( r.below( 6 ) )
		{
		case 0: snprintf( b, sizeof b, "%d", (int)r.range( -100000, 100000 ) ); break;
		case 1: snprintf( b, sizeof b, "%.6g", r.real( -1000, 1000 ) ); break;
		case 2: snprintf( b, sizeof b, "%s", r.pick( { "2147483647", "-2147483648", "0", "-0", "+7", "1e5" } ) ); break;
		case 3: snprintf( b, sizeof b, "%s", r.pick( { "x", "abc", "a1", "_", "-x", "e5" } ) ); break;
		default: snprintf( b, sizeof b, "%d", (int)r.range( 0, 9 ) );
		}
		words.push_back( b ); text += b; if ( i + 1 < n || r.chance( 1, 2 ) ) text += r.text( " \t\n", 1 + r.below( 2 ) );
	}
	const string w = vp::show( text );
	if ( n > 1 ) note( text );
	if ( want_sample() ) sample( w );

	// reference: reads one value at p, returns false if there is none
	const char* p = text.c_str(); auto skip = [&] { while ( *p && strchr( " \t\r\n\f\v", *p ) ) ++p; };
	auto rd_i = [&]( int& v ) { char* e; long x = strtol( p, &e, 10 ); if ( e == p ) return false; v = (int)x; p = e; skip(); return true; };
	auto rd_d = [&]( double& v ) { char* e; double x = strtod( p, &e ); if ( e == p ) return false; v = x; p = e; skip(); return true; };
	auto rd_s = [&]( string& v ) { const char* e = p; while ( *e && !strchr( " \t\r\n\f\v", *e ) ) ++e; if ( e == p ) return false; v = string( p, e ); p = e; skip(); return true; };
	skip();
	int i1 = -7, i2 = -7, j1 = -7, j2 = -7; double d1 = 0.5, e1 = 0.5; string s1 = "?", t1 = "?"; int c = 0, x = 0;
	event( "scan_str" );
	if ( r.chance( 1, 5 ) )
	{
		// many values at once; those not read keep what they held
		int v[ 9 ], u[ 9 ]; string a = "?", b = "?", ra = "?", rb = "?"; double d = 0.5, rd = 0.5; for ( int i = 0; i < 9; ++i ) v[ i ] = u[ i ] = -1000 - i;
		if ( r.chance( 1, 2 ) ) { c = flut::scan_str( text, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], v[ 6 ], v[ 7 ], v[ 8 ] ); for ( x = 0; x < 9 && rd_i( u[ x ] ); ) ++x; }
		else { c = flut::scan_str( text, a, v[ 0 ], d, b, v[ 1 ], v[ 2 ] ); if ( rd_s( ra ) ) { ++x; if ( rd_i( u[ 0 ] ) ) { ++x; if ( rd_d( rd ) ) { ++x; if ( rd_s( rb ) ) { ++x; if ( rd_i( u[ 1 ] ) ) { ++x; if ( rd_i( u[ 2 ] ) ) ++x; } } } } } }
		VP_CHECK( "count-many", c == x, w + " many: " + num( c ) + " expected " + num( x ) );
		for ( int i = 0; i < 9; ++i ) if ( u[ i ] != -1000 - i ) VP_CHECK( "int-many", v[ i ] == u[ i ], w + " value " + num( i ) + " is " + num( v[ i ] ) );
		if ( ra != "?" ) VP_CHECK( "string-many", a == ra, w ); if ( rb != "?" ) VP_CHECK( "string-many", b == rb, w ); if ( x >= 3 && rd != 0.5 ) VP_CHECK( "double-many", d == rd, w );
		event( "scan_str of many values" ); return;
	}
	switch ( r.below( 5 ) )
	{
	case 0:
		c = flut::scan_str( text, i1 ); x = rd_i( j1 );
		VP_CHECK( "count", c == x, w + " int: " + num( c ) ); if ( x > 0 ) VP_CHECK( "int", i1 == j1, w ); break;
	case 1:
		c = flut::scan_str( text, d1, i1 ); x = rd_d( e1 ) ? 1 + rd_i( j1 ) : 0;
		VP_CHECK( "count", c == x, w + " double,int: " + num( c ) + " expected " + num( x ) ); if ( x > 0 ) VP_CHECK( "double", d1 == e1, w ); if ( x > 1 ) VP_CHECK( "int", i1 == j1, w ); break;
	case 2:
		c = flut::scan_str( text, s1, i1, d1 ); x = rd_s( t1 ) ? 1 + ( rd_i( j1 ) ? 1 + rd_d( e1 ) : 0 ) : 0;
		VP_CHECK( "count", c == x, w + " string,int,double: " + num( c ) + " expected " + num( x ) );
		if ( x > 0 ) VP_CHECK( "string", s1 == t1, w ); if ( x > 1 ) VP_CHECK( "int", i1 == j1, w ); if ( x > 2 ) VP_CHECK( "double", d1 == e1, w ); break;
	case 3:
		c = flut::scan_str( text, i1, i2, s1, d1 ); x = rd_i( j1 ) ? 1 + ( rd_i( j2 ) ? 1 + ( rd_s( t1 ) ? 1 + rd_d( e1 ) : 0 ) : 0 ) : 0;
		VP_CHECK( "count", c == x, w + " int,int,string,double: " + num( c ) + " expected " + num( x ) );
		if ( x > 0 ) VP_CHECK( "int", i1 == j1, w ); if ( x > 1 ) VP_CHECK( "int2", i2 == j2, w ); if ( x > 2 ) VP_CHECK( "string", s1 == t1, w ); if ( x > 3 ) VP_CHECK( "double", d1 == e1, w ); break;
	default:
		{
			size_t max = r.chance( 1, 3 ) ? flut::no_index : r.below( 8 );
			std::vector< double > v = flut::str_to_vec< double >( text, max ), f;
			double d; while ( f.size() < max && *p && rd_d( d ) ) f.push_back( d );
			event( "str_to_vec" );
			VP_CHECK( "vec", v == f, w + " max " + num( max ) + " size " + num( v.size() ) + " expected " + num( f.size() ) );
			std::vector< string > vs1 = flut::str_to_vec< string >( text, max );
			size_t k = std::min( max, words.size() );
			VP_CHECK( "vec-string", vs1 == std::vector< string >( words.begin(), words.begin() + k ), w + " max " + num( max ) );
		}
	}
}

// comma separated and long lists
PART( lists, 3000, 60000 )
{
	size_t n = r.len( r.chance( 1, 40 ) ? 70000 : 3000 ); string text; std::vector< int > x;
	for ( size_t i = 0; i < n; ++i ) { x.push_back( (int)r.range( -1000000, 1000000 ) ); if ( i ) text += ","; text += std::to_string( x.back() ); }
	std::vector< int > v = flut::str_to_vec< int >( text, flut::no_index, "," );
	VP_CHECK( "values", v == x, "list of " + num( n ) );
	auto parts = flut::split_str( text, "," );
	VP_CHECK( "split", parts.size() == n, "list of " + num( n ) );
	event( "list values", n );
	note( text );
}
