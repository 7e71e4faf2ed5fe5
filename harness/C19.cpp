// C19 Name lookup, hashing, factories, flag sets and memoization are exact
// vp-rule: random dictionaries (with repeated names), texts, registration orders, flag histories over all storage widths and call sequences, against independent models; non-trivial: at least two entries/characters/flags/calls; counted by contents
#include "flut/dictionary.hpp"
#include "flut/hash.hpp"
#include "flut/factory.hpp"
#include "flut/flag_set.hpp"
#include "flut/memoize.hpp"
#include "common.hpp"
using namespace vp;
using std::string;

// ---- dictionary
template< typename T > struct Dict
{
	typedef std::vector< std::pair< T, string > > ref_t;
	static flut::dictionary< T > make( const ref_t& v )
	{
		switch ( v.size() )
		{
		case 0: return flut::dictionary< T >();
		case 1: return flut::dictionary< T >( { v[ 0 ] } );
		case 2: return flut::make_dictionary< T >( { v[ 0 ], v[ 1 ] } );
		case 3: return flut::dictionary< T >( { v[ 0 ], v[ 1 ], v[ 2 ] } );
		case 5: return flut::make_dictionary< T >( { v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ] } );
#define V8( i ) v[ i ], v[ i + 1 ], v[ i + 2 ], v[ i + 3 ], v[ i + 4 ], v[ i + 5 ], v[ i + 6 ], v[ i + 7 ]
#define V64( i ) V8( i ), V8( i + 8 ), V8( i + 16 ), V8( i + 24 ), V8( i + 32 ), V8( i + 40 ), V8( i + 48 ), V8( i + 56 )
		case 16: return flut::dictionary< T >( { V8( 0 ), V8( 8 ) } );
		case 64: return flut::dictionary< T >( { V64( 0 ) } );
		default: return flut::dictionary< T >( { V64( 0 ), V64( 64 ), V64( 128 ), V64( 192 ), V8( 256 ) } );
		}
	}
};
enum class color { red, green, blue, other };
static std::ostream& operator<<( std::ostream& s, color c ) { return s << int( c ); }
template< typename T > void dictionary_case( Rng& r, std::function< T( Rng& ) > gen )
{
	size_t n = r.below( 5 ); if ( n == 4 ) n = 5;
	typename Dict< T >::ref_t v; string w;
	for ( size_t i = 0; i < n; ++i ) { v.emplace_back( gen( r ), r.text( "ab", r.below( 3 ) ) ); w += vp::show( v.back().second ) + " "; }
	auto d = Dict< T >::make( v );
	for ( int k = 0; k < 6; ++k )
	{
		T e = gen( r ), def = gen( r ); string name = r.text( "ab", r.below( 3 ) );
		const std::pair< T, string >* pe = nullptr; const std::pair< T, string >* pn = nullptr;
		for ( size_t i = n; i--; ) { if ( v[ i ].first == e ) pe = &v[ i ]; if ( v[ i ].second == name ) pn = &v[ i ]; }
		if ( pe ) VP_CHECK( "dictionary-name", d( e ) == pe->second, w ); else VP_CHECK( "dictionary-missing-element", throws( [&] { d( e ); } ), w );
		if ( pn ) VP_CHECK( "dictionary-element", d( name ) == pn->first && d( name, def ) == pn->first, vp::show( name ) + " in " + w );
		else { VP_CHECK( "dictionary-missing-name", throws( [&] { d( name ); } ), vp::show( name ) + " in " + w ); VP_CHECK( "dictionary-default", d( name, def ) == def, w ); }
		event( "dictionary lookup" );
	}
	if ( n > 1 ) note( w );
}
PART( dictionaries, 8000, 100000 )
{
	if ( idx % 3 == 0 ) dictionary_case< int >( r, []( Rng& q ) { return (int)q.range( -3, 3 ); } );
	else if ( idx % 3 == 1 ) dictionary_case< double >( r, []( Rng& q ) { return (double)q.range( -3, 3 ) * 0.5; } );
	else dictionary_case< color >( r, []( Rng& q ) { return color( q.below( 4 ) ); } );
	int a = (int)r.below( 100 ), b = (int)r.below( 100 ), c = (int)r.below( 100 ); string k1 = r.text( "ab", r.below( 3 ) ), k2 = r.text( "ab", r.below( 3 ) ), k3 = r.text( "ab", 1 ), q = r.text( "ab", r.below( 3 ) );
	auto look = [&] { return flut::lookup< int >( q, { { k1.c_str(), a }, { k2.c_str(), b }, { k3.c_str(), c } } ); };
	string w = vp::show( q ) + " in " + vp::show( k1 ) + vp::show( k2 ) + vp::show( k3 );
	if ( q == k1 ) VP_CHECK( "lookup", look() == a, w ); else if ( q == k2 ) VP_CHECK( "lookup", look() == b, w ); else if ( q == k3 ) VP_CHECK( "lookup", look() == c, w ); else VP_CHECK( "lookup-missing", throws( look ), w );
}

template< typename T > void large_dictionary( Rng& r )
{
	size_t n = r.chance( 1, 3 ) ? 16 : r.chance( 1, 2 ) ? 64 : 264; typename Dict< T >::ref_t v; std::vector< int > ids( n ); for ( size_t i = 0; i < n; ++i ) ids[ i ] = (int)i; for ( size_t i = n; i > 1; --i ) std::swap( ids[ i - 1 ], ids[ r.below( i ) ] );
	bool wild = r.chance( 1, 2 ); for ( size_t i = 0; i < n; ++i ) v.emplace_back( T( ids[ i ] * 3 - 50 ), wild ? r.text( "abc", 1 + r.below( 4 ) ) : "name" + num( ids[ i ] ) ); auto d = Dict< T >::make( v );
	for ( size_t i = 0; i < n; ++i ) { size_t first = 0; while ( v[ first ].second != v[ i ].second ) ++first; VP_CHECK( "large-dictionary", d( v[ i ].first ) == v[ i ].second && d( v[ i ].second ) == v[ first ].first && d( v[ i ].second, T( -999 ) ) == v[ first ].first, "entry " + num( i ) + " of " + num( n ) ); VP_CHECK( "large-dictionary-missing", throws( [&] { d( T( int( i ) * 3 - 49 ) ); } ) && d( "no" + v[ i ].second, T( -999 ) ) == T( -999 ), "entry " + num( i ) + " of " + num( n ) ); event( "dictionary lookup" ); }
	note( num( n ) + v[ 0 ].second + v[ 1 ].second );
}
PART( large_dictionaries, 100, 2000 ) { if ( idx % 2 ) large_dictionary< int >( r ); else large_dictionary< double >( r ); }
// ---- hash
static uint64_t fnv1a( const string& s ) { uint64_t h = 14695981039346656037ull; for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return h; }
struct Fixed { const char* s; uint64_t compile_time; };
#define FIX( t_ ) { t_, std::integral_constant< unsigned long long, flut::hash_constexpr( t_ ) >::value }, { t_, std::integral_constant< unsigned long long, t_##_hash >::value }
static const Fixed fixed_texts[] = { FIX( "" ), FIX( "a" ), FIX( "b" ), FIX( "foobar" ), FIX( "hello world" ), FIX( "\x01\x02\x7f" ), FIX( "The quick brown fox jumps over the lazy dog, more than once if need be" ),
	FIX( "\xe9" ), FIX( "na\xc3\xafve" ), FIX( "\xff\xfe\x80" ), FIX( "A" ), FIX( "ab" ), FIX( "ba" ), FIX( "0123456789" ) };
PART( hashes, 30000, 1000000 )
{
	const size_t nf = sizeof( fixed_texts ) / sizeof( fixed_texts[ 0 ] );
	if ( idx < nf )
	{
		const Fixed& f = fixed_texts[ idx ]; string s = f.s; string w = vp::show( s );
		VP_CHECK( "compile-time", f.compile_time == flut::hash( f.s ) && f.compile_time == flut::hash( s ), w );
		bool ascii = true; for ( unsigned char c : s ) ascii = ascii && c < 128;
		if ( ascii ) VP_CHECK( "compile-time-fnv", f.compile_time == fnv1a( s ), w );
	}
	bool ascii = r.chance( 2, 3 ); size_t n = r.chance( 1, 20 ) ? r.len( r.chance( 1, 8 ) ? 70000 : 6000 ) : r.below( 20 ); string s;
	for ( size_t i = 0; i < n; ++i ) s += char( 1 + r.below( ascii ? 127 : 255 ) );
	HeapText h( s ); string w = vp::show( s );
	VP_CHECK( "same-function", flut::hash( h.p ) == flut::hash( s ) && flut::hash( s ) == flut::hash_constexpr( h.p ), w );
	if ( ascii ) VP_CHECK( "fnv-1a", flut::hash( s ) == fnv1a( s ), w );
	event( "hash" ); if ( n > 1 ) note( s );
}

// ---- factory
struct Base { virtual ~Base() {} virtual string name() const = 0; };
namespace inner { struct Alpha : Base { int a; string b; Alpha( int x, const string& y ) : a( x ), b( y ) {} string name() const override { return "Alpha:" + num( a ) + b; } }; }
struct Beta : Base { int a; string b; Beta( int x, const string& y ) : a( x ), b( y ) {} string name() const override { return "Beta:" + num( a ) + b; } };
namespace n1 { namespace n2 { struct Gamma : Base { int a; string b; Gamma( int x, const string& y ) : a( x ), b( y ) {} string name() const override { return "Gamma:" + num( a ) + b; } }; } }
using n1::n2::Gamma;
template< typename T, int N = 1 > struct Delta : Base { int a; string b; Delta( int x, const string& y ) : a( x ), b( y ) {} string name() const override { return "Delta:" + num( a ) + b; } };
namespace n1 { template< typename T > struct Epsilon : Base { int a; string b; Epsilon( int x, const string& y ) : a( x ), b( y ) {} string name() const override { return "Epsilon:" + num( a ) + b; } struct Inside : Epsilon< T > { using Epsilon< T >::Epsilon; string name() const override { return "Inside:" + num( this->a ) + this->b; } }; }; }
PART( template_names, 300, 5000 )
{
	flut::factory< Base, int, const string& > f; std::vector< std::pair< string, string > > known; string w;
	auto add = [&]( const string& type, const string& what ) { known.emplace_back( type, what ); w += " " + type; };
	std::vector< int > order = { 0, 1, 2, 3, 4, 5, 6 }; for ( size_t i = order.size(); i > 1; --i ) std::swap( order[ i - 1 ], order[ r.below( i ) ] ); order.resize( 1 + r.below( order.size() ) );
	for ( int k : order ) switch ( k )
	{
	case 0: f.register_class< Delta< int > >(); add( "Delta<int, 1>", "Delta" ); break;
	case 1: f.register_class< Delta< n1::n2::Gamma > >(); add( "Delta<n1::n2::Gamma, 1>", "Delta" ); break;
	case 2: f.register_class< n1::Epsilon< n1::n2::Gamma > >(); add( "Epsilon<n1::n2::Gamma>", "Epsilon" ); break;
	case 3: f.register_class< n1::Epsilon< unsigned int > >(); add( "Epsilon<unsigned int>", "Epsilon" ); break;
	case 4: f.register_class< n1::Epsilon< n1::Epsilon< inner::Alpha > > >(); add( "Epsilon<n1::Epsilon<inner::Alpha> >", "Epsilon" ); break;
	case 5: f.register_class< n1::Epsilon< inner::Alpha >::Inside >(); add( "Inside", "Inside" ); break;
	default: f.register_class< inner::Alpha >(); add( "Alpha", "Alpha" );
	}
	for ( auto& k : known ) { VP_CHECK( "template-name", f.has_type( k.first ), "no " + k.first + " among" + w ); string b = r.text( "ab", r.below( 4 ) ); int a = (int)r.range( -9, 9 ); VP_CHECK( "template-made", f.create( k.first, a, b )->name() == k.second + ":" + num( a ) + b, k.first + " among" + w ); event( "template classes created" ); }
	note( w ); if ( want_sample() ) sample( w );
}
PART( factories, 6000, 100000 )
{
	flut::factory< Base, int, const string& > f; std::map< string, int > ref; string trace;
	VP_CHECK( "factory-empty", f.empty(), "" );
	for ( size_t s = 1 + r.below( 12 ); s; --s )
	{
		string n = r.pick( { "a", "b", "Alpha", "Beta", "", "with space" } ); if ( r.chance( 1, 6 ) ) { n = string( r.pick( { "31", "63", "64", "255", "2000" } ) == string( "31" ) ? 31 : r.chance( 1, 2 ) ? 64 : 300, 'n' ) + r.text( "ab", r.below( 3 ) ); } int which = (int)r.below( 3 ); bool own = r.chance( 1, 4 );
		if ( own ) n = which == 0 ? "Alpha" : which == 1 ? "Beta" : "Gamma";
		if ( r.chance( 1, 2 ) )
		{
			switch ( which ) { case 0: own ? f.register_class< inner::Alpha >() : f.register_class< inner::Alpha >( n ); break; case 1: own ? f.register_class< Beta >() : f.register_class< Beta >( n ); break; default: own ? f.register_class< Gamma >() : f.register_class< Gamma >( n ); }
			ref[ n ] = which; trace += " " + n + "=" + num( which );
		}
		int x = (int)r.below( 1000 ); string y = r.text( "xyz", r.below( 5 ) );
		const char* names[] = { "Alpha:", "Beta:", "Gamma:" };
		VP_CHECK( "factory-has", f.has_type( n ) == ( ref.count( n ) > 0 ) && f.empty() == ref.empty(), n + " after" + trace );
		if ( ref.count( n ) )
		{
			string expect = names[ ref[ n ] ] + num( x ) + y;
			VP_CHECK( "factory-type", f.create( n, x, y )->name() == expect && f( n, x, y )->name() == expect && f[ n ]( x, y )->name() == expect && f.try_create( n, x, y )->name() == expect, n + " after" + trace );
		}
		else VP_CHECK( "factory-unknown", throws( [&] { f.create( n, x, y ); } ) && throws( [&] { f( n, x, y ); } ) && throws( [&] { f[ n ]; } ) && !f.try_create( n, x, y ), n + " after" + trace );
		event( "factory call" );
	}
	if ( idx % 40 == 0 )
	{
		// many names, registered again and again: the last registration counts
		flut::factory< Base, int, const string& > g; std::map< string, int > last; size_t n = 1 + r.below( 300 ); const char* names[] = { "Alpha:", "Beta:", "Gamma:" };
		for ( size_t i = 0; i < 3 * n; ++i )
		{
			string k = "type" + num( r.below( n ) ); int which = (int)r.below( 3 ); if ( which == 0 ) g.register_class< inner::Alpha >( k ); else if ( which == 1 ) g.register_class< Beta >( k ); else g.register_class< Gamma >( k ); last[ k ] = which;
			if ( r.chance( 1, 4 ) ) { string q = "type" + num( r.below( n ) ); VP_CHECK( "factory-many-has", g.has_type( q ) == ( last.count( q ) > 0 ), q ); if ( last.count( q ) ) VP_CHECK( "factory-many", g.create( q, 7, "y" )->name() == names[ last[ q ] ] + string( "7y" ), q + " of " + num( last.size() ) + " names" ); }
			VP_CHECK( "factory-many-now", g.create( k, 1, "z" )->name() == names[ which ] + string( "1z" ), k + " of " + num( last.size() ) + " names, registered again" );
		}
		for ( auto& e : last ) VP_CHECK( "factory-many", g( e.first, 3, "x" )->name() == names[ e.second ] + string( "3x" ), e.first + " of " + num( last.size() ) + " names" ); event( "factory call", 3 * n );
	}
	if ( ref.size() > 1 ) note( trace );
}

// ---- flags
enum class flag {};
template< typename E, typename S > void flag_history( Rng& r )
{
	const int bits = sizeof( S ) * 8; flut::flag_set< E, S > f; std::vector< bool > ref( bits ); string trace; size_t sets = 0;
	if ( r.chance( 1, 3 ) ) { E a = E( r.below( bits ) ), b = E( r.below( bits ) ); f = flut::flag_set< E, S >{ a, b }; ref[ int( a ) ] = ref[ int( b ) ] = true; trace += "init"; }
	for ( size_t s = r.below( 60 ); s; --s )
	{
		int i = (int)( r.chance( 1, 4 ) ? bits - 1 - r.below( 2 ) : r.below( bits ) ), j = (int)r.below( bits ), k = (int)r.below( bits ); bool v = r.chance( 1, 2 );
		switch ( r.below( 11 ) )
		{
		case 0: case 1: f.set( E( i ) ); ref[ i ] = true; trace += " set" + num( i ); ++sets; break;
		case 2: f.clear( E( i ) ); ref[ i ] = false; trace += " clear" + num( i ); break;
		case 3: case 4: f.set( E( i ), v ); ref[ i ] = v; trace += " set" + num( i ) + "=" + num( v ); break;
		case 5: f.set( { E( i ), E( j ), E( k ) } ); ref[ i ] = ref[ j ] = ref[ k ] = true; trace += " setlist"; break;
		case 6: { std::initializer_list< E > none; f.clear( none ); f.set( none ); } f.clear( { E( i ), E( j ), E( k ) } ); ref[ i ] = ref[ j ] = ref[ k ] = false; trace += " clearlist"; break;
		case 7: if ( r.chance( 1, 4 ) ) { f.clear(); ref.assign( bits, false ); trace += " clearall"; } break;
		case 8: { const E last = E( sizeof( S ) * 8 - 1 ); f.template set< last >(); f.template set< E( 3 ) >( v ); ref[ bits - 1 ] = true; ref[ 3 ] = v; trace += " tset"; break; }
		case 9: { f.template clear< E( sizeof( S ) * 8 - 1 ) >(); f.template clear< E( 0 ) >(); ref[ bits - 1 ] = ref[ 0 ] = false; trace += " tclear"; break; }
		default: { flut::flag_set< E, S > g( f ), h; h = f; g.set( E( i ), !ref[ i ] ); h.clear(); trace += " copy"; VP_CHECK( "flag-copy", g.get( E( i ) ) == !ref[ i ] && !h.any(), trace ); }
		}
		bool any = false;
		for ( int b = 0; b < bits; ++b ) { any = any || ref[ b ]; VP_CHECK( "flag", f.get( E( b ) ) == ref[ b ] && f( E( b ) ) == ref[ b ], "flag " + num( b ) + " of " + num( bits ) + " after " + trace ); }
		VP_CHECK( "flag-any", f.any() == any, trace );
		VP_CHECK( "flag-static", f.template get< E( sizeof( S ) * 8 - 1 ) >() == ref[ bits - 1 ] && f.template get< E( 5 ) >() == ref[ 5 ], trace );
		event( "flag operation" );
	}
	if ( sets > 1 ) note( trace + num( bits ) );
}
enum plain_flag { first_flag };
enum class wide_flag : uint64_t { first };
PART( flags, 8000, 150000 )
{
	switch ( idx % 4 ) { case 0: flag_history< flag, unsigned int >( r ); break; case 1: flag_history< flag, uint64_t >( r ); break; case 2: flag_history< flag, uint8_t >( r ); break; default: flag_history< flag, uint16_t >( r ); }
}

// ---- memoize
PART( memoized_references, 2000, 40000 )
{
	std::map< std::pair< string, int >, int > calls; flut::memoize< string( const string&, const int& ) > m( [&]( const string& a, const int& b ) { ++calls[ { a, b } ]; return a + "/" + num( b ); } ); string trace;
	for ( size_t n = 2 + r.below( 40 ); n; --n )
	{
		std::unique_ptr< string > a( new string( ( r.chance( 1, 2 ) ? string( 40, 'k' ) : "" ) + r.text( "ab", r.below( 3 ) ) ) ); std::unique_ptr< int > b( new int( (int)r.range( -2, 2 ) ) ); string keep = *a; int kept = *b; trace += " " + num( kept ) + keep;
		string res = m( *a, *b ); VP_CHECK( "memo-reference", res == keep + "/" + num( kept ), trace + " gives " + res ); if ( r.chance( 1, 2 ) ) { a->assign( "changed afterwards, and a rather long text" ); *b = 77; } event( "memoized call by reference" );
	}
	for ( auto& c : calls ) VP_CHECK( "memo-reference-once", c.second == 1, num( c.second ) + " calls for " + c.first.first + trace ); note( trace ); if ( want_sample() ) sample( trace );
}
PART( memoized, 8000, 150000 )
{
	string trace; size_t n = r.chance( 1, 20 ) ? r.len( 500 ) : r.below( 30 );
	{
		std::map< std::pair< int, string >, int > calls; std::vector< std::pair< int, string > > order;
		flut::memoize< string( int, string ) > m( [&]( int a, string b ) { ++calls[ { a, b } ]; order.push_back( { a, b } ); return num( a ) + "/" + b; } );
		std::set< std::pair< int, string > > seen; std::vector< std::pair< int, string > > expect;
		for ( size_t i = 0; i < n; ++i )
		{
			int a = (int)r.range( -2, 2 ); string b = r.text( "ab", r.below( 3 ) ); trace += " " + num( a ) + b;
			string res = m( a, b ); if ( seen.insert( { a, b } ).second ) expect.push_back( { a, b } );
			VP_CHECK( "memo-result", res == num( a ) + "/" + b, trace ); event( "memoized call" );
			VP_CHECK( "memo-calls", order == expect, num( order.size() ) + " calls of the function, expected " + num( expect.size() ) + " after" + trace );
		}
		for ( auto& c : calls ) VP_CHECK( "memo-once", c.second == 1, trace );
	}
	{
		// results equal to the default value are remembered too; copies keep what is known
		int count = 0; flut::memoize< int( int ) > m( [&]( int a ) { ++count; return a / 3; } ); std::set< int > seen;
		for ( size_t i = 0; i < n; ++i ) { int a = (int)r.range( -4, 4 ); if ( r.chance( 1, 10 ) ) a = r.chance( 1, 2 ) ? std::numeric_limits< int >::max() : std::numeric_limits< int >::min(); seen.insert( a ); VP_CHECK( "memo-int", m( a ) == a / 3 && m( a ) == a / 3 && count == (int)seen.size(), num( a ) + ": " + num( count ) + " calls for " + num( seen.size() ) + " arguments" ); }
		auto copy = m; for ( int a : seen ) VP_CHECK( "memo-copy", copy( a ) == a / 3 && count == (int)seen.size(), num( a ) );
	}
	{
		int count = 0; std::function< long( long ) > fib; flut::memoize< long( long ) > m( [&]( long k ) -> long { ++count; return k < 2 ? k : fib( k - 1 ) + fib( k - 2 ); } ); fib = [&]( long k ) { return m( k ); };
		long k = r.range( 0, 60 ), a = 0, b = 1; for ( long i = 0; i < k; ++i ) { long c = a + b; a = b; b = c; }
		VP_CHECK( "memo-recursive", m( k ) == a && count == std::max( 1L, k + ( k >= 2 ? 1 : 0 ) ), num( k ) + " took " + num( count ) + " calls" );
	}
	{
		// a call that fails is no result: it fails again, and a later success is remembered
		std::map< int, int > calls; std::set< int > bad, done; flut::memoize< int( int ) > m( [&]( int a ) -> int { ++calls[ a ]; if ( bad.count( a ) ) throw std::runtime_error( "refused" ); return a * 3 + 1; } ); std::map< int, int > want;
		for ( size_t i = 0; i < n; ++i )
		{
			int a = (int)r.range( -5, 5 ); if ( r.chance( 1, 2 ) ) bad.insert( a ); else bad.erase( a ); bool known = done.count( a ), ok = known || !bad.count( a ); if ( !known ) ++want[ a ]; bool threw = false; int res = 0; try { res = m( a ); } catch ( std::runtime_error& ) { threw = true; }
			VP_CHECK( "memo-failure", threw == !ok && ( threw || res == a * 3 + 1 ) && calls == want, num( a ) + ( threw ? " threw" : " gave " + num( res ) ) + ", " + num( calls[ a ] ) + " calls, expected " + num( want[ a ] ) ); if ( ok ) done.insert( a ); event( threw ? "memoized failure" : "memoized call" );
		}
	}
	if ( idx % 100 == 0 )
	{
		// many distinct arguments: everything stays known, however much there is
		size_t m = r.chance( 1, 4 ) ? 20000 : 500 + r.below( 6000 ); size_t count = 0; flut::memoize< size_t( size_t, int ) > f( [&]( size_t a, int b ) { ++count; return a * 7 + b; } );
		for ( int pass = 0; pass < 2; ++pass ) for ( size_t i = 0; i < m; ++i ) { size_t a = pass ? m - 1 - i : i; VP_CHECK( "memo-many", f( a, int( a % 3 ) ) == a * 7 + a % 3 && count == ( pass ? m : i + 1 ), num( count ) + " calls for " + num( m ) + " arguments" ); }
		event( "memoized call", 2 * m );
	}
	if ( n > 1 ) note( trace );
}
