// C12 Values stored in a property tree or as text come back unchanged
// vp-rule: boundary-heavy values of every supported type through text, property nodes, keys, delimited keys and vectors; non-trivial: not zero/empty; counted by type and value
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounds.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;
using flut::prop_node;
using namespace flut::math;

/// the value is equal to what was stored through every route
template< typename T, typename Eq > void routes( const char* type, const T& v, Eq eq, const string& w )
{
	string txt = flut::to_str( v );
	VP_CHECK( string( type ) + "-text", eq( flut::from_str< T >( txt ), v ), w + " as text " + vp::show( txt ) );
	prop_node pn = flut::make_prop_node( v );
	VP_CHECK( string( type ) + "-node", eq( pn.get< T >(), v ), w );
	prop_node p2; p2.set( "k", v ); p2.push_back( "l", v ); p2.set_delimited( "a.b.c", v ); p2[ "m" ] = v; p2[ "n" ].set( v ); p2[ "o" ].set_value( v );
	const prop_node& c = p2;
	VP_CHECK( string( type ) + "-set", eq( c.get< T >( "k" ), v ) && eq( c.get< T >( "k", T() ), v ), w );
	VP_CHECK( string( type ) + "-push_back", eq( c.get< T >( "l" ), v ), w );
	VP_CHECK( string( type ) + "-delimited", eq( c.get_delimited< T >( "a.b.c" ), v ) && eq( c[ "a" ][ "b" ].get< T >( "c" ), v ), w );
	VP_CHECK( string( type ) + "-assign", eq( c.get< T >( "m" ), v ) && eq( c.get< T >( "n" ), v ) && eq( c.get< T >( "o" ), v ), w );
	VP_CHECK( string( type ) + "-default", eq( c.get< T >( "missing", v ), v ), w );
	VP_CHECK( string( type ) + "-any", eq( c.get_any< T >( { "missing", "k" }, T() ), v ), w );
	prop_node copy( p2 ); VP_CHECK( string( type ) + "-copy", eq( copy.get< T >( "k" ), v ), w );
	p2.set( "k", v ); VP_CHECK( string( type ) + "-again", p2.size() == 6 && eq( p2.get< T >( "k" ), v ), w );
	event( type );
	note( string( type ) + txt );
}
template< typename T > bool exact( const T& a, const T& b ) { return a == b; }

template< typename T > T integer( Rng& r )
{
	typedef std::numeric_limits< T > L;
	switch ( r.below( 5 ) )
	{
	case 0: { T e[] = { L::min(), L::max(), T( L::min() + 1 ), T( L::max() - 1 ), T( 0 ), T( 1 ), T( -1 ), T( 10 ), T( 9 ) }; return e[ r.below( 9 ) ]; }
	case 1: return T( uint64_t( 1 ) << r.below( sizeof( T ) * 8 ) );
	case 2: return T( ( uint64_t( 1 ) << r.below( sizeof( T ) * 8 ) ) - 1 );
	case 3: return T( r.range( -1000, 1000 ) );
	default: return T( r.next() >> r.below( 64 ) );
	}
}
template< typename T > void vec_route( const char* type, const std::vector< T >& v )
{
	prop_node pn; pn.set( "vec", v );
	const prop_node& c = pn; string w = string( type ) + " vector of " + num( v.size() );
	VP_CHECK( string( type ) + "-vector", c.get< std::vector< T > >( "vec" ) == v, w );
	VP_CHECK( string( type ) + "-vector-size", c.get_child( "vec" ).size() == v.size(), w );
	prop_node q = flut::make_prop_node( v ); VP_CHECK( string( type ) + "-vector-node", q.get< std::vector< T > >() == v, w );
	pn.set_delimited( "p.q", v ); VP_CHECK( string( type ) + "-vector-delimited", pn.get_delimited< std::vector< T > >( "p.q" ) == v, w );
	VP_CHECK( string( type ) + "-vector-default", c.get< std::vector< T > >( "none", v ) == v, w );
	// the elements are the children in their order, whatever they are called
	prop_node named; const char* names[] = { "b", "a", "item1", "item0", "", "a", "10", "9" };
	for ( size_t i = 0; i < v.size(); ++i ) named.push_back( names[ i % 8 ], v[ i ] );
	VP_CHECK( string( type ) + "-vector-order", named.get< std::vector< T > >() == v, w + " with other keys" );
	event( "vector" );
}
enum Plain { p_neg = -5, p0 = 0, p1 = 1, p_big = 2147483647 };
enum class Small : unsigned char { a = 0, b = 65, c = 255, d = 10 };
enum class Wide : long long { a = 0, b = 5000000000ll, c = -5000000001ll, d = 9223372036854775807ll };
enum class Flags : unsigned long long { a = 1, b = 0x8000000000000001ull, c = ~0ull, d = 1ull << 40 };
enum class Scoped { a, b = 7, c = -2147483647 };

#define INTEGER( T ) { T v = integer< T >( r ); routes< T >( #T, v, exact< T >, string( #T " " ) + num( v ) ); }
PART( integers, 30000, 700000 )
{
	INTEGER( int ) INTEGER( unsigned ) INTEGER( long ) INTEGER( unsigned long ) INTEGER( long long ) INTEGER( unsigned long long )
	{ short v = integer< short >( r ); routes< short >( "short", v, exact< short >, "short " + num( (int)v ) ); }
	{ unsigned short v = integer< unsigned short >( r ); routes< unsigned short >( "ushort", v, exact< unsigned short >, "ushort " + num( (int)v ) ); }
	{ bool v = r.chance( 1, 2 ); routes< bool >( "bool", v, exact< bool >, "bool " + num( v ) ); }
	{ Plain e[] = { p_neg, p0, p1, p_big }; Plain v = e[ r.below( 4 ) ]; routes< Plain >( "enum", v, exact< Plain >, "enum " + num( (int)v ) ); }
	{ Scoped e[] = { Scoped::a, Scoped::b, Scoped::c }; Scoped v = e[ r.below( 3 ) ]; routes< Scoped >( "enum-class", v, exact< Scoped >, "enum class " + num( (int)v ) ); }
	{ Small e[] = { Small::a, Small::b, Small::c, Small::d }; Small v = e[ r.below( 4 ) ]; routes< Small >( "enum-8bit", v, exact< Small >, "enum class of char " + num( (int)v ) ); }
	{ Wide e[] = { Wide::a, Wide::b, Wide::c, Wide::d }; Wide v = e[ r.below( 4 ) ]; routes< Wide >( "enum-64bit", v, exact< Wide >, "enum class of long long " + num( (long long)v ) ); }
	{ Flags e[] = { Flags::a, Flags::b, Flags::c, Flags::d }; Flags v = e[ r.below( 4 ) ]; routes< Flags >( "enum-u64bit", v, exact< Flags >, "enum class of unsigned long long " + num( (unsigned long long)v ) ); }
	if ( want_sample() ) sample( "long long " + num( integer< long long >( r ) ) );
	evals( 11 );
}
PART( texts, 20000, 500000 )
{
	string s = r.bytes( r.chance( 1, 30 ) ? r.len( r.chance( 1, 30 ) ? 140000 : 5000 ) : r.below( 20 ) );
	routes< string >( "string", s, exact< string >, vp::show( s ) );
	routes< flut::path >( "path", flut::path( s ), []( const flut::path& a, const flut::path& b ) { return a == b; }, vp::show( s ) );
	prop_node pn; pn.set( "lit", "literal text" ); VP_CHECK( "literal", pn.get< string >( "lit" ) == "literal text", "" ); HeapText ct( s ); VP_CHECK( "c-text", flut::to_str< const char* >( ct.p ) == ct.p, vp::show( s ) ); { const prop_node src = prop_node().set( "k", s ); VP_CHECK( "node-of-node", flut::make_prop_node( src ) == src && prop_node().set( "n", src ).get< prop_node >( "n" ) == src, vp::show( s ) ); }
	if ( want_sample() ) sample( vp::show( s ) );
	evals( 1 );
}
PART( vectors, 3000, 60000 )
{
	size_t n = r.chance( 1, 10 ) ? r.len( r.chance( 1, 20 ) ? 12000 : 1500 ) : r.below( 20 );
	std::vector< int > vi; std::vector< string > vstr; std::vector< unsigned long long > vu; std::vector< bool > vb; std::vector< std::vector< int > > vv; std::vector< long > vl; std::vector< flut::path > vpath;
	for ( size_t i = 0; i < n; ++i )
	{
		vi.push_back( integer< int >( r ) ); vstr.push_back( r.bytes( r.below( 10 ) ) ); vu.push_back( integer< unsigned long long >( r ) ); vb.push_back( r.chance( 1, 2 ) ); vl.push_back( integer< long >( r ) );
		if ( i < 50 ) { vv.emplace_back(); for ( size_t k = r.below( 5 ); k; --k ) vv.back().push_back( integer< int >( r ) ); }
	}
	vec_route( "int", vi ); vec_route( "string", vstr ); vec_route( "ull", vu ); vec_route( "bool", vb ); vec_route( "nested", vv ); vec_route( "long", vl );
	note( r.next() ); if ( want_sample() ) sample( "vectors of " + num( n ) );
}

static double decimal( Rng& r )
{
	switch ( r.below( 6 ) )
	{
	case 0: return r.pickd( { 0, -0.0, 0.5, -0.5, 1e-6, 1e-7, 4.9e-7, 5.1e-7, -1e-6, 0.1, 1e15, -1e15, 1e22, 1e300, -1e300, 1.7976931348623157e308, 123456.789012 } );
	case 1: return r.range( -1000000, 1000000 ) / 1e6;
	case 2: return (double)r.range( -1000000000, 1000000000 );
	case 3: return std::ldexp( r.real( -1, 1 ), (int)r.range( -40, 60 ) );
	default: return r.real( -1000, 1000 );
	}
}
template< typename T > bool close( T a, T b ) { return std::fabs( (long double)a - (long double)b ) <= 5.0e-7L * 1.0001L + std::fabs( (long double)b ) * std::numeric_limits< T >::epsilon(); }
PART( decimals, 30000, 700000 )
{
	double d = decimal( r ); float f = (float)decimal( r ); if ( !std::isfinite( f ) ) f = std::numeric_limits< float >::max();
	routes< double >( "double", d, close< double >, "double " + num( d ) );
	routes< float >( "float", f, close< float >, "float " + num( f ) );
	// one more round trip changes nothing
	double d1 = flut::from_str< double >( flut::to_str( d ) ), d2 = flut::from_str< double >( flut::to_str( d1 ) );
	VP_CHECK( "double-stable", d1 == d2, num( d ) );
	std::vector< double > v; for ( size_t n = r.below( 8 ); n; --n ) v.push_back( flut::from_str< double >( flut::to_str( decimal( r ) ) ) );
	vec_route( "double", v );

	auto cv = []( const vec3& a, const vec3& b ) { return close( a.x, b.x ) && close( a.y, b.y ) && close( a.z, b.z ); };
	auto cq = []( const quat& a, const quat& b ) { return close( a.w, b.w ) && close( a.x, b.x ) && close( a.y, b.y ) && close( a.z, b.z ); };
	vec3 p( decimal( r ), decimal( r ), decimal( r ) ); quat q( decimal( r ), decimal( r ), decimal( r ), decimal( r ) ); transform t( p, q );
	string w = "vec3 " + num( p.x ) + " " + num( p.y ) + " " + num( p.z );
	prop_node pn; pn.set( "v", p ).set( "q", q ).set( "t", t ); pn.set_delimited( "x.v", p );
	const prop_node& c = pn;
	VP_CHECK( "vec3", cv( c.get< vec3 >( "v" ), p ) && cv( c.get< vec3 >( "v", vec3() ), p ) && cv( c.get_delimited< vec3 >( "x.v" ), p ), w );
	VP_CHECK( "quat", cq( c.get< quat >( "q" ), q ), w + " quat " + num( q.w ) );
	transform t2 = c.get< transform >( "t" ); VP_CHECK( "transform", cv( t2.p, p ) && cq( t2.q, q ), w );
	vec3f pf( (float)r.real( -99, 99 ), (float)r.real( -99, 99 ), (float)r.real( -99, 99 ) ); quatf qf( (float)r.unit(), (float)r.unit(), (float)r.unit(), (float)r.unit() );
	pn.set( "vf", pf ).set( "qf", qf ).set( "tf", transformf( pf, qf ) );
	vec3f rf = pn.get< vec3f >( "vf" ); quatf sf = pn.get< quatf >( "qf" ); transformf tf = pn.get< transformf >( "tf" );
	VP_CHECK( "vec3f", close( rf.x, pf.x ) && close( rf.y, pf.y ) && close( rf.z, pf.z ), w );
	VP_CHECK( "quatf", close( sf.w, qf.w ) && close( sf.x, qf.x ) && close( sf.y, qf.y ) && close( sf.z, qf.z ), w );
	VP_CHECK( "transformf", close( tf.p.z, pf.z ) && close( tf.q.w, qf.w ), w );
	std::vector< vec3 > vv; for ( size_t n = r.below( 5 ); n; --n ) vv.push_back( vec3( r.real( -9, 9 ), r.real( -9, 9 ), r.real( -9, 9 ) ) );
	pn.set( "vv", vv ); auto vb = pn.get< std::vector< vec3 > >( "vv" ); bool same = vb.size() == vv.size(); for ( size_t i = 0; same && i < vv.size(); ++i ) same = cv( vb[ i ], vv[ i ] );
	VP_CHECK( "vec3-vector", same, "vector of " + num( vv.size() ) );
	// a vector given as plain text
	int a = (int)r.range( -99, 99 ), b = (int)r.range( -99, 99 ), e = (int)r.range( -99, 99 );
	vec3 tv( prop_node( flut::stringf( r.pick( { "%d %d %d", " %d\t%d  %d " } ), a, b, e ) ) ); VP_CHECK( "vec3-text", tv.x == a && tv.y == b && tv.z == e, num( a ) + " " + num( b ) + " " + num( e ) );
	event( "geometry" ); evals( 4 );
	if ( want_sample() ) sample( w );
}

template< typename T > void range_case( Rng& r, T a, T b, const string& ta, const string& tb )
{
	typedef flut::bounds< T > B;
	const string w = ta + " .. " + tb;
	B x{ prop_node( string( ta + ".." + tb ) ) }; VP_CHECK( "range-text", x.lower == a && x.upper == b, w + " read as " + num( x.lower ) + " " + num( x.upper ) );
	B y{ prop_node( string( ta ) ) }; VP_CHECK( "range-single", y.lower == a && y.upper == a, ta );
	prop_node mm; if ( r.chance( 1, 2 ) ) { mm.set( "min", ta ); mm.set( "max", tb ); } else { mm.set( "upper", tb ); mm.set( "lower", ta ); }
	B z{ mm }; VP_CHECK( "range-children", z.lower == a && z.upper == b, w );
	prop_node lo; lo.set( r.chance( 1, 2 ) ? "min" : "lower", ta ); B l{ lo }; VP_CHECK( "range-lower-only", l.lower == a && l.upper == std::numeric_limits< T >::max(), ta );
	prop_node hi; hi.set( r.chance( 1, 2 ) ? "max" : "upper", tb ); B h{ hi }; VP_CHECK( "range-upper-only", h.upper == b && h.lower == std::numeric_limits< T >::lowest(), tb );
	VP_CHECK( "range-empty", throws( [&] { B e{ prop_node() }; } ), "empty node" );
	event( "range" ); note( w );
}
PART( ranges, 10000, 200000 )
{
	int a = (int)r.range( -1000000, 1000000 ), b = (int)r.range( -1000000, 1000000 );
	range_case< int >( r, a, b, std::to_string( a ), std::to_string( b ) );
	range_case< double >( r, a, b, std::to_string( a ), std::to_string( b ) );
	string ta = flut::to_str( r.real( -10, 10 ) ), tb = flut::to_str( r.real( -10, 10 ) );
	range_case< double >( r, strtod( ta.c_str(), 0 ), strtod( tb.c_str(), 0 ), ta, tb );
	range_case< float >( r, strtof( ta.c_str(), 0 ), strtof( tb.c_str(), 0 ), ta, tb );
	evals( 3 );
}
template< typename T > void not_number( const string& s )
{
	VP_CHECK( "no-number", throws( [&] { flut::from_str< T >( s ); } ), vp::show( s ) + " read as " + typeid( T ).name() );
	VP_CHECK( "no-number-is", !flut::string_is< T >( s ), vp::show( s ) );
	prop_node pn; pn.set( "k", s ); VP_CHECK( "no-number-node", throws( [&] { pn.get< T >( "k" ); } ) && throws( [&] { pn.get< T >( "k", T( 1 ) ); } ), vp::show( s ) );
}
PART( no_numbers, 4000, 60000 )
{
	string s = r.chance( 1, 3 ) ? string( r.pick( { "", "-", "+", ".", "x", "abc", " ", "one", "--1", "e5", "=3", "\"1\"", "\n" } ) ) : string( 1, "xyzqw_$#/"[ r.below( 9 ) ] ) + r.text( "abc019 .-", r.below( 8 ) );
	not_number< double >( s ); not_number< float >( s ); not_number< long >( s ); not_number< long long >( s ); not_number< unsigned long >( s ); not_number< unsigned long long >( s );
	event( "no number" ); note( s );
}
// settings read and written by variable name
PART( named, 3000, 50000 )
{
	int count_ = integer< int >( r ); double m_scale = r.range( -1000, 1000 ) / 8.0; string name = r.bytes( r.below( 8 ) ); bool flag_ = r.chance( 1, 2 );
	int c0 = count_; double s0 = m_scale; string n0 = name; bool f0 = flag_;
	prop_node pn; SET_PROP( pn, count_ ); SET_PROP( pn, m_scale ); SET_PROP( pn, name ); SET_PROP_NAMED( pn, flag_, "the flag" );
	count_ = 0; m_scale = 0; name = ""; flag_ = !f0;
	INIT_PROP( pn, count_, 1 ); INIT_PROP_REQUIRED( pn, m_scale ); INIT_PROP( pn, name, "other" ); INIT_PROP_NAMED( pn, flag_, "the flag", !f0 );
	VP_CHECK( "named", count_ == c0 && m_scale == s0 && name == n0 && flag_ == f0, num( c0 ) + " " + num( s0 ) + " " + vp::show( n0 ) );
	int other_ = 5; INIT_PROP( pn, other_, 77 ); VP_CHECK( "named-default", other_ == 77, "" );
	VP_CHECK( "named-required", throws( [&] { INIT_PROP_REQUIRED( pn, other_ ); } ), "" );
	event( "named" ); note( n0 + std::to_string( c0 ) );
}
// the key of a variable: its name without class, m_ prefix and outer underscores
PART( identifiers, 3000, 50000 )
{
	string core = string( 1, "abxyz"[ r.below( 5 ) ] ); if ( r.chance( 3, 4 ) ) core += r.text( "abcm_019", r.below( 10 ) ) + "z"; if ( core[ 0 ] == 'm' ) core[ 0 ] = 'n'; string tail( r.below( 3 ), '_' ), id; int form = (int)r.below( 4 );
	switch ( form ) { case 0: id = core + tail; break; case 1: id = "m_" + core + tail; break; case 2: id = string( 1 + r.below( 2 ), '_' ) + core + tail; break; default: id = string( r.pick( { "ns::cls::", "cls::", "::", "m_ns::" } ) ) + string( r.below( 2 ), '_' ) + core + tail; }
	string want = core;
	if ( form == 1 && r.chance( 1, 4 ) ) { size_t n = 1 + r.below( 2 ); id.insert( 2, n, '_' ); want.insert( 0, n, '_' ); event( "m_ and underscores" ); }
	if ( form == 3 && r.chance( 1, 4 ) ) { id = "cls::m_" + core + tail; want = "m_" + core; event( "qualified m_" ); }
	string got = flut::tidy_identifier( id ); VP_CHECK( "identifier", got == want, id + " gives " + vp::show( got ) ); event( form == 1 ? "m_ prefix" : form == 3 ? "qualified" : "plain" ); note( id );
}
