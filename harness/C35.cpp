// C35 Independent objects used in parallel threads do not interfere
// vp-rule: 2-8 threads run random mixes of jobs (texts, streams, property trees, the three file formats, includes, paths, containers, tables, filters, generators, timers, shared read-only objects) on objects and files of their own, with injected pauses; every job's result is compared with the same job run alone; logging threads share a sink that locks; counted by the order in which the jobs ended
// vp-builds: tsan,asan
#include "flut/string_tools.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/system_tools.hpp"
#include "flut/filesystem.hpp"
#include "flut/pattern_matcher.hpp"
#include "flut/dictionary.hpp"
#include "flut/flat_map.hpp"
#include "flut/sorted_vector.hpp"
#include "flut/circular_deque.hpp"
#include "flut/memoize.hpp"
#include "flut/factory.hpp"
#include "flut/filter.hpp"
#include "flut/hash.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "flut/timer.hpp"
#include "flut/math/random.hpp"
#include "flut/stopwatch.hpp"
#include "flut/dynarray.hpp"
#include "flut/container_tools.hpp"
#include "flut/flag_set.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include "flut/buffer/interpolation.hpp"
#include "flut/math/delayer.hpp"
#include "flut/math/delta.hpp"
#include "flut/math/average.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/math/catmull_rom.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/optional.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/version.hpp"
#include "flut/system/flut_version.hpp"
#include <thread>
#include <sstream>
#include "tree.hpp"
using namespace vp;
using std::string; using flut::path; using flut::prop_node;
namespace lg = flut::log;
#ifdef VP_TSAN
#define N( n ) n
#else
#define N( n ) ( ( n ) / 4 + 2 )
#endif

struct Shape { virtual ~Shape() {} virtual string name() const = 0; };
struct Disc : Shape { string s; Disc( const string& x ) : s( x ) {} string name() const override { return "disc " + s; } };
struct Cube : Shape { string s; Cube( const string& x ) : s( x ) {} string name() const override { return "cube " + s; } };
static flut::factory< Shape, const string& > make_factory() { flut::factory< Shape, const string& > f; f.register_class< Disc >(); f.register_class< Cube >( "box" ); return f; }
static const flut::factory< Shape, const string& > shared_factory = make_factory();
static const flut::pattern_matcher shared_patterns( "ab*;*c?;x*y*z" );

static string word( Rng& r ) { return string( 1, char( 97 + r.below( 3 ) ) ) + r.text( "abcxyz_019", 1 + r.below( 10 ) ); }
static Shadow grow( Rng& r, int depth ) { Shadow s; size_t n = depth ? r.below( 5 ) : 0; if ( n == 0 || r.chance( 1, 6 ) ) s.value = r.chance( 1, 4 ) ? "two words " + word( r ) : word( r ); for ( size_t i = 0; i < n; ++i ) s.kids.emplace_back( word( r ), grow( r, depth - 1 ) ); return s; }
static Shadow tree( Rng& r ) { Shadow s; size_t n = 1 + r.below( 5 ); for ( size_t i = 0; i < n; ++i ) s.kids.emplace_back( word( r ), grow( r, 3 ) ); return s; }

typedef string ( *Job )( Rng&, const string& );
static string j_text( Rng& r, const string& ) { string out; for ( int i = 0; i < 12; ++i ) { string a = r.bytes( r.below( 40 ) ), q = flut::quoted( a ); out += q + flut::try_unquoted( flut::try_quoted( a ) ) + flut::trim_str( a ) + flut::left_of_str( a, "ab" ) + flut::right_of_str( a, "ab" ) + flut::make_key_value_str( a ).second; for ( auto& s : flut::split_str( a, "ace " ) ) out += s + "|"; out += flut::get_filename_ext( a ) + flut::get_filename_folder( a ) + flut::tidy_identifier( "m_" + word( r ) ); int k = 0; flut::decode_char( q.c_str() + 1, q.size() - 1, &k ); out += num( k ); for ( char c : a ) out += flut::encode_char( c ); } return out; }
static string j_format( Rng& r, const string& ) { string out; for ( int i = 0; i < 10; ++i ) { string s = r.text( "abc%", r.len( 3000 ) ); out += flut::stringf( "%s|%d|%.3f|%5x", s.c_str(), int( r.below( 1000 ) ), r.real( -1, 1 ), unsigned( r.below( 65536 ) ) ); out += flut::to_str( r.real( -100, 100 ) ) + flut::to_str( int( r.below( 100 ) ) ) + num( flut::from_str< double >( "1.5" ) ) + num( flut::from_str< int >( num( i ) ) ); } return out; }
static string j_stream( Rng& r, const string& dir ) { string txt; for ( int i = 0; i < 30; ++i ) txt += r.chance( 1, 2 ) ? num( int( r.below( 100000 ) ) ) + " " : r.chance( 1, 3 ) ? "\"quo ted\" " : word( r ) + r.pick( { " ", "\n", ";", "=" } ); put_file( dir + "/t", txt ); string out; flut::char_stream a( txt.c_str() ); while ( a.good() ) out += a.get_token( "=;" ) + "|"; flut::char_stream b = flut::load_char_stream( path( dir + "/t" ) ); while ( b.good() ) out += b.get_line() + "|"; flut::char_stream c( "1 2.5 word 77" ); int i; double d; string s; unsigned long u; c >> i >> d >> s >> u; out += num( i ) + num( d ) + s + num( u ); auto v = flut::str_to_vec< double >( "1 2 3.25 4e2", 3 ); for ( auto x : v ) out += num( x ); return out; }
static string j_props( Rng& r, const string& dir )
{
	string out; for ( int i = 0; i < 3; ++i ) { Shadow s = tree( r ); prop_node pn = to_flut( s ); bool readable = r.chance( 1, 2 ); path f( dir + "/p" + num( i ) + ".prop" ); out += num( flut::save_prop( pn, f, readable ) ); string t; get_file( f.str(), t ); out += t; prop_node q = flut::load_prop( f ); Shadow back = from_flut( q ); out += differs( back, s ) + num( q == pn ); prop_node again = flut::parse_prop( t.c_str() ); out += num( again == pn ); flut::error_code ec; flut::parse_prop( "a { b = 1", &ec ); out += num( ec.error() ); }
	std::ostringstream o; o << to_flut( tree( r ) ); return out + o.str();
}
static string j_xml( Rng& r, const string& dir ) { Shadow s; size_t n = 1 + r.below( 6 ); Shadow root; for ( size_t i = 0; i < n; ++i ) { Shadow& k = root.add( "k" + word( r ) ); if ( r.chance( 1, 2 ) ) k.value = word( r ); else { k.add( "in" + word( r ), word( r ) ); k.add( "x", "1" ); } } s.kids.emplace_back( "root", root ); path f( dir + "/f.xml" ); flut::save_xml( to_flut( s ), f ); string t; get_file( f.str(), t ); string out = t + show( from_flut( flut::load_xml( f ) ) ); put_file( dir + "/bad.xml", "<a><b></a" ); flut::error_code ec; flut::load_xml( path( dir + "/bad.xml" ), &ec ); return out + num( ec.error() ); }
static string j_ini( Rng& r, const string& dir ) { Shadow s; for ( size_t i = 0, n = 1 + r.below( 4 ); i < n; ++i ) { Shadow& k = s.add( "sec" + num( i ) ); for ( size_t j = 0, m = 1 + r.below( 5 ); j < m; ++j ) k.add( "k" + num( j ), word( r ) ); } path f( dir + "/f.ini" ); flut::save_ini( to_flut( s ), f ); string t; get_file( f.str(), t ); return t + show( from_flut( flut::load_ini( f ) ) ); }
static string j_include( Rng& r, const string& dir ) { put_file( dir + "/main.prop", "a = " + word( r ) + "\nINCLUDE { file = sub.prop }\nb { INCLUDE { file = sub.prop } }\n" ); put_file( dir + "/sub.prop", "s1 = " + word( r ) + "\ns2 { t = " + word( r ) + " }\n" ); string out; try { out = show( from_flut( flut::load_file_with_include( path( dir + "/main.prop" ) ) ) ); } catch ( std::exception& e ) { out = "raised"; } prop_node a = to_flut( tree( r ) ), b = to_flut( tree( r ) ); flut::merge_prop_nodes( a, b, r.chance( 1, 2 ) ); return out + show( from_flut( a ) ); }
static string j_tree( Rng& r, const string& ) { prop_node pn; string out; for ( int i = 0; i < 40; ++i ) { string k = word( r ).substr( 0, 2 ); switch ( r.below( 7 ) ) { case 0: pn.set( k, int( r.below( 1000 ) ) ); break; case 1: pn.push_back( k, r.real( 0, 1 ) ); break; case 2: pn.set_delimited( k + "." + word( r ), string( "v" ) ); break; case 3: out += pn.get< string >( k, string( "none" ) ); break; case 4: { auto it = pn.find( k ); if ( it != pn.end() ) pn.erase( it ); break; } case 5: out += num( pn.count_unaccessed() ); break; default: { prop_node c( pn ); out += num( c == pn ) + num( c.size() ); for ( auto& e : c.select( k ) ) out += e.first; } } } std::vector< int > v = { 1, 2, int( r.below( 100 ) ) }; pn.set( "vec", v ); for ( int x : pn.get< std::vector< int > >( "vec" ) ) out += num( x ); try { pn.get< int >( "definitely absent" ); } catch ( std::exception& e ) { out += e.what(); } return out + show( from_flut( pn ) ); }
static string j_path( Rng& r, const string& ) { string out; for ( int i = 0; i < 20; ++i ) { path p( word( r ) + "/" + word( r ) + "." + word( r ) ), q( p ); out += p.parent_path().str() + p.filename().str() + p.extension().str() + p.stem().str() + ( p / word( r ) ).str(); q.replace_extension( path( word( r ) ) ); out += q.str(); q.make_preferred(); q.remove_filename(); out += q.str() + num( p == q ); } return out; }
static string j_containers( Rng& r, const string& ) { string out; flut::flat_map< string, int > m; flut::sorted_vector< int > s; flut::circular_deque< int > d; flut::dictionary< int > dict( { { 1, "one" }, { 2, "two" } } ); flut::memoize< int( int, int ) > mem( []( int a, int b ) { return a * 31 + b; } ); for ( int i = 0; i < 80; ++i ) { m[ word( r ).substr( 0, 2 ) ] += i; s.insert( int( r.below( 50 ) ) ); d.push_back( int( r.below( 100 ) ) ); if ( r.chance( 1, 3 ) ) { out += num( d.front() ); d.pop_front(); } out += num( mem( int( r.below( 4 ) ), int( r.below( 4 ) ) ) ); } for ( auto& e : m ) out += e.first + num( e.second ); for ( int x : s ) out += num( x ); out += dict( 1 ) + num( dict( string( "two" ) ) ); return out; }
static string j_tables( Rng& r, const string& ) { flut::storage< double > sto; string out; for ( int i = 0; i < 5; ++i ) sto.add_channel( "c" + num( i ) ); for ( int f = 0; f < 20; ++f ) { sto.add_frame(); for ( int c = 0; c < 5; ++c ) sto[ c ] = r.real( -1, 1 ); if ( f == 10 ) sto.add_channel( "late" ); } std::ostringstream o; o << sto; out += o.str(); flut::table< double > t; for ( int i = 0; i < 6; ++i ) t( "r" + num( int( r.below( 3 ) ) ), "c" + num( int( r.below( 3 ) ) ) ) = r.real( -1, 1 ); std::ostringstream p; p << t; return out + p.str(); }
static string j_maths( Rng& r, const string& ) { string out; auto f = flut::make_lowpass_butterworth_2nd_order( 0.1 ); for ( int i = 0; i < 30; ++i ) out += num( f( r.real( -1, 1 ) ) ); flut::math::random_number_generator g( (unsigned)r.below( 100000 ) ); for ( int i = 0; i < 30; ++i ) out += num( g.uni( 0.0, 1.0 ) ) + num( g.norm( 0.0, 1.0 ) ); auto v = flut::math::vec3d( r.real( -1, 1 ), r.real( -1, 1 ), 0.5 ); auto q = flut::math::quat_from_directions( flut::math::normalized( v ), flut::math::vec3d( 0, 1, 0 ) ); auto w = q * v; return out + num( w.x ) + num( w.y ) + num( w.z ); }
static string j_shared( Rng& r, const string& ) { string out; for ( int i = 0; i < 30; ++i ) { string s = word( r ); out += num( shared_patterns( s ) ) + num( flut::pattern_match( s, "*a*" ) ) + num( flut::hash( s.c_str() ) ) + shared_factory.create( i % 2 ? "Disc" : "box", s )->name() + num( shared_factory.has_type( s ) ) + flut::clean_type_name< Disc >(); flut::version ver( num( i ) + ".2.3" ); out += ver.to_str(); try { shared_factory( "nothing", s ); } catch ( std::exception& e ) { out += e.what(); } } return out; }
static string j_files( Rng& r, const string& dir ) { string a = r.bytes( r.len( 5000 ) ), out; put_file( dir + "/src", a ); out += num( flut::copy_file( path( dir + "/src" ), path( dir + "/dst" ), true ) ); out += num( flut::load_string( path( dir + "/dst" ) ) == a ); out += num( flut::create_directories( path( dir + "/x/y/z" ) ) ) + num( flut::folder_exists( path( dir + "/x/y" ) ) ) + num( flut::file_exists( path( dir + "/dst" ) ) ); string u = flut::create_unique_folder( path( dir + "/run" ) ).str(); out += u.substr( dir.size() ); out += num( flut::remove( path( u ) ) ) + num( flut::exists( path( u ) ) ) + num( flut::remove( path( dir + "/dst" ) ) ); for ( auto* d : { "/x/y/z", "/x/y", "/x" } ) out += num( flut::remove( path( dir + d ) ) ); return out; }
static string j_timer( Rng& r, const string& ) { flut::timer t; volatile double x = 0; for ( int i = 0; i < 200; ++i ) x = x + i; double a = t.seconds(), b = t.seconds(); return num( a >= 0 && b >= a ) + num( r.below( 10 ) ); }
static string j_series( Rng& r, const string& )
{
	string out; std::vector< double > v; for ( size_t i = 0, n = 2 + r.below( 40 ); i < n; ++i ) v.push_back( r.real( -9, 9 ) );
	out += num( flut::average( v ) ) + num( flut::median( v ) ) + num( flut::top_average( v, 1 + r.below( v.size() ) ) ); for ( auto i : flut::sort_indices( v ) ) out += num( i ) + ","; for ( auto x : flut::sorted_copy( v ) ) out += num( x ); for ( auto& x : flut::make_view_if( v, []( double x ) { return x > 0; } ) ) out += num( x );
	auto line = flut::linear_regression( 0.0, 0.5, v ); out += num( line.offset() ) + num( line.slope() ); for ( int i = 0; i < 20; ++i ) out += num( flut::interpolated_value( v, r.real( -2, 45 ) ) );
	flut::circular_frame_buffer< double, string > b( 0, 5 ); b.add_channel( "a" ); b.add_channel( "b" ); for ( int i = 0; i < 30; ++i ) { b.add_frame(); b[ 0 ] = r.real( 0, 1 ); b[ 1 ] = i; out += num( b.reverse( i < 3 ? 0 : 3, 0 ) ); if ( i > 1 ) out += num( b.get_interpolated_value( i - 1, 1, 0.25 ) ); }
	flut::math::regular_piecewise_linear_function< double > f( -3, 3, 12, []( double x ) { return x * x; } ); flut::delayer< float, 4 > d( 0.5f, 0.0f ); flut::smooth_delayer< float, 4 > e( 0.5f, 0.0f ); flut::delta< double > dt( 1.0 ); flut::math::average_< double > av; for ( int i = 0; i < 30; ++i ) { double x = r.real( -5, 5 ); out += num( f( x ) ) + num( d( float( x ), 0.1f ) ) + num( e( float( x ), 0.1f ) ) + num( dt( x ) ); av.add( x, 0.5 ); } return out + num( av.get() );
}
static string j_clock( Rng& r, const string& )
{
	// what the clocks show differs from run to run, so only its shape is compared
	string out; flut::stopwatch s; for ( size_t i = 0, n = r.below( 6 ); i < n; ++i ) s.add_measure( r.pick( { "one", "two", "three" } ) ); for ( int i = 0; i < 3; ++i ) { auto pn = s.get_report( 6 + i ); for ( auto& kvp : pn ) out += kvp.first + num( kvp.second.get< double >() >= 0 ); } out += flut::to_str( 1.0 / 3 );
	for ( int i = 0; i < 5; ++i ) { string d = flut::get_date_time_str( "%Y-%m-%d %H:%M:%S" ); for ( char& c : d ) if ( isdigit( (unsigned char)c ) ) c = '0'; out += d; } return out;
}
static string j_values( Rng& r, const string& )
{
	using namespace flut::math; string out; flut::dynarray< string > a( 1 + r.below( 30 ), word( r ) ), b( a ); b[ 0 ] = word( r ); a = b; for ( auto& s : a ) out += s; flut::optional< int > o; if ( r.chance( 1, 2 ) ) o = 7; out += num( bool( o ) ); flut::bounds< double > bd( -1.0, r.real( 0, 3 ) ); for ( int i = 0; i < 10; ++i ) { double x = r.real( -5, 5 ); out += num( bd.is_within( x ) ) + num( bd.clamp( x ) ); }
	transform_< double > t( vec3d( r.real( -1, 1 ), 2, 3 ), quat_from_axis_angle( vec3d( 0, 0, 1 ), radiand( r.real( -3, 3 ) ) ) ); bounding_box_< double > box( vec3d( 0, 0, 0 ), vec3d( 1, 1, 1 ) ); for ( int i = 0; i < 10; ++i ) { vec3d p = t * vec3d( r.real( -1, 1 ), r.real( -1, 1 ), r.real( -1, 1 ) ); out += num( p.x ) + num( p.y ) + num( p.z ); prop_node pn = flut::make_prop_node( p ); out += pn.get< vec3d >().x < 10 ? "y" : "n"; }
	flut::polynomial< double, 3 > p( 1.0, 2.0, r.real( -1, 1 ), 0.5 ); flut::math::random_number_generator g( 5 ); for ( int i = 0; i < 10; ++i ) out += num( p( r.real( -2, 2 ) ) ) + num( g.uni( 0.0, 100.0 ) ); out += num( flut::math::wrapped( r.real( -20, 20 ), -1.0, 1.0 ) ) + num( flut::math::clamped( 5.0, 0.0, 1.0 ) ) + num( rad_to_deg( 1.25 ) ); return out;
}
struct Named { const char* name; Job job; };
static const Named jobs[] = { { "texts", j_text }, { "formats", j_format }, { "streams", j_stream }, { "prop files", j_props }, { "xml files", j_xml }, { "ini files", j_ini }, { "includes", j_include }, { "trees", j_tree }, { "paths", j_path }, { "containers", j_containers }, { "tables", j_tables }, { "maths", j_maths }, { "shared objects", j_shared }, { "files", j_files }, { "timers", j_timer }, { "series", j_series }, { "clocks", j_clock }, { "values", j_values } };
static const size_t n_jobs = sizeof( jobs ) / sizeof( jobs[ 0 ] );

PART( disjoint, N( 500 ), N( 15000 ) )
{
	static bool zone = ( setenv( "TZ", "UTC0", 1 ), tzset(), true ); (void)zone; // so that the C library has no zone to read in the threads: its own lock is invisible here
	struct Task { size_t job; uint64_t seed; string want, got, dir; int pause; }; Scratch s; size_t k = 2 + r.below( 7 ), per = 1 + r.below( 6 ); std::vector< std::vector< Task > > work( k ); bool alike = r.chance( 1, 3 ); size_t one = r.below( n_jobs ); bool firsts = r.chance( 1, 2 ); // firsts: nothing ran the jobs before the threads do
	for ( size_t i = 0; i < k; ++i ) for ( size_t j = 0; j < per; ++j ) work[ i ].push_back( Task{ alike ? one : r.below( n_jobs ), r.next(), "", "", s / ( "t" + num( i ) + "_" + num( j ) ), r.chance( 1, 4 ) ? (int)r.below( 200 ) : 0 } );
	auto alone = [&] { for ( auto& w : work ) for ( auto& t : w ) { mkdir( t.dir.c_str(), 0755 ); Rng q( t.seed ); t.want = jobs[ t.job ].job( q, t.dir ); remove_tree( t.dir ); } };
	if ( !firsts ) alone(); for ( auto& w : work ) for ( auto& t : w ) mkdir( t.dir.c_str(), 0755 );
	std::atomic< int > ready( 0 ), ended( 0 ); std::vector< std::thread > th; std::vector< int > order( k * per ); 
	for ( size_t i = 0; i < k; ++i ) th.emplace_back( [&, i] { ++ready; while ( ready < int( k ) ) {} for ( auto& t : work[ i ] ) { if ( t.pause ) usleep( t.pause ); Rng q( t.seed ); try { t.got = jobs[ t.job ].job( q, t.dir ); } catch ( std::exception& e ) { t.got = string( "raised " ) + e.what(); } order[ ended++ ] = int( i ); } } ); for ( auto& t : th ) t.join();
	for ( auto& w : work ) for ( auto& t : w ) remove_tree( t.dir ); if ( firsts ) alone(); string o; for ( int x : order ) o += char( '0' + x );
	for ( auto& w : work ) for ( auto& t : w ) { event( jobs[ t.job ].name ); VP_CHECK( "same-result-as-alone", t.got == t.want, string( jobs[ t.job ].name ) + " in " + num( k ) + " threads gives " + vp::show( t.got, 120 ) + " instead of " + vp::show( t.want, 120 ) ); } note( o ); event( "thread groups" ); if ( want_sample() ) sample( num( k ) + " threads, jobs ended in the order " + o );
}

struct Locked : lg::sink { std::mutex m; std::vector< std::pair< int, string > > seen; Locked( lg::level l ) : sink( l ) {} void send_log_message( lg::level l, const string& s ) override { std::lock_guard< std::mutex > g( m ); seen.emplace_back( int( l ), s ); } };
PART( logging, N( 300 ), N( 8000 ) )
{
	// every message arrives once at each sink that admits it, unmixed, and each thread's in its order
	Scratch s; size_t k = 2 + r.below( 7 ), per = 1 + r.below( 40 ); lg::level la = (lg::level)r.range( lg::trace_level, lg::critical_level ), lb = (lg::level)r.range( lg::trace_level, lg::critical_level ); Locked a( la ), b( lb ); uint64_t base = r.next(); std::atomic< int > ready( 0 ); std::vector< std::thread > th;
	struct Msg { int l; string text; }; auto make = [&]( size_t i ) { std::vector< Msg > v; Rng q( base + i ); for ( size_t j = 0; j < per; ++j ) v.push_back( Msg{ (int)q.range( lg::trace_level, lg::critical_level ), num( i ) + ":" + num( j ) + ":" + q.text( "abc%", q.len( 2000 ) ) } ); return v; };
	for ( size_t i = 0; i < k; ++i ) th.emplace_back( [&, i] { auto v = make( i ); ++ready; while ( ready < int( k ) ) {} for ( size_t j = 0; j < v.size(); ++j ) { auto l = (lg::level)v[ j ].l; switch ( j % 3 ) { case 0: lg::message( l, v[ j ].text ); break; case 1: { size_t h = v[ j ].text.size() / 2; lg::message( l, v[ j ].text.substr( 0, h ), v[ j ].text.substr( h ) ); break; } default: if ( l == lg::info_level ) lg::infof( "%s", v[ j ].text.c_str() ); else if ( l == lg::error_level ) lg::error( v[ j ].text ); else lg::message( l, v[ j ].text ); } } } ); for ( auto& t : th ) t.join();
	string o; for ( auto* x : { &a, &b } ) { int lv = x->get_log_level(); std::vector< size_t > at( k ); std::vector< std::vector< Msg > > want( k ); size_t total = 0; for ( size_t i = 0; i < k; ++i ) { for ( auto& m : make( i ) ) if ( m.l >= lv && m.l >= lg::trace_level ) want[ i ].push_back( m ); total += want[ i ].size(); } string w = num( k ) + " threads, sink level " + num( lv ); for ( auto& e : x->seen ) { size_t i = strtoul( e.second.c_str(), 0, 10 ); VP_CHECK( "known-thread", i < k, w + " message " + vp::show( e.second, 60 ) ); VP_CHECK( "in-order-and-whole", at[ i ] < want[ i ].size() && want[ i ][ at[ i ] ].text == e.second && want[ i ][ at[ i ] ].l == e.first, w + " thread " + num( i ) + " message " + num( at[ i ] ) + " is " + vp::show( e.second, 60 ) ); ++at[ i ]; if ( o.size() < 200 ) o += char( '0' + i ); } VP_CHECK( "none-lost", x->seen.size() == total, w + ": " + num( x->seen.size() ) + " of " + num( total ) ); event( "messages delivered", total ); }
	note( o ); if ( want_sample() ) sample( "messages arrived from threads " + o );
}
