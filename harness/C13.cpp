// C13 Access tracking reports exactly the settings nobody read
// vp-rule: random trees and random histories of reads (by key, index, delimited key, default, iteration, selection, typed), with the access mark of every node compared with a shadow mark after every read, and the unaccessed log compared line by line; non-trivial: at least 3 nodes and 1 read; counted by tree and history
#include "flut/prop_node_tools.hpp"
#include "flut/system/log_sink.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;
using flut::prop_node;

struct Rec : flut::log::sink
{
	Rec( flut::log::level l ) : sink( l ) {}
	std::vector< std::pair< flut::log::level, string > > got;
	void send_log_message( flut::log::level l, const string& m ) override { got.emplace_back( l, m ); }
};

/// shadow tree with marks, of the same shape as the real one
struct Marked
{
	string value; bool mark = false;
	std::vector< std::pair< string, Marked > > kids;
	Marked* find( const string& k ) { for ( auto& e : kids ) if ( e.first == k ) return &e.second; return nullptr; }
	size_t unaccessed() const { size_t n = mark ? 0 : 1; for ( auto& e : kids ) n += e.second.unaccessed(); return n; }
	size_t nodes() const { size_t n = 1; for ( auto& e : kids ) n += e.second.nodes(); return n; }
	void clear() { mark = false; for ( auto& e : kids ) e.second.clear(); }
};
static string desc( const Marked& m ) { string s = vp::show( m.value, 12 ) + ( m.mark ? "" : "*" ); if ( !m.kids.empty() ) { s += "{"; for ( auto& e : m.kids ) { s += e.first + ":" + desc( e.second ) + " "; if ( s.size() > 900 ) break; } s += "}"; } return s; }
static const char* keys[] = { "a", "b", "c", "a", "key", "x_y", "value with space" };
static string key( Rng& r ) { return keys[ r.below( 7 ) ]; }
static void grow( Rng& r, Marked& m, int depth, bool numbers )
{
	m.value = numbers ? std::to_string( r.range( 0, 999 ) ) : string( r.pick( { "", "1", "text", "a b c", "42" } ) );
	if ( depth > 0 ) for ( size_t n = r.chance( 1, 60 ) ? r.below( 60 ) : r.below( 5 ); n; --n ) { m.kids.emplace_back( key( r ), Marked() ); grow( r, m.kids.back().second, depth - 1, numbers ); }
}
static prop_node build( const Marked& m ) { prop_node p; p.set_value( string( m.value ) ); p.reserve( m.kids.size() ); for ( auto& e : m.kids ) p.push_back( e.first, build( e.second ) ); return p; }
/// nodes in parallel; collected before the history, through a walk whose marks are cleared afterwards
struct Pair { prop_node* p; Marked* m; };
static void collect( prop_node& p, Marked& m, std::vector< Pair >& v ) { v.push_back( Pair{ &p, &m } ); for ( size_t i = 0; i < m.kids.size(); ++i ) collect( p.get_child( i ), m.kids[ i ].second, v ); }

static void expected_log( const Marked& m, int depth, std::vector< string >& out )
{
	for ( auto& e : m.kids )
	{
		if ( e.second.unaccessed() > 0 )
		{
			string s = string( depth * 2, ' ' ) + e.first;
			if ( !e.second.mark ) { if ( !e.second.value.empty() ) s += " = " + e.second.value; s += " *"; }
			out.push_back( s );
		}
		expected_log( e.second, depth + 1, out );
	}
}

PART( histories, 20000, 500000 )
{
	Marked m; grow( r, m, (int)r.below( 5 ), r.chance( 1, 4 ) );
	prop_node t = build( m ); string trace = desc( m ) + " reads:"; size_t reads = 0;
	VP_CHECK( "new-unaccessed", !t.is_accessed() && t.count_unaccessed() == m.nodes(), trace );
	std::vector< Pair > all; collect( t, m, all ); t.clear_accessed_recursively();
	VP_CHECK( "cleared", !t.is_accessed() && t.count_unaccessed() == m.nodes(), trace );
	auto verify = [&] {
		for ( auto& n : all ) VP_CHECK( n.m->mark ? "read-not-marked" : "marked-unread", n.p->is_accessed() == n.m->mark, "node " + desc( *n.m ) + " in " + trace );
		for ( auto& n : all ) VP_CHECK( "count", n.p->count_unaccessed() == n.m->unaccessed(), trace );
		for ( auto& n : all ) VP_CHECK( "count-marks", n.p->is_accessed() == n.m->mark, "querying the count changed a mark; " + trace );
	};
	size_t steps = r.chance( 1, 30 ) ? r.below( 60 ) : r.below( 10 );
	for ( size_t i = 0; i < steps; ++i )
	{
		Pair n = all[ r.below( all.size() ) ]; const prop_node& c = *n.p; string k = key( r ); Marked* e = n.m->find( k );
		string before = trace; trace += " ";
		switch ( r.below( 23 ) )
		{
		case 0: c.get< string >(); n.m->mark = true; trace += "get()"; break;
		case 1: c.get_value(); n.m->mark = true; trace += "get_value()"; break;
		case 2: if ( e ) { c.get< string >( k ); n.m->mark = e->mark = true; } else { VP_CHECK( "missing-throws", throws( [&] { c.get< string >( k ); } ), trace ); n.m->mark = true; } trace += "get(" + k + ")"; break;
		case 3: c.get< string >( k, "default" ); n.m->mark = true; if ( e ) e->mark = true; trace += "get(" + k + ",def)"; break;
		case 4: { string k2 = key( r ); c.get_any< string >( { k, k2 }, "d" ); n.m->mark = true; if ( e ) e->mark = true; else if ( Marked* f = n.m->find( k2 ) ) f->mark = true; trace += "get_any(" + k + "," + k2 + ")"; break; }
		case 5: if ( r.chance( 1, 2 ) ) c.has_key( k ); else c.has_value( k ); n.m->mark = true; trace += "has_key/has_value(" + k + ")"; break;
		case 6: if ( e ) { if ( r.chance( 1, 2 ) ) c.get_child( k ); else c[ k ]; n.m->mark = true; trace += "get_child(" + k + ")"; } break;
		case 7: if ( !n.m->kids.empty() ) { size_t j = r.below( n.m->kids.size() ); if ( r.chance( 1, 2 ) ) c.get_child( j ); else c[ j ]; n.m->mark = true; trace += "get_child(" + num( j ) + ")"; } break;
		case 8: if ( !n.m->kids.empty() ) { c.get_key( r.below( n.m->kids.size() ) ); n.m->mark = true; trace += "get_key"; } break;
		case 9: c.try_get_child( k ); n.m->mark = true; if ( e ) e->mark = true; trace += "try_get_child(" + k + ")"; break;
		case 10: n.p->try_get_child( k ); n.m->mark = true; if ( e ) e->mark = true; trace += "try_get_child(" + k + ")"; break;
		case 11: { prop_node d; c.try_get_child( k, d ); n.m->mark = true; if ( e ) e->mark = true; trace += "try_get_child(" + k + ",node)"; break; }
		case 12: if ( e ) { if ( r.chance( 1, 2 ) ) n.p->get_or_add_child( k ); else ( *n.p )[ k ]; n.m->mark = e->mark = true; trace += "get_or_add(" + k + ")"; } break;
		case 13: { if ( r.chance( 1, 2 ) ) for ( auto& kvp : c ) { (void)kvp; } else { size_t k13 = 0; for ( auto it = c.cbegin(); it != c.cend(); ++it ) ++k13; VP_CHECK( "iterated", k13 == n.m->kids.size(), trace ); } n.m->mark = true; trace += "iterate"; break; }
		case 14: { for ( auto& kvp : c ) kvp.second.get< string >(); n.m->mark = true; for ( auto& x : n.m->kids ) x.second.mark = true; trace += "iterate+get"; break; }
		case 15: { for ( auto& kvp : c.select( k ) ) kvp.second.get< string >(); n.m->mark = true; for ( auto& x : n.m->kids ) if ( x.first == k ) x.second.mark = true; trace += "select(" + k + ")"; break; }
		case 16: { c.get< std::vector< string > >(); n.m->mark = true; for ( auto& x : n.m->kids ) x.second.mark = true; trace += "get vector"; break; }
		case 17:
			{
				string k2 = key( r ), dk = k + "." + k2; Marked* f = e ? e->find( k2 ) : nullptr;
				if ( r.chance( 1, 2 ) )
				{
					c.try_get_child_delimited( dk ); n.m->mark = true; if ( e ) e->mark = true; if ( f ) f->mark = true; trace += "try_get_delimited(" + dk + ")";
				}
				else if ( f ) { c.get_delimited< string >( dk ); n.m->mark = e->mark = f->mark = true; trace += "get_delimited(" + dk + ")"; }
				break;
			}
		case 18: { c.size(); c.empty(); c.has_value(); c.end(); bool eq = c == t; (void)eq; c.is_accessed(); c.count_unaccessed(); trace += "size/empty/has_value/=="; break; }
		case 19:
			{
				prop_node copy( c ), second; second = c;
				VP_CHECK( "copy-unaccessed", copy.count_unaccessed() == n.m->nodes() && second.count_unaccessed() == n.m->nodes(), trace );
				copy.get< string >(); VP_CHECK( "copy-marks", copy.count_unaccessed() == n.m->nodes() - 1, trace );
				{ prop_node a0, a1( string( "moved in" ) ), a2( &c ), a3t( c ), a3( std::move( a3t ) ); string lv = "copied in"; prop_node a4( lv ); VP_CHECK( "constructed-unaccessed", !a0.is_accessed() && !a1.is_accessed() && !a2.is_accessed() && !a3.is_accessed() && !a4.is_accessed() && a2.count_unaccessed() == n.m->nodes() && a3.count_unaccessed() == n.m->nodes() && a1.get< string >() == "moved in" && a4.get< string >() == lv && a1.is_accessed() && a4.is_accessed(), trace ); }
				trace += "copy"; break;
			}
		case 20: if ( r.chance( 1, 4 ) ) { n.p->clear_accessed_recursively(); n.m->clear(); trace += "clear"; } break;
		case 21: { c.find( k ); n.m->mark = true; trace += "find(" + k + ")"; break; }
		default:
			if ( e && !e->value.empty() && e->value.find_first_not_of( "0123456789" ) == string::npos ) { c.get< int >( k ); n.m->mark = e->mark = true; trace += "get<int>(" + k + ")"; }
		}
		++reads; event( "read" );
		verify();
	}
	// the report
	std::vector< string > expect; int depth = r.chance( 1, 4 ) ? (int)r.below( 4 ) : 0;
	expected_log( m, depth, expect );
	flut::log::level lv = (flut::log::level)r.range( flut::log::trace_level, flut::log::critical_level );
	{
		Rec all_sink( flut::log::trace_level );
		if ( r.chance( 1, 3 ) ) { lv = flut::log::warning_level; if ( depth == 0 ) flut::log_unaccessed( t ); else flut::log_unaccessed( t, lv, depth ); }
		else flut::log_unaccessed( t, lv, depth );
		string got; for ( auto& l : all_sink.got ) got += "[" + l.second + "]";
		string want; for ( auto& l : expect ) want += "[" + l + "]";
		VP_CHECK( "log-lines", all_sink.got.size() == expect.size(), "logged " + got + " expected " + want + " after " + trace );
		for ( size_t i = 0; i < expect.size(); ++i )
		{
			VP_CHECK( "log-text", all_sink.got[ i ].second == expect[ i ], "logged " + got + " expected " + want + " after " + trace );
			VP_CHECK( "log-level", all_sink.got[ i ].first == lv, "level " + num( (int)all_sink.got[ i ].first ) + " expected " + num( (int)lv ) );
		}
		event( "log line", expect.size() ); event( expect.empty() ? "empty report" : "report" );
	}
	if ( m.nodes() >= 3 && reads ) note( trace );
	if ( want_sample() ) sample( trace + " -> " + num( expect.size() ) + " lines" );
}
PART( loaded, 3000, 60000 )
{
	// a file just loaded is unread
	static Scratch sc; string file = sc / "t.prop";
	Marked m; grow( r, m, 1 + (int)r.below( 3 ), false ); m.value = "";
	if ( m.kids.empty() ) return;
	prop_node t = build( m ); 
	VP_CHECK( "save", flut::save_prop( t, flut::path( file ) ), desc( m ) );
	prop_node u = flut::load_file_with_include( flut::path( file ) );
	size_t n = 0; { std::function< void( const Marked& ) > f = [&]( const Marked& x ) { ++n; for ( auto& e : x.kids ) f( e.second ); }; f( m ); }
	VP_CHECK( "loaded-unread", !u.is_accessed() && u.count_unaccessed() == n, num( u.count_unaccessed() ) + " unaccessed of " + num( n ) );
	u.get< string >(); VP_CHECK( "one-read", u.count_unaccessed() == n - 1, "" );
	prop_node moved = std::move( u ); (void)moved;
	event( "loaded" ); note( desc( m ) );
}

// wide and deep trees: marks, counts and the report keep track of all of it
PART( large, 40, 800 )
{
	Marked m; size_t width = r.chance( 1, 2 ) ? r.len( 5000 ) : r.below( 30 ), depth = r.chance( 1, 2 ) ? r.len( 300 ) : r.below( 5 ); Marked* p = &m;
	for ( size_t i = 0; i < depth; ++i ) { p->kids.emplace_back( "side", Marked() ); p->kids.emplace_back( "d" + std::to_string( i ), Marked() ); p->kids.back().second.value = r.chance( 1, 2 ) ? "v" : ""; p = &p->kids.back().second; }
	for ( size_t i = 0; i < width; ++i ) { p->kids.emplace_back( "k" + std::to_string( i ), Marked() ); p->kids.back().second.value = std::to_string( i ); }
	prop_node t = build( m ); std::vector< Pair > all; collect( t, m, all ); t.clear_accessed_recursively(); const string w = num( m.nodes() ) + " nodes, width " + num( width ) + " depth " + num( depth );
	VP_CHECK( "large-unread", t.count_unaccessed() == m.nodes(), w );
	size_t keep = r.chance( 1, 2 ) ? r.below( 5 ) : r.below( all.size() + 1 ); // how many stay unread on purpose
	for ( auto& n : all ) if ( r.below( all.size() ) >= keep ) { n.p->get< string >(); n.m->mark = true; }
	VP_CHECK( "large-count", t.count_unaccessed() == m.unaccessed(), w + ": " + num( t.count_unaccessed() ) + " unread, expected " + num( m.unaccessed() ) );
	for ( auto& n : all ) VP_CHECK( "large-mark", n.p->is_accessed() == n.m->mark, w );
	std::vector< string > expect; expected_log( m, 0, expect ); Rec sink( flut::log::trace_level ); flut::log_unaccessed( t );
	VP_CHECK( "large-log", sink.got.size() == expect.size(), w + ": " + num( sink.got.size() ) + " lines, expected " + num( expect.size() ) );
	for ( size_t i = 0; i < expect.size(); ++i ) VP_CHECK( "large-log-text", sink.got[ i ].second == expect[ i ], w + " line " + vp::show( sink.got[ i ].second ) + " expected " + vp::show( expect[ i ] ) );
	t.clear_accessed_recursively(); VP_CHECK( "large-clear", t.count_unaccessed() == m.nodes(), w );
	event( "large trees" ); event( "log line", expect.size() ); note( w );
}
