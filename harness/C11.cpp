// C11 A property tree is an ordered tree of key/value pairs under every history
// vp-rule: random histories of sets, appends, inserts, erases, clears, copies, moves, assignments and delimited writes over 3 live trees, full comparison with shadow trees after every operation; non-trivial: at least 5 modifications; counted by history
#include "flut/prop_node.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;
using flut::prop_node;

static const char* keys[] = { "a", "b", "c", "a", "b", "key", "a.b", "", "a b", "\xc3\xa9" };
static string key( Rng& r ) { return keys[ r.below( 10 ) ]; }
static string plain_key( Rng& r ) { return keys[ r.below( 6 ) ]; }
static string val( Rng& r ) { return r.chance( 1, 20 ) ? r.chance( 1, 3 ) ? string( "\0a\0b\0" + r.below( 2 ), 1 + r.below( 3 ) ) : r.bytes( r.len( 300 ) ) : string( r.pick( { "", "1", "value", "a b", "3.5", "{", "x" } ) ); }
static Shadow random_tree( Rng& r, int depth ) { Shadow s; s.value = val( r ); if ( depth > 0 ) for ( size_t n = r.below( 4 ); n; --n ) s.kids.emplace_back( key( r ), random_tree( r, depth - 1 ) ); return s; }

struct Node { prop_node* p; Shadow* s; };
/// a node of the tree at random
static Node descend( Rng& r, prop_node& p, Shadow& s )
{
	Node n{ &p, &s };
	while ( !n.s->kids.empty() && r.chance( 2, 3 ) ) { size_t i = r.below( n.s->kids.size() ); n.p = &n.p->get_child( i ); n.s = &n.s->kids[ i ].second; }
	return n;
}

// the printed form: a line per node in tree order, keys indented by depth, values lined up after the widest key
static void lines_of( const Shadow& s, size_t depth, std::vector< std::pair< string, string > >& out )
{
	for ( auto& e : s.kids )
	{
		out.emplace_back( string( depth * 2, ' ' ) + e.first, !e.second.value.empty() || e.second.kids.empty() ? " = " + e.second.value : string() );
		lines_of( e.second, depth + 1, out );
	}
}
PART( printed, 6000, 100000 )
{
	Shadow s = random_tree( r, 1 + (int)r.below( 5 ) ); prop_node pn = to_flut( s ); const prop_node& c = pn;
	if ( r.chance( 1, 4 ) ) { string k = r.text( "abc_", r.len( 120 ) ); s.add( k, "w" ); pn.push_back( k, string( "w" ) ); }
	if ( r.chance( 1, 8 ) ) { size_t depth = r.below( 50 ); Shadow* q = &s; prop_node* p = &pn; for ( size_t i = 0; i < depth; ++i ) { string k = r.text( "abc_", r.below( 6 ) ); q = &q->add( k ); p = &p->push_back( k ); } string v = val( r ); q->value = v; p->set_value( string( v ) ); event( "deep prints" ); }
	std::vector< std::pair< string, string > > l; lines_of( s, 0, l );
	size_t width = 0; for ( auto& e : l ) width = std::max( width, e.first.size() );
	string expect; for ( auto& e : l ) expect += e.first + string( width - e.first.size(), ' ' ) + e.second + "\n";
	std::ostringstream o1, o2; o1 << c; flut::to_stream( o2, c );
	event( "printed lines", l.size() );
	VP_CHECK( "printed", o1.str() == expect && o2.str() == expect, "printed " + vp::show( o1.str(), 600 ) + " expected " + vp::show( expect, 600 ) );
	string d = differs( from_flut( c ), s ); VP_CHECK( "printed-unchanged", d.empty(), d );
	if ( l.size() > 2 ) note( expect );
}

PART( histories, 12000, 200000 )
{
	prop_node t[ 3 ]; Shadow s[ 3 ]; string trace; size_t mods = 0;
	auto verify = [&] {
		for ( int i = 0; i < 3; ++i )
		{
			const prop_node& c = t[ i ];
			string d = differs( from_flut( c ), s[ i ] );
			VP_CHECK( "contents", d.empty(), "tree " + num( i ) + " " + d + " after" + trace );
		}
	};
	size_t steps = r.chance( 1, 50 ) ? 200 : 5 + r.below( 30 );
	for ( size_t step = 0; step < steps; ++step )
	{
		int a = (int)r.below( 3 ), b = (int)r.below( 3 );
		Node n = descend( r, t[ a ], s[ a ] );
		string k = key( r ), v = val( r );
		trace += " | " + num( a ) + ":";
		switch ( r.below( 24 ) )
		{
		case 0: n.p->set_value( string( v ) ); n.s->value = v; trace += "set_value " + vp::show( v, 20 ); break;
		case 1: case 2: n.p->set( k, v ); n.s->set( k, v ); trace += "set " + k; break;
		case 3: { int i = (int)r.range( -5, 5000 ); n.p->set( k, i ); n.s->set( k, std::to_string( i ) ); trace += "set int " + k; break; }
		case 4:
			{
				Shadow u = random_tree( r, 2 ); prop_node pu = to_flut( u );
				n.p->set( k, pu ); Shadow* e = n.s->find( k ); if ( !e ) e = &n.s->add( k ); *e = u; trace += "set node " + k;
				VP_CHECK( "set-source", from_flut( pu ) == u, "source of set changed" ); break;
			}
		case 5: { prop_node& ref = n.p->push_back( k, v ); n.s->add( k, v ); VP_CHECK( "push_back-ref", from_flut( ref ) == n.s->kids.back().second, "reference" + trace ); trace += "push_back " + k; break; }
		case 6: { prop_node& ref = n.p->push_back( k ); n.s->add( k ); if ( r.chance( 1, 2 ) ) { ref.set( "in", string( "1" ) ); n.s->kids.back().second.set( "in", "1" ); } trace += "push_back empty " + k; break; }
		case 7:
			{
				Shadow u = random_tree( r, 2 ); prop_node pu = to_flut( u );
				prop_node* last; if ( r.chance( 1, 2 ) ) { last = &n.p->push_back( k, pu ); VP_CHECK( "push-source", from_flut( pu ) == u, "source of push_back changed" ); } else last = &n.p->push_back( k, std::move( pu ) );
				VP_CHECK( "push-reference", last == &n.p->get_child( n.s->kids.size() ), trace ); n.s->kids.emplace_back( k, u ); trace += "push_back node " + k; break;
			}
		case 8:
			{
				// a node (perhaps an ancestor or itself) appended below another one of the same tree
				Node m = descend( r, t[ a ], s[ a ] ); if ( s[ a ].nodes() > 60 ) break;
				Shadow copy = *m.s; n.p->push_back( k, *m.p ); n.s->kids.emplace_back( k, copy ); trace += "push_back own node"; break;
			}
		case 9:
			{
				if ( a == b ) break;
				Node m = descend( r, t[ b ], s[ b ] ); if ( n.s->nodes() + m.s->nodes() > 80 ) break;
				size_t at = r.below( n.s->kids.size() + 1 ), lo = r.below( m.s->kids.size() + 1 ), hi = lo + r.below( m.s->kids.size() - lo + 1 );
				const prop_node& cm = *m.p;
				auto it = n.p->insert( n.p->begin() + at, cm.begin() + lo, cm.begin() + hi );
				n.s->kids.insert( n.s->kids.begin() + at, m.s->kids.begin() + lo, m.s->kids.begin() + hi );
				VP_CHECK( "insert-iterator", size_t( it - n.p->begin() ) == at, trace );
				trace += "insert " + num( hi - lo ) + " at " + num( at ); break;
			}
		case 10: { if ( n.s->kids.empty() ) break; size_t at = r.below( n.s->kids.size() ); auto it = n.p->erase( n.p->begin() + at ); n.s->kids.erase( n.s->kids.begin() + at ); VP_CHECK( "erase-iterator", size_t( it - n.p->begin() ) == at, trace ); trace += "erase " + num( at ); break; }
		case 11: if ( r.chance( 1, 3 ) ) { n.p->clear(); *n.s = Shadow(); trace += "clear"; } break;
		case 12: { Shadow u = s[ b ]; t[ a ] = t[ b ]; s[ a ] = u; trace += "copy from " + num( b ); break; }
		case 13: { if ( a == b ) break; t[ a ] = std::move( t[ b ] ); s[ a ] = s[ b ]; t[ b ].clear(); s[ b ] = Shadow(); trace += "move from " + num( b ); break; }
		case 14: { Node m = descend( r, *n.p, *n.s ); Shadow u = *m.s; *n.p = *m.p; *n.s = u; trace += "assign own descendant"; break; }
		case 15: { Node m = descend( r, *n.p, *n.s ); if ( m.p == n.p ) break; Shadow u = *m.s; *n.p = std::move( *m.p ); *n.s = u; trace += "move own descendant"; break; }
		case 16: { Node m = descend( r, *n.p, *n.s ); if ( n.s->nodes() * 2 > 60 ) break; Shadow u = *n.s; *m.p = *n.p; *m.s = u; trace += "assign ancestor to descendant"; break; }
		case 17:
			{
				string dk; Shadow* e = n.s; size_t m = 1 + r.below( 4 );
				for ( size_t i = 0; i < m; ++i )
				{
					string part = plain_key( r ); dk += ( i ? "." : "" ) + part;
					if ( i + 1 < m ) { Shadow* f = e->find( part ); e = f ? f : &e->add( part ); } else e->set( part, v );
				}
				n.p->set_delimited( dk, v ); trace += "set_delimited " + dk; break;
			}
		case 18:
			{
				string dk; Shadow* e = n.s;
				for ( int i = 0; i < 3; ++i ) { string part = key( r ); if ( part.find( '/' ) != string::npos ) part = "a"; dk += ( i ? "/" : "" ) + part; if ( i < 2 ) { Shadow* f = e->find( part ); e = f ? f : &e->add( part ); } else e->set( part, v ); }
				n.p->set_delimited( dk, v, '/' ); trace += "set_delimited/ " + dk; break;
			}
		case 19: { prop_node& ref = r.chance( 1, 2 ) ? ( *n.p )[ k ] : n.p->get_or_add_child( k ); Shadow* e = n.s->find( k ); if ( !e ) e = &n.s->add( k ); VP_CHECK( "index-or-add", from_flut( ref ) == *e, trace ); ref.set_value( string( v ) ); e->value = v; trace += "[" + k + "]="; break; }
		case 20: { *n.p = v; *n.s = Shadow(); n.s->value = v; trace += "= string"; break; }
		case 21: { if ( r.chance( 1, 2 ) ) { n.p->set( v ); *n.s = Shadow(); n.s->value = v; } else { Shadow u = random_tree( r, 1 ); n.p->set( to_flut( u ) ); *n.s = u; } trace += "set self"; break; }
		case 22: { n.p->reserve( r.below( 30 ) ); trace += "reserve"; break; }
		default:
			{
				// copies are deep: modify one, the other stays
				prop_node c1( *n.p ), c2( n.p ), c3; c3 = *n.p; prop_node c4( std::move( c3 ) ); Shadow u = *n.s;
				c1.set( "new", string( "1" ) ); c2.clear();
				if ( !u.kids.empty() ) { size_t i = r.below( u.kids.size() ); c4.get_child( i ).set_value( string( "changed" ) ); Shadow w = u; w.kids[ i ].second.value = "changed"; VP_CHECK( "copy-modified", from_flut( c4 ) == w, trace ); }
				Shadow w = u; w.set( "new", "1" ); VP_CHECK( "copy-set", from_flut( c1 ) == w, trace );
				VP_CHECK( "copy-independent", from_flut( *n.p ) == u, "modifying a copy changed the original" + trace );
				VP_CHECK( "null-pointer", prop_node( (const prop_node*)nullptr ).empty(), "" );
				trace += "copy and modify";
			}
		}
		++mods; event( "modification" );
		verify();

		// reads on the constant tree
		Node m = descend( r, t[ b ], s[ b ] ); const prop_node& c = *m.p; const Shadow* e = m.s->find( k );
		const string w = "key " + vp::show( k ) + " in " + show( *m.s ) + " after" + trace;
		VP_CHECK( "has_key", c.has_key( k ) == ( e != nullptr ), w );
		VP_CHECK( "has_value", c.has_value() == !m.s->value.empty() && c.has_value( k ) == ( e && !e->value.empty() ), w );
		VP_CHECK( "size", c.size() == m.s->kids.size() && c.empty() == ( m.s->value.empty() && m.s->kids.empty() ), w );
		const prop_node* tp = c.try_get_child( k ); prop_node* tq = m.p->try_get_child( k );
		VP_CHECK( "try_get_child", ( tp != nullptr ) == ( e != nullptr ) && tq == tp, w );
		prop_node fallback( string( "fallback" ) );
		const prop_node& fb = c.try_get_child( k, fallback );
		if ( e )
		{
			size_t first = 0; while ( m.s->kids[ first ].first != k ) ++first;
			VP_CHECK( "first-match", tp == &c.get_child( first ) && &fb == tp, w );
			VP_CHECK( "get_child", &c.get_child( k ) == tp && &c[ k ] == tp && &m.p->get_child( k ) == tp, w );
			VP_CHECK( "find", size_t( c.find( k ) - c.begin() ) == first && size_t( m.p->find( k ) - m.p->begin() ) == first, w );
			VP_CHECK( "get", c.get< string >( k ) == e->value && c.get< string >( k, "default" ) == e->value && c.get_any< string >( { "no such", k }, "default" ) == e->value && c.get_any< string >( { "no such", k } ) == e->value, w );
		}
		else
		{
			VP_CHECK( "missing-throws", throws( [&] { c.get_child( k ); } ) && throws( [&] { c[ k ]; } ) && throws( [&] { m.p->get_child( k ); } ) && throws( [&] { c.get< string >( k ); } ), w );
			VP_CHECK( "missing-any-throws", throws( [&] { c.get_any< string >( { k, string( "no such" ) } ); } ), w );
			VP_CHECK( "missing-default", &fb == &fallback && c.get< string >( k, "default" ) == "default" && c.get< int >( k, 42 ) == 42 && c.get_any< string >( { k, string( "no such" ) }, "default" ) == "default", w );
			VP_CHECK( "find-missing", c.find( k ) == c.end(), w );
		}
		// order
		size_t i = 0; for ( auto& kvp : c ) { VP_CHECK( "iteration", i < m.s->kids.size() && kvp.first == m.s->kids[ i ].first && kvp.first == c.get_key( i ) && &kvp.second == &c.get_child( i ) && &kvp.second == &c[ i ], w ); ++i; }
		VP_CHECK( "iteration-count", i == m.s->kids.size() && size_t( c.cend() - c.cbegin() ) == i, w );
		VP_CHECK( "index-range", throws( [&] { c.get_child( i ); } ) && throws( [&] { c.get_key( i ); } ) && throws( [&] { c.get_child( flut::no_index ); } ) && throws( [&] { m.p->get_child( i ); } ) && throws( [&] { m.p->get_child( flut::no_index ); } ), w );
		// delimited
		{
			// walk down along existing keys as far as possible, so that deep keys are found too
			string dk; const Shadow* g = m.s; size_t depth = 0; while ( g && depth < 5 ) { std::vector< string > ok; for ( auto& x : g->kids ) if ( x.first.find( '.' ) == string::npos && !x.first.empty() ) ok.push_back( x.first ); string part = ok.empty() || r.chance( 1, 8 ) ? plain_key( r ) : ok[ r.below( ok.size() ) ]; dk += ( depth ? "." : "" ) + part; g = g->find( part ); ++depth; if ( r.chance( 1, 4 ) ) break; }
			const prop_node* gp = c.try_get_child_delimited( dk ); VP_CHECK( "delimited-deep", ( gp != nullptr ) == ( g != nullptr ) && ( !g || from_flut( *gp ) == *g ), dk + " " + w );
			if ( g ) VP_CHECK( "get_delimited-deep", c.get_delimited< string >( dk ) == g->value, dk + " " + w ); else VP_CHECK( "get_delimited-deep-missing", throws( [&] { c.get_delimited< string >( dk ); } ), dk + " " + w );
			if ( g && depth >= 3 ) event( "deep delimited keys found" );
		}
		string d1 = plain_key( r ), d2 = plain_key( r ); const Shadow* f = m.s->find( d1 ); if ( f ) f = f->find( d2 );
		const prop_node* fp = c.try_get_child_delimited( d1 + "." + d2 );
		VP_CHECK( "delimited", ( fp != nullptr ) == ( f != nullptr ) && ( !f || from_flut( *fp ) == *f ), d1 + "." + d2 + " " + w );
		if ( f ) VP_CHECK( "get_delimited", c.get_delimited< string >( d1 + "." + d2 ) == f->value, d1 + "." + d2 + " " + w );
		else VP_CHECK( "get_delimited-throws", throws( [&] { c.get_delimited< string >( d1 + "." + d2 ); } ), d1 + "." + d2 + " " + w );
		if ( i ) { size_t j = r.below( i ); VP_CHECK( "index-write-access", &( *m.p )[ j ] == &c.get_child( j ), w ); } VP_CHECK( "empty-node", flut::empty_prop_node().empty() && flut::empty_prop_node().size() == 0 && !flut::empty_prop_node().has_value(), w );
		// equality
		VP_CHECK( "equality", ( t[ a ] == t[ b ] ) == ( s[ a ] == s[ b ] ) && ( t[ a ] != t[ b ] ) == ( s[ a ] != s[ b ] ), trace );
		prop_node eq = to_flut( *m.s ); VP_CHECK( "equal-copy", c == eq && eq == c && !( c != eq ), w );
		if ( m.s->nodes() > 1 )
		{
			// one small difference anywhere makes it unequal
			Shadow x = *m.s; Shadow* p = &x; while ( !p->kids.empty() && r.chance( 1, 2 ) ) p = &p->kids[ r.below( p->kids.size() ) ].second;
			switch ( r.below( 4 ) )
			{
			case 0: p->value += "!"; break;
			case 1: p->add( "extra" ); break;
			case 2: if ( !p->kids.empty() ) p->kids.back().first += "!"; else p->value += "!"; break;
			default: if ( !p->kids.empty() ) p->kids.pop_back(); else p->value += "!";
			}
			prop_node px = to_flut( x ); VP_CHECK( "unequal", c != px && px != c && !( c == px ), show( x ) + " and " + w );
		}
		event( "reads" );
		verify(); // lookups on a constant tree do not change it
	}
	if ( mods >= 5 ) { note( trace ); if ( want_sample() ) sample( trace ); }
}
// many children: growth does not disturb order or references to values
PART( wide, 40, 400 )
{
	prop_node t; Shadow s; size_t n = 500 + r.below( 2000 );
	for ( size_t i = 0; i < n; ++i ) { string k = "k" + std::to_string( r.below( n ) ), v = std::to_string( i ); if ( r.chance( 1, 2 ) ) { t.set( k, v ); s.set( k, v ); } else { t.push_back( k, v ); s.add( k, v ); } }
	string d = differs( from_flut( t ), s ); VP_CHECK( "wide", d.empty(), d );
	// one difference among many children, at any place, makes two trees unequal
	const prop_node original( t ); VP_CHECK( "wide-equal", original == t, num( t.size() ) + " children" );
	for ( int k = 0; k < 8; ++k )
	{
		Shadow o( s ); size_t at = k == 0 ? o.kids.size() - 1 : r.below( o.kids.size() ); auto& e = o.kids[ at ];
		switch ( r.below( 4 ) ) { case 0: e.second.value += "x"; break; case 1: e.first += "x"; break; case 2: e.second.add( "extra" ); break; default: o.kids.erase( o.kids.begin() + at ); }
		const prop_node other = to_flut( o ); VP_CHECK( "wide-unequal", !( original == other ) && other != original, num( s.kids.size() ) + " children, one different at " + num( at ) ); event( "wide comparison" );
	}
	prop_node deep; Shadow sd; size_t depth = 100 + r.below( 300 );
	{ prop_node* p = &deep; Shadow* q = &sd; for ( size_t i = 0; i < depth; ++i ) { p = &( *p )[ "d" ]; q = &q->add( "d" ); p->set( "v", string( "1" ) ); q->set( "v", "1" ); } }
	VP_CHECK( "deep", from_flut( deep ) == sd && prop_node( deep ) == deep, num( depth ) );
	note( r.next() ); event( "modification", n );
}
