// C14 Include directives and merges produce exactly the composed tree
// vp-rule: random include graphs (chains, diamonds, cycles, missing files, multi-root files) over native and XML files in nested folders, loaded and compared with a reference composition; random tree pairs merged both ways; non-trivial: at least one include resolved or refused, or a merge with both shared and new keys; counted by file contents
#include "flut/prop_node_tools.hpp"
#include "tree.hpp"
using namespace vp;
using std::string;

struct Error {};
struct File { string folder, name; bool xml; Shadow tree; bool exists = true; string full() const { return folder.empty() ? name : folder + "/" + name; } };

static string esc_xml( const string& s ) { string o; for ( char c : s ) { if ( c == '<' ) o += "&lt;"; else if ( c == '&' ) o += "&amp;"; else if ( c == '>' ) o += "&gt;"; else if ( c == '"' ) o += "&quot;"; else o += c; } return o; }
static void write_xml( const Shadow& s, string& o, Rng& r, const string& directive )
{
	for ( auto& e : s.kids )
	{
		o += "<" + e.first; size_t from = 0;
		// leading leaves may be written as attributes
		if ( e.first == directive && r.chance( 3, 4 ) ) for ( ; from < e.second.kids.size(); ++from ) o += " " + e.second.kids[ from ].first + "=\"" + esc_xml( e.second.kids[ from ].second.value ) + "\"";
		if ( from == e.second.kids.size() && e.second.value.empty() ) { o += "/>\n"; continue; }
		o += ">" + esc_xml( e.second.value );
		Shadow rest; rest.kids.assign( e.second.kids.begin() + from, e.second.kids.end() );
		write_xml( rest, o, r, directive ); o += "</" + e.first + ">\n";
	}
}
static void write_prop( const Shadow& s, string& o, Rng& r, int depth )
{
	for ( auto& e : s.kids )
	{
		o += string( depth * 2, ' ' ) + e.first;
		if ( !e.second.value.empty() || e.second.kids.empty() ) o += " = \"" + e.second.value + "\"";
		if ( !e.second.kids.empty() ) { o += " {\n"; write_prop( e.second, o, r, depth + 1 ); o += string( depth * 2, ' ' ) + "}"; }
		o += "\n";
	}
}

/// reference composition
struct Composer
{
	std::map< string, const File* > files; string directive; size_t includes = 0; int limit = 100;
	static string normal( const string& p )
	{
		std::vector< string > v; size_t i = 0;
		while ( i <= p.size() ) { size_t j = p.find( '/', i ); if ( j == string::npos ) j = p.size(); string e = p.substr( i, j - i ); if ( e == ".." ) { if ( !v.empty() ) v.pop_back(); } else if ( !e.empty() && e != "." ) v.push_back( e ); i = j + 1; }
		string s; for ( auto& e : v ) s += ( s.empty() ? "" : "/" ) + e; return s;
	}
	static void merge( Shadow& s, const Shadow& o, bool overwrite ) { for ( auto& e : o.kids ) { Shadow* f = s.find( e.first ); if ( !f ) s.kids.push_back( e ); else if ( overwrite ) *f = e.second; } }
	void resolve( Shadow& s, const string& folder, int level )
	{
		for ( size_t i = 0; i < s.kids.size(); )
		{
			if ( s.kids[ i ].first != directive ) { resolve( s.kids[ i ].second, folder, level ); ++i; continue; }
			const Shadow* f = s.kids[ i ].second.find( "file" ); if ( !f ) throw Error();
			const Shadow* m = s.kids[ i ].second.find( "merge_children" ); bool merging = m && m->value == "1";
			Shadow inc = load( normal( folder + "/" + f->value ), level + 1 ); ++includes;
			if ( inc.kids.size() != 1 ) throw Error();
			s.kids.erase( s.kids.begin() + i );
			if ( merging ) merge( s, inc.kids[ 0 ].second, false );
			else { s.kids.insert( s.kids.begin() + i, inc.kids[ 0 ] ); ++i; }
		}
	}
	Shadow load( const string& file, int level )
	{
		if ( level >= limit ) throw Error();
		auto it = files.find( file ); if ( it == files.end() || !it->second->exists ) throw Error();
		Shadow s = it->second->tree; resolve( s, it->second->folder, level ); return s;
	}
};

static const char* keys[] = { "a", "b", "c", "d", "model", "props", "p1", "p2" };
static void grow( Rng& r, Shadow& s, int depth, bool xml )
{
	for ( size_t n = 1 + r.below( 4 ); n; --n )
	{
		Shadow& c = s.add( keys[ r.below( 8 ) ] );
		if ( depth > 0 && r.chance( 1, 2 ) ) { grow( r, c, depth - 1, xml ); if ( !xml && r.chance( 1, 6 ) ) c.value = "v"; }
		else c.value = r.pick( { "", "1", "text", "3.5", "two words", "x=y", "100%" } );
	}
}
/// insert an include node somewhere
static void place( Rng& r, Shadow& s, const Shadow& inc, const string& directive, int depth )
{
	if ( depth > 0 && !s.kids.empty() && r.chance( 2, 3 ) )
	{
		size_t i = r.below( s.kids.size() ); auto& e = s.kids[ i ];
		if ( e.first != directive ) { if ( e.second.kids.empty() ) { e.second.value = ""; } place( r, e.second, inc, directive, depth - 1 ); return; }
	}
	s.kids.insert( s.kids.begin() + r.below( s.kids.size() + 1 ), std::make_pair( directive, inc ) );
}
static string relative( const string& from_folder, const File& to, Rng& r )
{
	if ( from_folder.empty() ) return r.chance( 1, 6 ) ? "./" + to.full() : to.full();
	if ( from_folder == to.folder && r.chance( 4, 5 ) ) return to.name;
	if ( to.folder.size() > from_folder.size() && to.folder.compare( 0, from_folder.size() + 1, from_folder + "/" ) == 0 ) return to.folder.substr( from_folder.size() + 1 ) + "/" + to.name;
	string up; for ( size_t i = 0; i <= (size_t)std::count( from_folder.begin(), from_folder.end(), '/' ); ++i ) up += "../";
	return up + to.full();
}

PART( graphs, 6000, 150000 )
{
	Scratch sc; const string directive = r.chance( 1, 4 ) ? r.pick( { "include", "Import", "FILE", "INCLUDE2" } ) : "INCLUDE";
	for ( auto f : { "sub", "sub/deep", "other" } ) mkdir( ( sc / f ).c_str(), 0755 );
	size_t n = r.chance( 1, 10 ) ? 1 + r.below( 12 ) : 1 + r.below( 5 );
	std::vector< File > f( n );
	for ( size_t i = 0; i < n; ++i )
	{
		f[ i ].xml = r.chance( 1, 3 );
		f[ i ].folder = r.pick( { "", "", "sub", "sub/deep", "other" } ); f[ i ].name = "f" + num( (unsigned long)i ) + ( f[ i ].xml ? ( r.chance( 1, 5 ) ? ".prop.xml" : ".xml" ) : r.pick( { ".prop", ".scone", "", "xml", ".rxml", ".xml.prop", ".xml2", ".pxml" } ) );
		Shadow& root = f[ i ].tree.add( keys[ 4 + r.below( 4 ) ] ); grow( r, root, (int)r.below( 3 ), f[ i ].xml );
		if ( n < 6 && r.chance( 1, 20 ) ) { event( "wide file" ); for ( size_t k = r.below( 300 ); k; --k ) root.add( "w" + num( (unsigned long)r.below( 400 ) ), num( (unsigned long)k ) ); }
		if ( r.chance( 1, 30 ) && !f[ i ].xml ) f[ i ].tree.add( "second", "root" );
	}
	bool cyclic = r.chance( 1, 10 );
	for ( size_t i = 0; i < n; ++i )
	{
		for ( size_t m = i + 1 < n ? ( i == 0 ? 1 + r.below( 3 ) : r.below( 3 ) ) : r.below( cyclic ? 2 : 1 ); m; --m )
		{
			size_t to = cyclic ? r.below( n ) : i + 1 < n ? i + 1 + r.below( n - i - 1 ) : n;
			if ( to >= n ) break;
			Shadow inc; bool merging = r.chance( 1, 3 );
			if ( !r.chance( 1, 200 ) ) inc.add( "file", relative( f[ i ].folder, f[ to ], r ) );
			if ( merging ) inc.add( "merge_children", "1" ); else if ( r.chance( 1, 4 ) ) inc.add( "merge_children", "0" );
			if ( r.chance( 1, 6 ) ) inc.add( "comment", "ignored" );
			if ( r.chance( 1, 8 ) && !f[ i ].xml ) { if ( r.chance( 1, 3 ) ) f[ i ].tree.kids.clear(); f[ i ].tree.kids.insert( f[ i ].tree.kids.begin() + r.below( f[ i ].tree.kids.size() + 1 ), std::make_pair( directive, inc ) ); }
			else if ( !f[ i ].tree.kids.empty() && f[ i ].tree.kids[ 0 ].first != directive ) place( r, f[ i ].tree.kids[ 0 ].second, inc, directive, 3 );
		}
		if ( i && r.chance( 1, 40 ) ) f[ i ].exists = false;
	}
	string all; Composer comp; comp.directive = directive;
	for ( auto& x : f )
	{
		comp.files[ x.full() ] = &x; string o;
		if ( x.xml ) write_xml( x.tree, o, r, directive ); else write_prop( x.tree, o, r, 0 );
		all += "== " + x.full() + ( x.exists ? "" : " (missing)" ) + "\n" + o;
		if ( x.exists ) put_file( sc / x.full(), o );
	}
	bool expect_error = false; Shadow expect;
	try { expect = comp.load( f[ 0 ].full(), 0 ); } catch ( Error& ) { expect_error = true; }
	string target = sc / f[ 0 ].full(); int cwd = -1;
	if ( r.chance( 1, 4 ) ) { cwd = open( ".", O_RDONLY ); if ( chdir( ( f[ 0 ].folder.empty() ? sc.dir : sc / f[ 0 ].folder ).c_str() ) ) _exit( 90 ); target = f[ 0 ].name; event( "relative to working directory" ); }
	bool failed = false; Shadow got; size_t unread = 0, nodes = 0;
	try { flut::prop_node pn = directive == "INCLUDE" && r.chance( 1, 2 ) ? flut::load_file_with_include( flut::path( target ) ) : flut::load_file_with_include( flut::path( target ), directive ); unread = pn.count_unaccessed(); got = from_flut( pn ); nodes = got.nodes(); }
	catch ( std::exception& ) { failed = true; }
	if ( cwd >= 0 ) { if ( fchdir( cwd ) ) _exit( 90 ); close( cwd ); }
	VP_CHECK( expect_error ? "error-not-raised" : "unexpected-error", failed == expect_error, all );
	if ( !failed )
	{
		string d = differs( got, expect ); VP_CHECK( "composed", d.empty(), d + " in\n" + all );
		VP_CHECK( "unread", unread == nodes, "loaded tree has marks" );
		event( "include resolved", comp.includes );
	}
	else event( "refused" );
	if ( comp.includes || failed ) note( all );
	if ( want_sample() ) sample( all );
}
PART( chains, 60, 600 )
{
	// long chains below the limit resolve, cycles of every length are refused
	Scratch sc; size_t n = r.chance( 1, 2 ) ? 1 + r.below( 8 ) : 20 + r.below( 70 ); bool cyc = idx % 2;
	if ( idx % 10 == 0 ) n = 98 + idx / 10 % 6; // around the limit: files at levels 0 to 99 are read
	for ( size_t i = 0; i < n; ++i )
	{
		string next = i + 1 < n ? "f" + num( (unsigned long)( i + 1 ) ) + ".prop" : "f" + num( (unsigned long)r.below( n ) ) + ".prop";
		string o = "k" + num( (unsigned long)i ) + " {\n v = " + num( (unsigned long)i ) + "\n";
		if ( i + 1 < n || cyc ) { o += "INCLUDE { file = \"" + next + "\" }\n"; if ( cyc && r.chance( 1, 2 ) ) o += "INCLUDE { file = \"" + next + "\" }\n"; }
		put_file( sc / ( "f" + num( (unsigned long)i ) + ".prop" ), o + "w = 1\n}\n" );
	}
	flut::path p( sc / "f0.prop" );
	if ( !cyc && n > 100 ) { VP_CHECK( "limit-refused", throws( [&] { flut::load_file_with_include( p ); } ), "chain of " + num( n ) + " files" ); event( "too deep refused" ); }
	else if ( cyc ) { VP_CHECK( "cycle-refused", throws( [&] { flut::load_file_with_include( p ); } ), "cycle over " + num( n ) + " files" ); event( "cycle refused" ); }
	else
	{
		flut::prop_node pn = flut::load_file_with_include( p ); Shadow s = from_flut( pn ); const Shadow* c = &s;
		for ( size_t i = 0; i < n; ++i )
		{
			string w = "level " + num( i ) + " of chain " + num( n );
			c = c->find( "k" + num( (unsigned long)i ) ); VP_CHECK( "chain", c && c->kids.size() == ( i + 1 < n ? 3u : 2u ) && c->kids[ 0 ].second.value == num( (unsigned long)i ) && c->kids.back().first == "w", w );
		}
		event( "chain resolved" );
	}
	note( num( n ) + num( cyc ) );
}
PART( merges, 12000, 300000 )
{
	Shadow a, b; a.value = r.pick( { "", "va" } ); b.value = r.pick( { "", "vb" } );
	grow( r, a, (int)r.below( 3 ), false ); grow( r, b, (int)r.below( 3 ), false ); if ( r.chance( 1, 10 ) ) a.kids.clear(); if ( r.chance( 1, 10 ) ) b.kids.clear();
	bool over = r.chance( 1, 2 ); flut::prop_node pa = to_flut( a ), pb = to_flut( b ); bool self = r.chance( 1, 20 );
	Shadow expect = a; if ( !self ) Composer::merge( expect, b, over );
	string w = show( a ) + ( self ? " merged with itself" : " merged with " + show( b ) ) + ( over ? " overwriting" : "" );
	if ( self ) { flut::prop_node c = pa; flut::merge_prop_nodes( pa, c, false ); } else flut::merge_prop_nodes( pa, pb, over );
	string d = differs( from_flut( pa ), expect ); VP_CHECK( "merged", d.empty(), d + ": " + w );
	if ( !self ) VP_CHECK( "source-unchanged", from_flut( pb ) == b, w );
	size_t shared = 0, fresh = 0; for ( auto& e : b.kids ) ( a.find( e.first ) ? shared : fresh )++;
	event( "merged key", shared + fresh ); if ( shared && fresh ) note( w );
	// a part of the tree merged into the whole, or into its own parent
	if ( a.kids.empty() ) return;
	flut::prop_node pc = to_flut( a ); size_t k = r.below( a.kids.size() ); Shadow part = a.kids[ k ].second; flut::prop_node* src = &pc[ flut::index_t( k ) ];
	if ( !part.kids.empty() && r.chance( 1, 3 ) ) { size_t m = r.below( part.kids.size() ); Shadow deeper = part.kids[ m ].second; src = &( *src )[ flut::index_t( m ) ]; part = deeper; }
	expect = a; Composer::merge( expect, part, over ); flut::merge_prop_nodes( pc, *src, over );
	d = differs( from_flut( pc ), expect ); VP_CHECK( "merged-own-part", d.empty(), d + ": " + show( part ) + " merged into " + show( a ) + ( over ? " overwriting" : "" ) ); event( "own part merged" );
}
