// C15 Each log message reaches exactly the sinks whose level admits it, once
// vp-rule: random histories over recording, stream and file sinks (create, destroy, remove, re-add, add twice, set level, set global level) interleaved with messages of all levels through every logging interface; received messages compared with a shadow registry after each; non-trivial: at least one message delivered and one withheld; counted by history
#include "flut/system/log_sink.hpp"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "common.hpp"
#include <sstream>
using namespace vp;
using std::string;
namespace lg = flut::log;

struct Entry { lg::level l; string m; bool operator==( const Entry& o ) const { return l == o.l && m == o.m; } };
struct Rec : lg::sink
{
	Rec( lg::level l ) : sink( l ) {}
	std::vector< Entry > got;
	void send_log_message( lg::level l, const string& m ) override { got.push_back( Entry{ l, m } ); }
};
struct Slot
{
	int kind = 0; // 1 recording, 2 stream, 3 file, 4 recording with default level
	std::unique_ptr< lg::sink > s; std::unique_ptr< std::stringstream > str; string file;
	bool registered = false; int level = 0; std::vector< Entry > expect; string expect_text;
};
static void vlog( lg::level l, const char* format, ... ) { va_list va; va_start( va, format ); lg::log_vstring( l, format, va ); va_end( va ); }

PART( histories, 8000, 250000 )
{
	static Scratch sc; static int file_nr = 0;
	std::vector< Slot > s( 4 ); string trace; size_t delivered = 0, withheld = 0;
	auto check = [&]( Slot& x ) {
		if ( x.kind == 1 || x.kind == 4 )
		{
			auto& got = static_cast< Rec& >( *x.s ).got;
			VP_CHECK( got.size() < x.expect.size() ? "lost" : got.size() > x.expect.size() ? "extra" : "content", got == x.expect, num( got.size() ) + " messages, expected " + num( x.expect.size() ) + ( got.empty() ? "" : " last " + vp::show( got.back().m, 60 ) ) + " after" + trace );
		}
		else if ( x.kind == 2 ) VP_CHECK( "stream", x.str->str() == x.expect_text, "stream holds " + vp::show( x.str->str() ) + " expected " + vp::show( x.expect_text ) + " after" + trace );
		else if ( x.kind == 3 ) { string t; VP_CHECK( "file", get_file( x.file, t ) && t == x.expect_text, "file holds " + vp::show( t ) + " expected " + vp::show( x.expect_text ) + " after" + trace ); }
	};
	size_t steps = r.chance( 1, 60 ) ? 200 : 8 + r.below( 40 );
	for ( size_t i = 0; i < steps; ++i )
	{
		Slot& x = s[ r.below( s.size() ) ]; lg::level l = (lg::level)r.range( lg::trace_level, lg::never_log_level );
		trace += " | " + num( int( &x - &s[ 0 ] ) ) + ":";
		switch ( r.below( 9 ) )
		{
		case 0: case 1:
			if ( x.kind )
			{
				if ( r.chance( 1, 3 ) )
				{
					// after destruction: nothing may arrive (ASan sees it)
					check( x ); x.s.reset(); if ( x.kind == 3 ) { string t; VP_CHECK( "file-after-close", get_file( x.file, t ) && t == x.expect_text, trace ); unlink( x.file.c_str() ); }
					x = Slot(); trace += "destroy"; event( "destroy" );
				}
			}
			else
			{
				x.kind = 1 + (int)r.below( 4 ); x.level = l; x.registered = true; event( "create" );
				if ( x.kind == 1 ) x.s.reset( new Rec( l ) );
				else if ( x.kind == 2 ) { x.str.reset( new std::stringstream ); x.s.reset( new lg::stream_sink( l, *x.str ) ); }
				else if ( x.kind == 3 ) { x.file = sc / ( "log" + num( file_nr++ ) ); if ( r.chance( 1, 3 ) ) put_file( x.file, "old contents\n" ); auto* f = new lg::file_sink( l, flut::path( x.file ) ); x.s.reset( f ); VP_CHECK( "file-good", f->good(), trace ); }
				else { struct Def : Rec { Def() : Rec( lg::info_level ) {} }; x.s.reset( new Def ); x.level = lg::info_level; }
				trace += "create kind " + num( x.kind ) + " level " + num( x.level );
			}
			break;
		case 2: if ( x.kind ) { x.s->set_log_level( l ); x.level = l; trace += "set level " + num( (int)l ); VP_CHECK( "sink-level", x.s->get_log_level() == l, trace ); event( "set level" ); } break;
		case 3: if ( r.chance( 1, 3 ) ) { lg::set_global_log_level( l ); for ( auto& y : s ) if ( y.kind && y.registered ) y.level = l; trace += "global level " + num( (int)l ); event( "set global level" ); for ( auto& y : s ) if ( y.kind ) VP_CHECK( "global-sets-sinks", y.s->get_log_level() == y.level, trace ); } break;
		case 4: if ( x.kind && r.chance( 1, 2 ) ) { lg::remove_sink( x.s.get() ); x.registered = false; trace += "remove"; event( "remove" ); } break;
		case 5: if ( x.kind ) { lg::add_sink( x.s.get() ); if ( r.chance( 1, 2 ) ) lg::add_sink( x.s.get() ); x.registered = true; trace += "add"; event( "add" ); } break;
		default:
			{
				string m = r.chance( 1, 30 ) ? r.bytes( r.len( 5000 ) ) : r.text( "abc %d\\n{}\"", r.below( 12 ) ); int n = (int)r.range( -999999, 999999 ); int api = (int)r.below( 8 ); if ( r.chance( 1, 20 ) && ( api == 0 || api == 4 || api == 7 ) ) m.insert( r.below( m.size() + 1 ), 1, '\0' ); string expect = m;
				switch ( api )
				{
				case 0: lg::message( l, m ); break;
				case 1: lg::messagef( l, "%s", m.c_str() ); break;
				case 2: vlog( l, "%s|%d", m.c_str(), n ); expect = m + "|" + num( n ); break;
				case 3: if ( r.chance( 1, 3 ) ) { int d = (int)r.below( 9 ); double x = r.real( -100, 100 ); lg::message( l, m, flut::setfixed( d ), x, "|", 0.5 ); expect = m + flut::stringf( "%.*f|%.*f", d, x, d, 0.5 ); break; } lg::message( l, m, "=", n, ' ', 'c', true ); expect = m + "=" + num( n ) + " c1"; break;
				case 4: lg::log_string( l, m ); break;
				case 5: if ( l == lg::never_log_level ) l = lg::info_level;
					switch ( l ) { case lg::trace_level: lg::trace( m, n ); break; case lg::debug_level: lg::debug( m, n ); break; case lg::info_level: lg::info( m, n ); break; case lg::warning_level: lg::warning( m, n ); break; case lg::error_level: lg::error( m, n ); break; default: lg::critical( m, n ); }
					expect = m + num( n ); break;
				case 6: if ( l == lg::never_log_level ) l = lg::info_level;
					switch ( l ) { case lg::trace_level: lg::tracef( "%s%d", m.c_str(), n ); break; case lg::debug_level: lg::debugf( "%s%d", m.c_str(), n ); break; case lg::info_level: lg::infof( "%s%d", m.c_str(), n ); break; case lg::warning_level: lg::warningf( "%s%d", m.c_str(), n ); break; case lg::error_level: lg::errorf( "%s%d", m.c_str(), n ); break; default: lg::criticalf( "%s%d", m.c_str(), n ); }
					expect = m + num( n ); break;
				default: { std::stringstream str; str << m; lg::log_stream( l, str ); }
				}
				trace += "log level " + num( (int)l ) + " api " + num( api );
				for ( auto& y : s ) if ( y.kind )
				{
					if ( y.registered && (int)l >= y.level ) { y.expect.push_back( Entry{ l, expect } ); y.expect_text += expect + "\n"; ++delivered; } else ++withheld;
				}
				event( "message" );
			}
		}
		for ( auto& y : s ) if ( y.kind ) check( y );
		// asked for the global level, the library tells the lowest level in force without changing anything
		bool any = false; int lowest = lg::critical_level; for ( auto& y : s ) if ( y.kind && y.registered ) { any = true; lowest = std::min( lowest, y.level ); }
		if ( any && r.chance( 1, 4 ) ) VP_CHECK( "global-level", (int)lg::get_global_log_level() == lowest, "level " + num( (int)lg::get_global_log_level() ) + " expected " + num( lowest ) + " after" + trace );
		if ( any ) { for ( int q = lg::trace_level; q <= lg::critical_level; ++q ) { bool admit = false; for ( auto& y : s ) if ( y.kind && y.registered && q >= y.level ) admit = true; if ( admit || q < lg::critical_level ) VP_CHECK( "test-level", lg::test_log_level( (lg::level)q ) == admit, "level " + num( q ) + " after" + trace ); } }
	}
	event( "delivered", delivered ); event( "withheld", withheld );
	if ( delivered && withheld ) note( trace );
	if ( want_sample() ) sample( trace );
	for ( auto& x : s ) if ( x.kind ) { x.s.reset(); if ( x.kind == 3 ) unlink( x.file.c_str() ); }
}

// many sinks and many messages
PART( large, 60, 1200 )
{
	size_t n = r.len( 300 ), count = r.chance( 1, 2 ) ? r.len( 4000 ) : r.below( 50 ); if ( n * count > 60000 ) count = 60000 / n; std::vector< std::unique_ptr< Rec > > s; std::vector< std::vector< size_t > > expect; std::vector< Entry > sent; std::vector< char > in; string w = num( n ) + " sinks, " + num( count ) + " messages";
	auto create = [&] { lg::level l = (lg::level)r.range( lg::trace_level, lg::never_log_level ); s.emplace_back( new Rec( l ) ); expect.emplace_back(); in.push_back( 1 ); };
	for ( size_t i = 0; i < n; ++i ) create();
	for ( size_t k = 0; k < count; ++k )
	{
		if ( n && r.chance( 1, 20 ) ) { size_t i = r.below( n ); switch ( r.below( 3 ) ) { case 0: lg::remove_sink( s[ i ].get() ); in[ i ] = 0; break; case 1: lg::add_sink( s[ i ].get() ); in[ i ] = 1; break; default: s[ i ]->set_log_level( (lg::level)r.range( lg::trace_level, lg::never_log_level ) ); } }
		lg::level l = (lg::level)r.range( lg::trace_level, lg::critical_level ); string m = r.chance( 1, 500 ) ? r.bytes( r.len( 140000 ) ) : r.text( "abc %d", r.below( 8 ) ) + num( k ); lg::message( l, m ); sent.push_back( Entry{ l, m } );
		for ( size_t i = 0; i < n; ++i ) if ( in[ i ] && l >= s[ i ]->get_log_level() ) expect[ i ].push_back( k );
	}
	for ( size_t i = 0; i < n; ++i )
	{
		VP_CHECK( "large-count", s[ i ]->got.size() == expect[ i ].size(), w + ": sink " + num( i ) + " has " + num( s[ i ]->got.size() ) + " messages, expected " + num( expect[ i ].size() ) );
		for ( size_t k = 0; k < expect[ i ].size(); ++k ) VP_CHECK( "large-message", s[ i ]->got[ k ] == sent[ expect[ i ][ k ] ], w + ": message " + num( k ) + " of sink " + num( i ) );
		event( "delivered", expect[ i ].size() );
	}
	while ( !s.empty() ) { size_t i = r.below( s.size() ); s.erase( s.begin() + i ); if ( r.chance( 1, 8 ) ) { size_t before = s.empty() ? 0 : s[ 0 ]->got.size(); lg::message( lg::critical_level, "x" ); (void)before; } }
	note( w + num( r.next() ) ); event( "message", count );
}
// long-lived stream and file sinks
PART( long_files, 30, 600 )
{
	Scratch sc; size_t count = r.len( 6000 ); string text, w = num( count ) + " messages"; std::stringstream str;
	{
		lg::file_sink f( lg::info_level, flut::path( sc / "l.txt" ) ); lg::stream_sink g( lg::info_level, str ); VP_CHECK( "large-file-good", f.good(), w );
		for ( size_t k = 0; k < count; ++k ) { string m = r.chance( 1, 400 ) ? r.text( "abc\n", r.len( 140000 ) ) : "message " + num( k ); bool low = r.chance( 1, 5 ); lg::message( low ? lg::debug_level : lg::warning_level, m ); if ( !low ) text += m + "\n"; }
		string t; VP_CHECK( "large-file-open", get_file( sc / "l.txt", t ) && t == text, w + ": file of " + num( t.size() ) + " bytes, expected " + num( text.size() ) );
		VP_CHECK( "large-stream", str.str() == text, w );
	}
	string t; VP_CHECK( "large-file-closed", get_file( sc / "l.txt", t ) && t == text, w ); event( "file lines", count ); note( w + num( r.next() ) );
}
