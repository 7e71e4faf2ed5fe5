// C21 A circular frame buffer always returns the most recent frames
// vp-rule: random histories of adding frames and channels, labelling, writing by index/relative/latest, resizing and copying, with every retained written cell read through all accessors after each operation; non-trivial: wrapped around at least once; counted by history
#include "flut/buffer/circular_frame_buffer.hpp"
#include "common.hpp"
using namespace vp;
using std::string;
using flut::index_t;

template< typename T > void history( Rng& r )
{
	typedef flut::circular_frame_buffer< T, string > buf_t;
	size_t ch = r.below( 4 ), len = 1 + ( r.chance( 1, 10 ) ? r.below( 40 ) : r.below( 6 ) ), frames = 0; buf_t b( ch, len ); string trace = num( len ) + " frames, " + num( ch ) + " channels";
	std::vector< string > labels( ch ); std::vector< bool > named( ch );
	std::map< std::pair< size_t, size_t >, T > known; // cells of retained frames with a defined value
	bool wrapped = false;
	auto find = [&]( const string& l ) { for ( size_t i = 0; i < ch; ++i ) if ( named[ i ] && labels[ i ] == l ) return index_t( i ); return flut::no_index; };
	auto oldest = [&] { return frames > len ? frames - len : 0; };
	auto reset_cells = [&] { known.clear(); for ( size_t f = oldest(); f < frames; ++f ) for ( size_t c = 0; c < ch; ++c ) known[ { f, c } ] = T(); };
	size_t steps = r.chance( 1, 40 ) ? 250 : 5 + r.below( 50 );
	for ( size_t s = 0; s < steps; ++s )
	{
		T v = T( (double)r.range( -999, 999 ) / 4 ); string l = r.pick( { "a", "b", "c", "d", "e" } ); size_t f = frames ? oldest() + r.below( frames - oldest() ) : 0, c = ch ? r.below( ch ) : 0; bool can = frames && ch; trace += " | ";
		switch ( r.below( 14 ) )
		{
		case 0: case 1: case 2: case 3:
			{
				VP_CHECK( "add-frame", b.add_frame() == frames + 1, trace ); ++frames; trace += "frame"; if ( frames > len ) wrapped = true;
				for ( auto it = known.begin(); it != known.end(); ) if ( it->first.first < oldest() ) it = known.erase( it ); else ++it;
				if ( r.chance( 3, 4 ) ) for ( size_t k = 0; k < ch; ++k ) { T x = T( (double)r.range( -999, 999 ) / 4 ); b[ k ] = x; known[ { frames - 1, k } ] = x; }
				break;
			}
		case 4: if ( can ) { b( f, c ) = v; known[ { f, c } ] = v; trace += "(" + num( f ) + "," + num( c ) + ")="; } break;
		case 5: if ( can ) { b.at( f, c ) = v; known[ { f, c } ] = v; trace += "at(" + num( f ) + "," + num( c ) + ")="; } break;
		case 6: if ( can ) { b.reverse( frames - 1 - f, c ) = v; known[ { f, c } ] = v; trace += "reverse(" + num( frames - 1 - f ) + "," + num( c ) + ")="; } break;
		case 7: if ( can ) { b[ c ] = v; known[ { frames - 1, c } ] = v; trace += "[" + num( c ) + "]="; } break;
		case 8: if ( r.chance( 1, 3 ) ) { if ( find( l ) != flut::no_index ) { VP_CHECK( "duplicate", throws( [&] { b.add_channel( l ); } ), trace ); } else { VP_CHECK( "add-channel", b.add_channel( l ) == ch, trace ); ++ch; labels.push_back( l ); named.push_back( true ); reset_cells(); trace += "channel " + l; } } break;
		case 9: if ( r.chance( 1, 3 ) ) { index_t at = find( l ); index_t got = b.find_or_add_channel( l ); if ( at == flut::no_index ) { at = ch++; labels.push_back( l ); named.push_back( true ); reset_cells(); } VP_CHECK( "find-or-add", got == at, trace ); trace += "find_or_add " + l; } break;
		case 10: if ( ch && find( l ) == flut::no_index ) { b.set_label( c, l ); labels[ c ] = l; named[ c ] = true; trace += "label " + num( c ) + " " + l; } break;
		case 11: if ( r.chance( 1, 5 ) ) { len = 1 + r.below( 8 ); if ( r.chance( 1, 2 ) ) b.resize_buffer( len, v ); else { size_t more = r.below( 2 ); b.resize_buffer( len, ch + more, v ); for ( ; more; --more ) { ++ch; labels.push_back( "" ); named.push_back( false ); } } known.clear(); for ( size_t g = oldest(); g < frames; ++g ) for ( size_t k = 0; k < ch; ++k ) known[ { g, k } ] = v; trace += "resize " + num( len ); } break;
		case 12: { buf_t copy( b ); if ( can ) { copy[ c ] = v; } buf_t other; VP_CHECK( "default-buffer", other.channel_size() == 0 && other.frame_size() == 0, "default buffer" ); other = b; b = other; trace += "copy"; break; }
		default:
			if ( can && frames - oldest() >= 2 )
			{
				size_t g = oldest() + r.below( frames - oldest() - 1 ); auto x = known.find( { g, c } ), y = known.find( { g + 1, c } );
				if ( x != known.end() && y != known.end() )
				{
					T w = T( r.chance( 1, 4 ) ? (double)r.below( 2 ) : r.unit() ); long double a = x->second, e = y->second, expect = a + (long double)w * ( e - a );
					T got = b.get_interpolated_value( g, c, w ); event( "interpolated read" );
					VP_CHECK( "interpolated", near( got, expect, 8 * std::numeric_limits< T >::epsilon() * ( std::fabs( a ) + std::fabs( e ) ) ), num( got ) + " expected " + num( expect ) + " between frames " + num( g ) + " and next, after " + trace );
				}
			}
		}
		event( "operation" ); const buf_t& k = b;
		VP_CHECK( "sizes", k.channel_size() == ch && k.frame_size() == frames && k.empty() == ( ch == 0 ), trace );
		for ( auto& e : known )
		{
			size_t g = e.first.first, q = e.first.second; string w = "frame " + num( g ) + " of " + num( frames ) + " channel " + num( q ) + " holds " + num( (double)k( g, q ) ) + " expected " + num( (double)e.second ) + " after " + trace;
			VP_CHECK( "value", k( g, q ) == e.second && b( g, q ) == e.second, w );
			VP_CHECK( "at", k.at( g, q ) == e.second && b.at( g, q ) == e.second, w );
			VP_CHECK( "reverse", k.reverse( frames - 1 - g, q ) == e.second && b.reverse( frames - 1 - g, q ) == e.second, w );
			if ( g + 1 == frames ) VP_CHECK( "latest", k[ q ] == e.second && b[ q ] == e.second, w );
		}
		if ( ch ) { VP_CHECK( "newest-range", throws( [&] { k.at( frames, 0 ); } ) && throws( [&] { b.at( frames + r.below( 20 ), 0 ); } ), trace ); if ( oldest() ) VP_CHECK( "oldest-range", throws( [&] { k.at( oldest() - 1, 0 ); } ) && throws( [&] { b.at( r.below( oldest() ), 0 ); } ), trace ); }
		if ( frames ) VP_CHECK( "channel-range", throws( [&] { k.at( frames - 1, ch ); } ) && throws( [&] { b.at( frames - 1, ch + r.below( 5 ) ); } ), trace );
		if ( ch && frames - oldest() >= 2 ) VP_CHECK( "interpolated-channel-range", throws( [&] { b.get_interpolated_value( oldest(), ch + r.below( 2 ), T( 0 ) ); } ), trace );
		if ( ch ) VP_CHECK( "interpolated-before-first", throws( [&] { b.get_interpolated_value( flut::index_t( -1 ) - r.below( 3 ), 0, T( 0 ) ); } ) && throws( [&] { b.at( flut::index_t( -1 ) - r.below( 3 ), 0 ); } ), "a frame before the first is accepted after " + trace );
		if ( ch ) VP_CHECK( "interpolated-range", throws( [&] { b.get_interpolated_value( frames ? frames - 1 : 0, 0, T( 0 ) ); } ) && ( !oldest() || throws( [&] { b.get_interpolated_value( oldest() - 1, 0, T( 0 ) ); } ) ), trace );
		for ( size_t i = 0; i < ch; ++i ) if ( named[ i ] ) VP_CHECK( "label", k.get_label( i ) == labels[ i ] && k.find_channel( labels[ i ] ) == i, trace );
		VP_CHECK( "find", k.find_channel( l ) == find( l ), trace );
	}
	if ( wrapped ) note( trace );
	if ( want_sample() ) sample( trace );
}
PART( doubles, 4000, 120000 ) { history< double >( r ); }
PART( floats, 2000, 60000 ) { history< float >( r ); }
// long recordings: many rounds through buffers of up to thousands of frames
PART( long_runs, 60, 1500 )
{
	size_t ch = 1 + r.below( 5 ), len = 1 + r.len( r.chance( 1, 6 ) ? 20000 : 1200 ), n = len * ( 1 + r.below( 4 ) ) + r.below( 2000 ); flut::circular_frame_buffer< double, string > b( ch, len ); const auto& k = b; string w = num( n ) + " frames in a buffer of " + num( len ) + " frames, " + num( ch ) + " channels"; auto val = [&]( size_t f, size_t c ) { return double( f ) * 8 + double( c ); };
	auto verify = [&]( size_t frames, size_t g ) { for ( size_t c = 0; c < ch; ++c ) VP_CHECK( "long", k( g, c ) == val( g, c ) && b( g, c ) == val( g, c ) && k.at( g, c ) == val( g, c ) && b.at( g, c ) == val( g, c ) && k.reverse( frames - 1 - g, c ) == val( g, c ) && b.reverse( frames - 1 - g, c ) == val( g, c ), "frame " + num( g ) + " of " + w ); };
	for ( size_t f = 0; f < n; ++f )
	{
		VP_CHECK( "long-add", b.add_frame() == f + 1, w ); for ( size_t c = 0; c < ch; ++c ) b[ c ] = val( f, c );
		size_t frames = f + 1, old = frames > len ? frames - len : 0; verify( frames, f ); verify( frames, old ); verify( frames, old + r.below( frames - old ) );
		if ( old ) VP_CHECK( "long-oldest", throws( [&] { k.at( old - 1, 0 ); } ) || !( f % 64 == 0 ), w ); if ( frames - old >= 2 && f % 16 == 0 ) { size_t g = old + r.below( frames - old - 1 ); double x = r.unit(); VP_CHECK( "long-interpolated", near( b.get_interpolated_value( g, 0, x ), val( g, 0 ) + x * ( val( g + 1, 0 ) - val( g, 0 ) ), 1e-9L * ( 1 + val( g + 1, 0 ) ) ), "frame " + num( g ) + " of " + w ); }
		event( "operation" );
	}
	size_t old = n > len ? n - len : 0; for ( size_t g = old; g < n; ++g ) verify( n, g ); VP_CHECK( "long-size", k.frame_size() == n && k.channel_size() == ch, w ); note( w ); event( "long runs" );
}
