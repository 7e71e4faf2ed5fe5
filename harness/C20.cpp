// C20 Labelled storages and tables keep every value under its label as they grow
// vp-rule: random histories of adding/labelling/relabelling channels, frames, rows, columns, resizing, writing by index and by label, copying and clearing, all cells, labels, look-ups and the text output compared with a shadow after every operation; non-trivial: at least 2 structural changes with data present; counted by history
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "common.hpp"
#include <sstream>
using namespace vp;
using std::string;
using flut::index_t;

static string label( Rng& r ) { return r.chance( 1, 20 ) ? "l" + r.bytes( r.below( 12 ) ) : string( r.pick( { "a", "b", "c", "d", "pos", "pos.x", "pos.y", "pos.z", "time", "E", "label with space" } ) ); }
static string make_text( double v ) { std::ostringstream s; s << v; return s.str(); }
static string make_text( int v ) { return std::to_string( v ); }
static string make_text( const string& v ) { return v; }
template< typename T > T value( Rng& r );
template<> double value< double >( Rng& r ) { return r.chance( 1, 8 ) ? r.real( -1e6, 1e6 ) : (double)r.range( -999, 999 ) / 8; }
template<> float value< float >( Rng& r ) { return (float)value< double >( r ); }
template<> int value< int >( Rng& r ) { return (int)r.range( -99999, 99999 ); }
template<> string value< string >( Rng& r ) { return r.text( "xyz", 1 + r.below( 5 ) ); }

template< typename T > struct Ref
{
	std::vector< string > labels; std::vector< bool > named; std::vector< std::vector< T > > rows;
	index_t find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( named[ i ] && labels[ i ] == l ) return i; return flut::no_index; }
	void widen( const string& l, bool n, const T& v ) { labels.push_back( l ); named.push_back( n ); for ( auto& x : rows ) x.push_back( v ); }
};
template< typename T > void verify( flut::storage< T >& s, const Ref< T >& f, const string& trace, Rng& r )
{
	const flut::storage< T >& c = s;
	VP_CHECK( "storage-size", c.channel_size() == f.labels.size() && c.frame_size() == f.rows.size(), num( c.frame_size() ) + "x" + num( c.channel_size() ) + " expected " + num( f.rows.size() ) + "x" + num( f.labels.size() ) + " after" + trace );
	VP_CHECK( "storage-empty", c.empty() == ( f.rows.empty() || f.labels.empty() ), trace );
	for ( size_t i = 0; i < f.rows.size(); ++i ) for ( size_t j = 0; j < f.labels.size(); ++j )
		VP_CHECK( "storage-cell", c( i, j ) == f.rows[ i ][ j ] && c.at( i, j ) == f.rows[ i ][ j ] && s( i, j ) == f.rows[ i ][ j ] && &s.at( i, j ) == &s( i, j ) && c.data()[ i * f.labels.size() + j ] == f.rows[ i ][ j ], "frame " + num( i ) + " channel " + num( j ) + " holds " + make_text( c( i, j ) ) + " expected " + make_text( f.rows[ i ][ j ] ) + " after" + trace );
	for ( size_t j = 0; j < f.labels.size(); ++j ) if ( f.named[ j ] ) VP_CHECK( "storage-label", c.get_label( j ) == f.labels[ j ] && c.find_channel( f.labels[ j ] ) == j && c.labels()[ j ] == f.labels[ j ], "channel " + num( j ) + " after" + trace );
	for ( int k = 0; k < 2; ++k ) { string l = label( r ); VP_CHECK( "storage-find", c.find_channel( l ) == f.find( l ), vp::show( l ) + " after" + trace ); }
	VP_CHECK( "storage-range", throws( [&] { c.at( f.rows.size(), 0 ); } ) && throws( [&] { c.at( 0, f.labels.size() ); } ) && throws( [&] { s.at( f.rows.size() + 3, f.labels.size() ); } ) && throws( [&] { s.at( 0, ~index_t( 0 ) ); } ), trace );
	if ( !f.rows.empty() && !f.labels.empty() ) VP_CHECK( "storage-range-one", throws( [&] { s.at( f.rows.size(), 0 ); } ) && throws( [&] { s.at( 0, f.labels.size() ); } ) && throws( [&] { s.at( f.rows.size() - 1, f.labels.size() ); } ) && throws( [&] { c.at( f.rows.size(), f.labels.size() - 1 ); } ), trace );
	if ( !f.rows.empty() && !f.labels.empty() )
	{
		size_t j = r.below( f.labels.size() );
		VP_CHECK( "storage-latest", s[ j ] == f.rows.back()[ j ] && c[ j ] == f.rows.back()[ j ], trace );
		if ( f.named[ j ] ) VP_CHECK( "storage-latest-label", c( f.labels[ j ] ) == f.rows.back()[ j ] && s[ f.labels[ j ] ] == f.rows.back()[ j ], trace );
		string l = label( r ); if ( f.find( l ) == flut::no_index ) VP_CHECK( "storage-unknown", throws( [&] { c( l ); } ), trace );
	}
	if ( f.rows.empty() || f.labels.empty() ) VP_CHECK( "storage-latest-empty", throws( [&] { s[ index_t( 0 ) ]; } ) && throws( [&] { c[ index_t( 0 ) ]; } ), trace );
	std::ostringstream o, e; o << c;
	for ( size_t j = 0; j < f.labels.size(); ++j ) e << ( f.named[ j ] ? f.labels[ j ] : string() ) << ( j + 1 == f.labels.size() ? "\n" : "\t" );
	for ( auto& row : f.rows ) for ( size_t j = 0; j < row.size(); ++j ) e << row[ j ] << ( j + 1 == row.size() ? "\n" : "\t" );
	VP_CHECK( "storage-text", o.str() == e.str(), "wrote " + vp::show( o.str() ) + " expected " + vp::show( e.str() ) + " after" + trace );
}
template< typename T > void interpolate( flut::storage< T >& s, const Ref< T >& f, const string& trace, Rng& r )
{
	if ( f.labels.empty() ) return;
	size_t j = r.below( f.labels.size() );
	if ( f.rows.size() >= 2 )
	{
		size_t i = r.below( f.rows.size() - 1 ); T w = T( r.chance( 1, 4 ) ? 0 : r.unit() ); if ( r.chance( 1, 2 ) ) { w = T( std::pow( 10.0, -r.real( 0.3, 16 ) ) ); if ( r.chance( 1, 2 ) ) w = 1 - w; } T key = T( i ) + w; // also just above and just below a frame
		 size_t base = size_t( key ); if ( base + 1 >= f.rows.size() ) return; long double u = (long double)key - base;
		long double a = f.rows[ base ][ j ], b = f.rows[ base + 1 ][ j ], expect = a + u * ( b - a ), tol = 8 * std::numeric_limits< T >::epsilon() * ( std::fabs( a ) + std::fabs( b ) );
		T got = s.get_interpolated_value( key, j ); event( "interpolated read" );
		VP_CHECK( "storage-interpolated", near( got, expect, tol ), num( got ) + " expected " + num( expect ) + " at " + num( key ) + " after" + trace );
	}
	VP_CHECK( "storage-interpolated-far", throws( [&] { s.get_interpolated_value( T( r.pickd( { 1e10, 9.3e18, 1.9e19, 1e30, HUGE_VAL } ) ), j ); } ), "a frame far beyond the last is accepted after " + trace );
	VP_CHECK( "storage-interpolated-range", throws( [&] { s.get_interpolated_value( T( f.rows.size() ), j ); } ) && throws( [&] { s.get_interpolated_value( -T( r.chance( 1, 2 ) ? r.real( 0.001, 1 ) : r.real( 1, 100 ) ), j ); } ) && throws( [&] { s.get_interpolated_value( T( f.rows.size() ? f.rows.size() - 1 : 0 ), j ); } ), trace );
}
static void interpolate( flut::storage< int >&, const Ref< int >&, const string&, Rng& ) {}

template< typename T > void storage_history( Rng& r )
{
	Ref< T > f; string trace; size_t structural = 0; flut::storage< T > s;
	if ( r.chance( 1, 2 ) )
	{
		size_t a = r.below( 4 ), b = r.below( 4 ); T v = value< T >( r ); bool given = r.chance( 1, 2 ); s = given ? flut::storage< T >( a, b, v ) : flut::storage< T >( a, b ); if ( !given ) v = T();
		f.rows.assign( a, std::vector< T >() ); for ( size_t j = 0; j < b; ++j ) f.widen( "", false, v ); trace += " init " + num( a ) + "x" + num( b );
	}
	verify( s, f, trace, r );
	size_t steps = r.chance( 1, 40 ) ? 120 : 4 + r.below( 25 );
	for ( size_t i = 0; i < steps; ++i )
	{
		string l = label( r ); index_t known = f.find( l ); T v = value< T >( r ); bool data = !f.rows.empty() && !f.labels.empty(); trace += " | ";
		switch ( r.below( 15 ) )
		{
		case 0: case 1:
			if ( known != flut::no_index ) { VP_CHECK( "duplicate-refused", throws( [&] { s.add_channel( l, v ); } ), l + " after" + trace ); trace += "dup " + l; }
			else { bool given = r.chance( 1, 2 ), own = data && r.chance( 1, 5 ); if ( own ) v = f.rows[ f.rows.size() - 1 ][ 0 ]; index_t at = own ? s.add_channel( l, s( f.rows.size() - 1, 0 ) ) : given ? s.add_channel( l, v ) : s.add_channel( l ); f.widen( l, true, given || own ? v : T() ); VP_CHECK( "add-index", at == f.labels.size() - 1, trace ); trace += "channel " + l; structural += data; }
			break;
		case 2:
			{
				size_t n = r.below( f.rows.size() + 4 ); std::vector< T > d; for ( size_t k = 0; k < n; ++k ) d.push_back( value< T >( r ) );
				if ( known != flut::no_index ) { VP_CHECK( "duplicate-refused", throws( [&] { s.add_channel( l, d ); } ), l + " after" + trace ); trace += "dup data " + l; }
				else
				{
					index_t at = s.add_channel( l, d ); while ( f.rows.size() < n ) f.rows.push_back( std::vector< T >( f.labels.size() ) );
					f.widen( l, true, T() ); for ( size_t k = 0; k < n; ++k ) f.rows[ k ].back() = d[ k ];
					VP_CHECK( "add-index", at == f.labels.size() - 1, trace ); trace += "channel data " + l + " " + num( n ); structural += data;
				}
				break;
			}
		case 3: { index_t at = s.find_or_add_channel( l, v ); if ( known == flut::no_index ) { f.widen( l, true, v ); known = f.labels.size() - 1; structural += data; } VP_CHECK( "find-or-add", at == known, trace ); trace += "find_or_add " + l; break; }
		case 4:
			if ( !f.labels.empty() )
			{
				index_t j = r.below( f.labels.size() );
				if ( known != flut::no_index && known != j ) { VP_CHECK( "relabel-duplicate", throws( [&] { s.set_label( j, l ); } ), trace ); trace += "relabel dup"; }
				else if ( known == flut::no_index ) { s.set_label( j, l ); f.labels[ j ] = l; f.named[ j ] = true; trace += "relabel " + num( j ) + " " + l; }
			}
			else VP_CHECK( "relabel-range", throws( [&] { s.set_label( f.labels.size(), l ); } ), trace );
			break;
		case 5: case 6: { bool given = r.chance( 1, 2 ); if ( given ) s.add_frame( v ); else s.add_frame(); f.rows.push_back( std::vector< T >( f.labels.size(), given ? v : T( 0 ) ) ); trace += "frame"; structural += data; break; }
		case 7: { std::vector< T > d; for ( size_t k = 0; k < f.labels.size(); ++k ) d.push_back( value< T >( r ) ); if ( r.chance( 1, 4 ) ) { if ( d.empty() || r.chance( 1, 2 ) ) d.resize( d.size() + 1 + r.below( 3 ), v ); else d.resize( r.below( d.size() ) ); VP_CHECK( "frame-size-refused", throws( [&] { s.add_frame( d ); } ), trace ); trace += "bad frame"; } else { s.add_frame( d ); f.rows.push_back( d ); trace += "frame data"; } break; }
		case 8: case 9: if ( data ) { size_t a = r.below( f.rows.size() ), b = r.below( f.labels.size() ); if ( r.chance( 1, 2 ) ) s( a, b ) = v; else s.at( a, b ) = v; f.rows[ a ][ b ] = v; trace += "(" + num( a ) + "," + num( b ) + ")=" + make_text( v ); } break;
		case 10: if ( data ) { if ( r.chance( 1, 2 ) && known != flut::no_index ) { s[ known ] = v; } else { s[ l ] = v; if ( known == flut::no_index ) { f.widen( l, true, T() ); known = f.labels.size() - 1; ++structural; } } f.rows.back()[ known ] = v; trace += "[" + l + "]=" + make_text( v ); } break;
		case 11:
			{
				size_t a = f.rows.size() + r.below( 4 ), b = f.labels.size() + r.below( 3 ); bool given = r.chance( 1, 2 ); if ( given ) s.resize( a, b, v ); else s.resize( a, b ); T w = given ? v : T();
				while ( f.labels.size() < b ) f.widen( "", false, w ); while ( f.rows.size() < a ) f.rows.push_back( std::vector< T >( b, w ) ); trace += "resize " + num( a ) + "x" + num( b ); structural += data; break;
			}
		case 12:
			if ( f.rows.size() && f.labels.size() ) { bool rows = r.chance( 1, 2 ); VP_CHECK( "shrink-refused", throws( [&] { s.resize( f.rows.size() - ( rows ? 1 : 0 ), f.labels.size() - ( rows ? 0 : 1 ) + ( rows && r.chance( 1, 2 ) ) ); } ), trace ); trace += "shrink refused"; }
			break;
		case 13: { flut::storage< T > c( s ); c.add_frame( v ); if ( data ) { c( 0, 0 ) = value< T >( r ); } flut::storage< T > d; d = s; s.clear(); s = std::move( d ); trace += "copies"; break; }
		default: if ( r.chance( 1, 6 ) ) { s.clear(); f = Ref< T >(); trace += "clear"; }
		}
		event( "storage operation" ); verify( s, f, trace, r ); interpolate( s, f, trace, r );
	}
	if ( structural >= 2 ) note( trace );
	if ( want_sample() ) sample( trace );
}
/// many channels, many frames: shape, cells and text as for the small ones
PART( large, 60, 1500 )
{
	size_t nc = r.chance( 1, 2 ) ? 40 + r.below( 360 ) : 1 + r.below( 5 ), nf = nc > 20 ? 1 + r.below( 12 ) : 200 + r.below( 3000 ); flut::storage< double > s; Ref< double > f; string w = num( nf ) + " frames of " + num( nc );
	size_t first = r.below( nc + 1 ), at = r.below( nf + 1 );
	auto channel = [&]() { string l = "c" + num( f.labels.size() ); double v = value< double >( r ); VP_CHECK( "large-index", s.add_channel( l, v ) == f.labels.size(), w ); f.widen( l, true, v ); };
	while ( f.labels.size() < first ) channel();
	for ( size_t i = 0; i < nf; ++i )
	{
		if ( i == at ) while ( f.labels.size() < nc ) channel();
		std::vector< double > d; for ( size_t k = 0; k < f.labels.size(); ++k ) d.push_back( value< double >( r ) ); s.add_frame( d ); f.rows.push_back( d ); event( "storage operation" );
	}
	if ( r.chance( 1, 2 ) )
	{
		size_t n = r.chance( 1, 3 ) ? nf + r.below( 50 ) : r.below( nf + 1 ); std::vector< double > d; for ( size_t k = 0; k < n; ++k ) d.push_back( value< double >( r ) );
		index_t at2 = s.add_channel( "data", d ); while ( f.rows.size() < n ) f.rows.push_back( std::vector< double >( f.labels.size() ) );
		f.widen( "data", true, 0.0 ); for ( size_t k = 0; k < n; ++k ) f.rows[ k ].back() = d[ k ]; w += " then " + num( n ) + " values"; VP_CHECK( "large-index", at2 == f.labels.size() - 1, w ); event( "large data channel" );
	}
	verify( s, f, " " + w, r ); for ( int k = 0; k < 20; ++k ) interpolate( s, f, " " + w, r );
	if ( f.labels.empty() ) return;
	flut::table< double > t; size_t rows = nc > 20 ? 3 : std::min< size_t >( nf, 300 ); for ( size_t i = 0; i < rows; ++i ) for ( size_t j = 0; j < f.labels.size(); ++j ) if ( i < f.rows.size() ) t( "r" + num( i ), f.labels[ j ] ) = f.rows[ i ][ j ];
	const auto& ct = t; rows = std::min( rows, f.rows.size() ); VP_CHECK( "large-table", t.row_size() == rows && ( !rows || t.column_size() == f.labels.size() ), w );
	for ( size_t i = 0; i < rows; ++i ) for ( size_t j = 0; j < f.labels.size(); ++j ) VP_CHECK( "large-table-cell", ct( i, j ) == f.rows[ i ][ j ] && ct( "r" + num( i ), f.labels[ j ] ) == f.rows[ i ][ j ], w + " cell " + num( i ) + "," + num( j ) );
	std::ostringstream o, e; o << ct; e << "Row"; if ( rows ) for ( auto& l : f.labels ) e << "\t" << l; e << "\n"; for ( size_t i = 0; i < rows; ++i ) { e << "r" << i; for ( auto& x : f.rows[ i ] ) e << "\t" << x; e << "\n"; }
	VP_CHECK( "large-table-text", o.str() == e.str(), w ); note( w );
}
PART( storages_double, 3000, 100000 ) { storage_history< double >( r ); }
PART( storages_float, 1500, 50000 ) { storage_history< float >( r ); }
PART( storages_int, 2000, 60000 ) { storage_history< int >( r ); }

PART( composite_writes, 1500, 30000 )
{
	flut::storage< double > s; size_t rows = 1 + r.below( 4 ); std::map< string, std::vector< double > > expect; string trace;
	for ( size_t i = 0; i < rows; ++i )
	{
		s.add_frame(); for ( auto& e : expect ) e.second.push_back( 0 );
		for ( size_t n = r.below( 5 ); n; --n )
		{
			string l = r.pick( { "com", "q", "hip", "v" } ); double a = value< double >( r ), b = value< double >( r ), c = value< double >( r ), d = value< double >( r );
			auto put = [&]( const string& k, double x ) { auto& e = expect[ l + k ]; e.resize( i + 1, 0.0 ); e[ i ] = x; };
			// the first channel can only be added once a frame has cells; a storage without channels refuses
			if ( s.empty() ) { s.find_or_add_channel( l + ".x" ); expect[ l + ".x" ].resize( i + 1, 0.0 ); }
			if ( r.chance( 1, 2 ) ) { flut::write_storage( s, l, flut::math::vec3_< double >( a, b, c ) ); put( ".x", a ); put( ".y", b ); put( ".z", c ); }
			else { flut::write_storage( s, l, flut::math::quat_< double >( d, a, b, c ) ); put( ".w", d ); put( ".x", a ); put( ".y", b ); put( ".z", c ); }
			trace += " " + l; event( "composite write" );
		}
		for ( auto& e : expect ) { auto ci = s.find_channel( e.first ); VP_CHECK( "composite-channel", ci != flut::no_index, e.first + " after" + trace ); for ( size_t k = 0; k <= i; ++k ) VP_CHECK( "composite-value", s( k, ci ) == e.second[ k ], e.first + " frame " + num( k ) + " after" + trace ); }
		VP_CHECK( "composite-count", s.channel_size() == expect.size(), trace );
	}
	note( trace );
}

template< typename T > void table_history( Rng& r )
{
	typedef flut::table< T > table_t; table_t t; Ref< T > f; std::vector< string > rl; std::vector< bool > rn; string trace; size_t structural = 0;
	auto find_row = [&]( const string& l ) { for ( size_t i = 0; i < rl.size(); ++i ) if ( rn[ i ] && rl[ i ] == l ) return index_t( i ); return flut::no_index; };
	auto add_row = [&]( const string& l, bool n, const T& v ) { rl.push_back( l ); rn.push_back( n ); f.rows.push_back( std::vector< T >( f.labels.size(), v ) ); };
	if ( r.chance( 1, 3 ) ) { size_t a = r.below( 4 ), b = r.below( 4 ); t = table_t( a, b ); for ( size_t j = 0; j < b; ++j ) f.widen( "", false, T() ); for ( size_t i = 0; i < a; ++i ) add_row( "", false, T() ); trace += " init"; }
	size_t steps = r.chance( 1, 40 ) ? 100 : 4 + r.below( 25 );
	for ( size_t i = 0; i < steps; ++i )
	{
		string l = label( r ), l2 = label( r ); index_t row = find_row( l ), col = f.find( l2 ); T v = value< T >( r ); bool data = !f.rows.empty() && !f.labels.empty(), given = r.chance( 1, 2 ); const T* dv = &v; if ( data && r.chance( 1, 4 ) ) { size_t a = r.below( f.rows.size() ), b = r.below( f.labels.size() ); dv = &t( a, b ); v = f.rows[ a ][ b ]; given = true; trace += "own value "; } // a value that lives in the table itself
		T w = given ? v : T(); trace += " | ";
		switch ( r.below( 9 ) )
		{
		case 0: if ( row != flut::no_index ) { VP_CHECK( "row-duplicate", throws( [&] { t.add_row( l, v ); } ), trace ); trace += "dup row"; } else { index_t at = given ? t.add_row( l, *dv ) : t.add_row( l ); add_row( l, true, w ); VP_CHECK( "row-index", at == rl.size() - 1, trace ); trace += "row " + l; structural += data; } break;
		case 1: if ( col != flut::no_index ) { VP_CHECK( "column-duplicate", throws( [&] { t.add_column( l2, v ); } ), trace ); trace += "dup column"; } else { index_t at = given ? t.add_column( l2, *dv ) : t.add_column( l2 ); f.widen( l2, true, w ); VP_CHECK( "column-index", at == f.labels.size() - 1, trace ); trace += "column " + l2; structural += data; } break;
		case 2: { index_t at = given ? t.get_or_add_row( l, *dv ) : t.get_or_add_row( l ); if ( row == flut::no_index ) { add_row( l, true, w ); row = rl.size() - 1; structural += data; } VP_CHECK( "row-get-or-add", at == row, trace ); trace += "get_or_add row " + l; break; }
		case 3: { index_t at = given ? t.get_or_add_column( l2, *dv ) : t.get_or_add_column( l2 ); if ( col == flut::no_index ) { f.widen( l2, true, w ); col = f.labels.size() - 1; structural += data; } VP_CHECK( "column-get-or-add", at == col, trace ); trace += "get_or_add column " + l2; break; }
		case 4: case 5: { t( l, l2 ) = v; if ( row == flut::no_index ) { add_row( l, true, T() ); row = rl.size() - 1; structural += data; } if ( col == flut::no_index ) { f.widen( l2, true, T() ); col = f.labels.size() - 1; structural += data; } f.rows[ row ][ col ] = v; trace += "(" + l + "," + l2 + ")=" + make_text( v ); break; }
		case 6: if ( data ) { size_t a = r.below( f.rows.size() ), b = r.below( f.labels.size() ); t( a, b ) = v; f.rows[ a ][ b ] = v; trace += "(" + num( a ) + "," + num( b ) + ")="; } break;
		case 7: { size_t a = f.rows.size() + r.below( 3 ), b = f.labels.size() + r.below( 3 ); if ( given ) t.resize( a, b, *dv ); else t.resize( a, b ); while ( f.labels.size() < b ) f.widen( "", false, w ); while ( f.rows.size() < a ) add_row( "", false, w ); trace += "resize " + num( a ) + "x" + num( b ); structural += data; break; }
		default: if ( data ) { bool rows = r.chance( 1, 2 ); VP_CHECK( "table-shrink-refused", throws( [&] { t.resize( f.rows.size() - ( rows ? 1 : 0 ), f.labels.size() - ( rows ? 0 : 1 ) ); } ), trace ); table_t u( t ); u( 0, 0 ) = v; }
		}
		event( "table operation" );
		const table_t& c = t;
		VP_CHECK( "table-size", c.row_size() == rl.size() && c.column_size() == f.labels.size(), num( c.row_size() ) + "x" + num( c.column_size() ) + " expected " + num( rl.size() ) + "x" + num( f.labels.size() ) + " after" + trace );
		for ( size_t a = 0; a < rl.size(); ++a ) for ( size_t b = 0; b < f.labels.size(); ++b )
		{
			VP_CHECK( "table-cell", c( a, b ) == f.rows[ a ][ b ] && t( a, b ) == f.rows[ a ][ b ], "cell " + num( a ) + "," + num( b ) + " holds " + make_text( c( a, b ) ) + " expected " + make_text( f.rows[ a ][ b ] ) + " after" + trace );
			if ( rn[ a ] && f.named[ b ] ) VP_CHECK( "table-label-cell", c( rl[ a ], f.labels[ b ] ) == f.rows[ a ][ b ], rl[ a ] + "," + f.labels[ b ] + " after" + trace );
		}
		for ( size_t a = 0; a < rl.size(); ++a ) if ( rn[ a ] ) VP_CHECK( "row-label", c.row_labels()[ a ] == rl[ a ] && c.row_labels().find( rl[ a ] ) == a, trace );
		for ( size_t b = 0; b < f.labels.size(); ++b ) if ( f.named[ b ] ) VP_CHECK( "column-label", c.col_labels()[ b ] == f.labels[ b ] && c.col_labels().find( f.labels[ b ] ) == b, trace );
		string q = label( r ), q2 = label( r ); VP_CHECK( "table-find", c.row_labels().find( q ) == find_row( q ) && c.col_labels().find( q ) == f.find( q ), vp::show( q ) + " after" + trace );
		if ( find_row( q ) == flut::no_index || f.find( q2 ) == flut::no_index ) VP_CHECK( "table-unknown", throws( [&] { c( q, q2 ); } ), trace );
		VP_CHECK( "table-range", throws( [&] { t( rl.size(), index_t( 0 ) ); } ) && throws( [&] { t( index_t( 0 ), f.labels.size() ); } ) && throws( [&] { c( rl.size(), index_t( 0 ) ); } ) && throws( [&] { c( index_t( 0 ), f.labels.size() ); } ), trace );
		std::ostringstream o, e; o << c; e << "Row"; for ( size_t b = 0; b < f.labels.size(); ++b ) e << "\t" << ( f.named[ b ] ? f.labels[ b ] : string() ); e << "\n";
		for ( size_t a = 0; a < rl.size(); ++a ) { e << ( rn[ a ] ? rl[ a ] : string() ); for ( auto& x : f.rows[ a ] ) e << "\t" << x; e << "\n"; }
		VP_CHECK( "table-text", o.str() == e.str(), "wrote " + vp::show( o.str() ) + " expected " + vp::show( e.str() ) + " after" + trace );
	}
	if ( structural >= 2 ) note( trace );
}
PART( tables_double, 2500, 80000 ) { table_history< double >( r ); }
PART( tables_string, 2000, 60000 ) { table_history< string >( r ); }

PART( headers, 3000, 60000 )
{
	// labels given at construction
	std::vector< string > v; std::set< string > seen; for ( size_t n = r.below( 6 ); n; --n ) { string l = label( r ); if ( seen.insert( l ).second ) v.push_back( l ); }
	flut::data_header< string > h( v ); string w; for ( auto& l : v ) w += vp::show( l ) + " ";
	VP_CHECK( "header-size", h.size() == v.size(), w );
	size_t i = 0; for ( auto& l : h ) { VP_CHECK( "header-iterate", l == v[ i ], w ); ++i; }
	for ( i = 0; i < v.size(); ++i ) VP_CHECK( "header-find", h[ i ] == v[ i ] && h.find( v[ i ] ) == i, w );
	if ( !v.empty() ) { VP_CHECK( "header-duplicate", throws( [&] { h.add( v[ r.below( v.size() ) ] ); } ), w ); VP_CHECK( "header-shrink", throws( [&] { h.resize( v.size() - 1 ); } ), w ); }
	if ( !v.empty() ) { auto dup = v; dup.push_back( v[ 0 ] ); VP_CHECK( "header-duplicate-construct", throws( [&] { flut::data_header< string > d( dup ); } ), w ); }
	if ( v.size() >= 3 ) { flut::data_header< string > il{ v[ 0 ], v[ 1 ], v[ 2 ] }; VP_CHECK( "header-list", il.size() == 3 && il[ 0 ] == v[ 0 ] && il[ 1 ] == v[ 1 ] && il[ 2 ] == v[ 2 ] && il.find( v[ 2 ] ) == 2 && il.find( v[ 0 ] ) == 0, w ); }
	h.clear(); VP_CHECK( "header-clear", h.size() == 0 && ( v.empty() || h.find( v[ 0 ] ) == flut::no_index ), w );
	flut::data_header< string > none; flut::data_header< void > none2; VP_CHECK( "header-default", none.size() == 0 && none2.size() == 0 && none.find( "a" ) == flut::no_index && none.add( "a" ) == 0 && none2.add() == 0, "default header" );
	flut::data_header< void > n( v.size() ); VP_CHECK( "unlabelled", n.size() == v.size() && n.add() == v.size() && n.size() == v.size() + 1 && n.get_label( 3 ) == 3, w );
	event( "header" ); if ( v.size() > 1 ) note( w );
}
