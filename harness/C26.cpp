// C26 Filters, delays, differences and running averages follow their recurrences
// vp-rule: random coefficient sets, cut-off ratios, delays, step sizes and input signals (constants, ramps, steps, noise, impulses); outputs of every step against extended-precision recurrences and frequency responses; non-trivial: input is not constant zero; counted by parameters and input
#include "flut/filter.hpp"
#include "flut/math/delayer.hpp"
#include "flut/math/delta.hpp"
#include "flut/math/average.hpp"
#include "flut/math/vec3.hpp"
#include <complex>
#include "common.hpp"
using namespace vp;
using std::string;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
template< typename T > ld eps() { return std::numeric_limits< T >::epsilon(); }

template< typename T, int N > void recurrence( Rng& r )
{
	flut::iir_filter< T, N > f; string w = "order " + num( N ) + " coefficients "; ld b0, b[ N ], a[ N ], x[ N ] = {}, y[ N ] = {}, sa = 0, sb;
	VP_CHECK( "starts-at-zero", f() == T( 0 ) && f( T( 5 ) ) == T( 0 ), "new filter without coefficients" ); f = flut::iir_filter< T, N >();
	f.b0_ = T( r.real( -2, 2 ) ); b0 = f.b0_; sb = std::fabs( b0 ); w += num( f.b0_ );
	for ( int i = 0; i < N; ++i ) { f.b_[ i ] = T( r.real( -2, 2 ) ); f.a_[ i ] = T( r.real( -0.9, 0.9 ) / N ); b[ i ] = f.b_[ i ]; a[ i ] = f.a_[ i ]; sa += std::fabs( a[ i ] ); sb += std::fabs( b[ i ] ); w += " " + num( f.b_[ i ] ) + "/" + num( f.a_[ i ] ); }
	ld tol = 64 * eps<T>() * 10 * sb / ( 1 - sa ); size_t n = 4 + r.len( r.chance( 1, 30 ) ? 20000 : 200 ); string in;
	for ( size_t k = 0; k < n; ++k )
	{
		T v = T( r.chance( 1, 4 ) ? r.pickd( { 0, 1, -1, 10 } ) : r.real( -10, 10 ) ); if ( in.size() < 120 ) in += " " + num( v );
		ld e = b0 * v; for ( int i = 0; i < N; ++i ) e += b[ i ] * x[ i ] + a[ i ] * y[ i ];
		for ( int i = N - 1; i > 0; --i ) { x[ i ] = x[ i - 1 ]; y[ i ] = y[ i - 1 ]; } x[ 0 ] = v; ld last = y[ 0 ]; y[ 0 ] = e;
		T got = f( v ); string c = w + " after" + in + " (" + num( k + 1 ) + " inputs) gives " + num( got ) + " expected " + num( e );
		VP_CHECK( "recurrence", near( got, e, tol ), c ); VP_CHECK( "last-output", f() == got, c ); if ( N > 1 ) VP_CHECK( "velocity", near( f.velocity(), e - ( k ? last : 0 ), 2 * tol ), c );
	}
	event( "filter steps", n ); note( w ); if ( want_sample() ) sample( w + in );
}
PART( recurrence, 1500, 60000 ) { switch ( r.below( 6 ) ) { case 0: recurrence< double, 2 >( r ); break; case 1: recurrence< double, 3 >( r ); break; case 2: recurrence< double, 4 >( r ); break; case 3: recurrence< float, 2 >( r ); break; case 4: recurrence< double, 7 >( r ); break; default: recurrence< float, 3 >( r ); } }

template< typename T > void lowpass( Rng& r )
{
	T cr = T( sizeof( T ) == 8 ? r.real( 0.005, 0.45 ) : r.real( 0.02, 0.45 ) ); if ( r.chance( 1, 8 ) ) cr = T( 0.25 ); string w = "cut-off " + num( cr );
	auto f = flut::make_lowpass_butterworth_2nd_order( cr ); ld K = std::tan( PI * cr ), b0 = K * K / ( 1 + std::sqrt( 2.0L ) * K + K * K ), tol = 256 * eps<T>() / ( 4 * b0 ) + 64 * eps<T>();
	size_t n = 60 + size_t( 12 / std::min( (double)cr, 0.5 - (double)cr ) ); std::vector< ld > h; for ( size_t i = 0; i < n; ++i ) { T v = f( i ? T( 0 ) : T( 1 ) ); h.push_back( v ); VP_CHECK( "finite", std::isfinite( v ) && std::fabs( v ) < 2, w ); } event( "impulse responses" );
	ld tail = std::fabs( h[ n - 1 ] ) + std::fabs( h[ n - 2 ] ); VP_CHECK( "stable", tail < 64 * eps<T>() + 1e-12L, w + " tail " + num( tail ) );
	auto gain = [&]( ld fr ) { std::complex< ld > s = 0; for ( size_t i = 0; i < n; ++i ) s += h[ i ] * std::polar( (ld)1, -2 * PI * fr * i ); return std::abs( s ); };
	VP_CHECK( "passes-constant", near( gain( 0 ), 1, tol ), w + " gain " + num( gain( 0 ) ) ); VP_CHECK( "blocks-top", near( gain( 0.5L ), 0, tol ), w + " gain " + num( gain( 0.5L ) ) ); VP_CHECK( "half-power", near( gain( cr ), std::sqrt( 0.5L ), tol ), w + " gain " + num( gain( cr ) ) );
	for ( int q = 0; q < 3; ++q ) { ld fr = r.real( 0.001, 0.49 ), t = std::tan( PI * fr ) / K, g = 1 / std::sqrt( 1 + t * t * t * t ); VP_CHECK( "response", near( gain( fr ), g, tol ), w + " gain " + num( gain( fr ) ) + " at " + num( fr ) + " expected " + num( g ) ); event( "frequency responses" ); }
	// a constant passes unchanged once settled, whatever came before; independence from copies
	f = flut::make_lowpass_butterworth_2nd_order( cr ); for ( int i = 0; i < 20; ++i ) f( T( r.real( -50, 50 ) ) ); auto g = f; T c = T( r.real( -50, 50 ) ); T v = 0; for ( size_t i = 0; i < n; ++i ) v = f( c ); VP_CHECK( "settles", near( v, c, 100 * tol ) && near( f.velocity(), 0, 100 * tol ), w + " constant " + num( c ) + " gives " + num( v ) );
	for ( size_t i = 0; i < n; ++i ) v = g( i % 2 ? c : -c ); VP_CHECK( "top-dies-out", near( v, 0, 100 * tol ), w + " gives " + num( v ) ); note( w );
}
PART( lowpass_double, 400, 15000 ) { lowpass< double >( r ); }
PART( lowpass_float, 400, 15000 ) { lowpass< float >( r ); }

// steps of a run: uniform or varying
static std::vector< float > steps( Rng& r, double window, size_t n, float& biggest )
{
	std::vector< float > s; double base = window * r.real( 0.01, 0.5 ); bool vary = r.chance( 1, 3 ); biggest = 0;
	if ( r.chance( 1, 5 ) ) { base = window / (double)( 2 + r.below( 60 ) ); vary = false; }
	for ( size_t i = 0; i < n; ++i ) { float d = float( vary ? base * r.real( 0.2, 1 ) : base ); s.push_back( d ); biggest = std::max( biggest, d ); }
	return s;
}
template< typename T > struct Sig { int kind; double a, b, c; ld at( ld t ) const { return kind == 0 ? (ld)a : kind == 1 ? a + b * t : kind == 2 ? a + b * std::sin( (ld)c * t ) : a + b * t * t; } ld slope( ld t ) const { return kind == 0 ? 0 : kind == 1 ? std::fabs( (ld)b ) : kind == 2 ? std::fabs( (ld)b * c ) : std::fabs( 2 * b * t ); } ld bend() const { return kind == 2 ? std::fabs( (ld)b * c * c ) : kind == 3 ? std::fabs( 2.0L * b ) : 0; } };

template< typename D, typename T, int N, bool SMOOTH > void delay( Rng& r )
{
	float delay = float( r.chance( 1, 4 ) ? r.pickd( { 1, 0.5, 0.1, 2 } ) : r.real( 0.01, 5 ) ); ld window = (ld)delay / ( SMOOTH ? N - 0.5L : N - 1.0L ); float big; size_t n = 20 + r.below( r.chance( 1, 40 ) ? 8000 : 600 ); auto st = steps( r, (double)window, n, big );
	Sig< T > s{ (int)r.below( 4 ), r.real( -10, 10 ), r.real( -5, 5 ), r.real( 0.1, 2 ) / delay }; T init = T( s.at( 0 ) ); D d( delay, init );
	string w = string( SMOOTH ? "smooth " : "" ) + "delay " + num( delay ) + " resolution " + num( N ) + " first step " + num( st[ 0 ] ) + " signal " + num( s.kind );
	VP_CHECK( "initial", near( d(), init, 8 * eps< float >() * std::fabs( (ld)init ) ), w );
	ld t = 0, lo = init, hi = init, mag = std::fabs( (ld)init ); std::vector< T > outs;
	for ( size_t i = 0; i < n; ++i )
	{
		t += st[ i ]; T v = T( s.at( t ) ); lo = std::min( lo, (ld)v ); hi = std::max( hi, (ld)v ); mag = std::max( mag, std::fabs( (ld)v ) ); T got = d( v, st[ i ] ); string c = w + " at " + num( (double)t ) + " gives " + num( got );
		VP_CHECK( "repeatable", d() == got && d.delayed_value() == got, c ); ld fe = 64 * eps< float >() * mag + 1e-4L * s.slope( t ) * big; outs.push_back( got );
		ld over = SMOOTH ? 0 : 0.5L * big / window * ( hi - lo ) * 1.02L; VP_CHECK( "range", got >= lo - over - fe && got <= hi + over + fe, c + " range " + num( lo ) + ".." + num( hi ) );
		if ( t < ( SMOOTH ? ( N - 1 ) * window : delay ) - 1.6L * big ) { VP_CHECK( "initial-first", near( got, init, fe ), c + " initial " + num( init ) ); event( "steps before the delay has passed" ); }
		else if ( t > delay + window ) { ld expect = s.at( t - delay ), tol = ( SMOOTH ? 0.6L : 1.1L ) * big * s.slope( t ) + s.bend() * window * window * 1.5L + fe; VP_CHECK( "delayed", near( got, expect, tol ), c + " expected " + num( expect ) ); event( "steps after" ); }
		if ( s.kind == 0 ) VP_CHECK( "constant", near( got, init, fe ), c );
	}
	if ( s.kind ) note( w ); if ( want_sample() ) sample( w );
	// linear in its input: outputs of a sum are the sum of the outputs, with noise as input
	float k1 = float( r.real( -2, 2 ) ); D da( delay, T( 1 ) ), db( delay, T( -2 ) ), dc( delay, T( 1 - 2 * k1 ) ); 
	for ( size_t i = 0; i < 60; ++i ) { T a = T( r.real( -5, 5 ) ), b = T( r.real( -5, 5 ) ); T oa = da( a, st[ i % n ] ), ob = db( b, st[ i % n ] ), oc = dc( a + k1 * b, st[ i % n ] ); VP_CHECK( "linear", near( oc, (ld)oa + (ld)k1 * ob, 1e-4L ), w ); }
	event( "linearity runs" );
	// a delay not mentioned is one second, an initial value not mentioned is zero
	{ D dd, de( 1.0f, T() ); for ( size_t i = 0; i < 60; ++i ) { T a = T( r.real( -5, 5 ) ); float dt = float( r.real( 0.001, 0.2 ) ); T p = dd( a, dt ), q = de( a, dt ); VP_CHECK( "default-delay", p == q, "step " + num( i ) + " gives " + num( p ) + " and " + num( q ) ); } }
}
PART( delays, 3000, 120000 )
{
	switch ( r.below( 8 ) )
	{
	case 0: delay< flut::delayer< float, 2 >, float, 2, false >( r ); break; case 1: delay< flut::delayer< double, 2 >, double, 2, false >( r ); break; case 2: delay< flut::delayer< double, 3 >, double, 3, false >( r ); break; case 3: delay< flut::delayer< float, 10 >, float, 10, false >( r ); break;
	case 4: delay< flut::smooth_delayer< float, 2 >, float, 2, true >( r ); break; case 5: delay< flut::smooth_delayer< double, 3 >, double, 3, true >( r ); break; case 6: delay< flut::smooth_delayer< double, 2 >, double, 2, true >( r ); break; default: delay< flut::smooth_delayer< float, 10 >, float, 10, true >( r );
	}
}
PART( delayed_vectors, 200, 5000 )
{
	typedef flut::math::vec3_< double > vec; vec init( r.real( -5, 5 ), r.real( -5, 5 ), r.real( -5, 5 ) ); flut::delayer< vec, 4 > d( 1.0f, init ); flut::delayer< double, 4 > x( 1.0f, init.x ), y( 1.0f, init.y ), z( 1.0f, init.z );
	for ( int i = 0; i < 100; ++i ) { vec v( r.real( -5, 5 ), r.real( -5, 5 ), r.real( -5, 5 ) ); float dt = float( r.real( 0.01, 0.1 ) ); vec o = d( v, dt ); VP_CHECK( "components", near( o.x, x( v.x, dt ), 1e-6 ) && near( o.y, y( v.y, dt ), 1e-6 ) && near( o.z, z( v.z, dt ), 1e-6 ), "step " + num( i ) ); }
	event( "vector delays" ); note( num( init.x ) );
}
template< typename T > void deltas( Rng& r, std::function< T() > gen )
{
	T first = gen(), prev = first, sum = first - first; flut::delta< T > d( first ); ld mag = std::fabs( (ld)first ); size_t n = 1 + r.len( r.chance( 1, 40 ) ? 20000 : 100 ); string w = num( first );
	for ( size_t i = 0; i < n; ++i ) { T v = gen(); mag = std::max( mag, std::fabs( (ld)v ) ); T g = d( v ); w += w.size() < 150 ? " " + num( v ) : ""; VP_CHECK( "difference", near( g, (ld)v - prev, 4 * (ld)std::numeric_limits< T >::epsilon() * std::max( std::fabs( (ld)v ), std::fabs( (ld)prev ) ) ), w + ": " + num( g ) + " from " + num( prev ) + " to " + num( v ) ); sum += g; prev = v; }
	VP_CHECK( "adds-up", near( sum, (ld)prev - first, 8 * n * (ld)std::numeric_limits< T >::epsilon() * mag ), w ); event( "differences", n ); note( w );
}
PART( differences, 3000, 100000 ) { if ( r.chance( 1, 2 ) ) deltas< double >( r, [&] { return r.chance( 1, 5 ) ? 0.0 : r.real( -1e3, 1e3 ) * ( r.chance( 1, 10 ) ? std::pow( 10, (double)r.range( -20, 20 ) ) : 1 ); } ); else deltas< int >( r, [&] { return (int)r.range( -1000000, 1000000 ); } ); }
template< typename T > void averages( Rng& r )
{
	flut::math::average_< T > a; ld tv = 0, tw = 0, mag = 0; VP_CHECK( "new-empty", a.empty() && a.get() == T( 0 ), "new average" ); size_t n = 1 + r.len( r.chance( 1, 40 ) ? 20000 : 120 ), k = 0; string w; ld unit = r.chance( 1, 3 ) ? std::pow( 10.0L, (ld)r.range( -12, 12 ) ) : 1;
	for ( size_t i = 0; i < n; ++i )
	{
		if ( r.chance( 1, 25 ) ) { if ( r.chance( 1, 2 ) ) { if ( r.chance( 1, 2 ) ) { a.reset(); } T c = T( 1 + r.below( 4 ) ); a.add( T( r.range( 1, 9 ) ), c ); a.add( T( r.range( -9, -1 ) ), -c ); w += " cancelling weights"; event( "resets after cancelling weights" ); } a.reset(); tv = tw = mag = 0; k = 0; w += " reset"; VP_CHECK( "reset-empty", a.empty() && a.get() == T( 0 ), w ); event( "resets" ); continue; }
		T v = T( r.chance( 1, 5 ) ? r.pickd( { 0, 1, -1, 1e4 } ) : r.real( -100, 100 ) ), g = T( unit * ( r.chance( 1, 3 ) ? 1 : r.real( 0.001, 20 ) ) ); if ( unit == 1 && r.chance( 1, 3 ) ) { a.add( v ); g = 1; } else a.add( v, g ); tv += (ld)g * v; tw += g; mag = std::max( mag, std::fabs( (ld)v ) ); ++k; if ( w.size() < 200 ) w += " " + num( v ) + "*" + num( g );
		VP_CHECK( "mean", near( a.get(), tv / tw, 8 * ( k + 2 ) * eps<T>() * mag ), w + " gives " + num( a.get() ) + " expected " + num( tv / tw ) ); VP_CHECK( "not-empty", !a.empty(), w );
	}
	event( "averages" ); note( w );
}
PART( averages_double, 3000, 100000 ) { averages< double >( r ); }
PART( averages_float, 2000, 60000 ) { averages< float >( r ); }
