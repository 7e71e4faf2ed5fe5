// Shared machinery of the monitors: deterministic case generation, the oracle primitive, accounting.
//
// A harness defines PART( name, quick_cases, thorough_cases ) { ... } blocks. check.py runs every part in processes of
// its own (sharded by case index). Case k of a part depends only on (seed, part, k), so `--only k` replays it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <memory>
#include <mutex>
#include <atomic>
#include <unordered_set>
#include <csignal>
#include <fcntl.h>
#include <limits>
#include <typeinfo>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

namespace vp
{
	inline uint64_t mix( uint64_t z ) { z += 0x9e3779b97f4a7c15ull; z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 ); }
	inline uint64_t hash_str( const std::string& s, uint64_t h = 1469598103934665603ull ) { for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return mix( h ); }

	struct Rng
	{
		uint64_t s;
		explicit Rng( uint64_t seed ) : s( seed ) {}
		uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix( s ); }
		uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
		int64_t range( int64_t lo, int64_t hi ) { return lo + (int64_t)below( (uint64_t)( hi - lo ) + 1 ); }
		bool chance( int num, int den ) { return (int)below( den ) < num; }
		double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
		double real( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }
		template< typename T > const T& pick( const std::vector< T >& v ) { return v[ below( v.size() ) ]; }
		const char* pick( std::initializer_list< const char* > l ) { return *( l.begin() + below( l.size() ) ); }
		double pickd( std::initializer_list< double > l ) { return *( l.begin() + below( l.size() ) ); }

		/// length biased towards boundaries of typical buffers
		size_t len( size_t max )
		{
			static const size_t b[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072 };
			size_t nb = sizeof( b ) / sizeof( b[ 0 ] ); while ( nb > 1 && b[ nb - 1 ] > max ) --nb;
			size_t n;
			switch ( below( 4 ) )
			{
			case 0: n = b[ below( nb ) ]; break;
			case 1: n = below( 8 ); break;
			case 2: n = below( 40 ); break;
			default: n = below( max + 1 ); break;
			}
			return std::min( n, max );
		}
		/// length: mostly small, sometimes up to max
		size_t small_len( size_t max ) { return chance( 1, 40 ) ? std::min( len( max ), max ) : std::min( (size_t)below( 12 ), max ); }
		std::string text( const std::string& alphabet, size_t n ) { std::string r; r.reserve( n ); for ( size_t i = 0; i < n; ++i ) r += alphabet[ below( alphabet.size() ) ]; return r; }
		std::string bytes( size_t n ) { std::string r; r.reserve( n ); for ( size_t i = 0; i < n; ++i ) r += char( 1 + below( 255 ) ); return r; }
	};

	/// printable form of a text
	inline std::string show( const std::string& s, size_t max = 240 )
	{
		std::string r = "'"; char b[ 8 ];
		for ( size_t i = 0; i < s.size() && i < max; ++i )
		{
			unsigned char c = s[ i ];
			if ( c == '\\' || c == '\'' ) { r += '\\'; r += c; }
			else if ( c >= 32 && c < 127 ) r += c;
			else { snprintf( b, sizeof b, "\\x%02x", c ); r += b; }
		}
		r += "'";
		if ( s.size() > max ) r += "...(" + std::to_string( s.size() ) + " bytes)";
		return r;
	}
	inline std::string num( long double v ) { char b[ 64 ]; snprintf( b, sizeof b, "%.21Lg", v ); return b; }
	inline std::string num( double v ) { char b[ 64 ]; snprintf( b, sizeof b, "%.17g", v ); return b; }
	inline std::string num( float v ) { char b[ 64 ]; snprintf( b, sizeof b, "%.9g", v ); return b; }
	inline std::string num( int v ) { return std::to_string( v ); }
	inline std::string num( unsigned v ) { return std::to_string( v ); }
	inline std::string num( long v ) { return std::to_string( v ); }
	inline std::string num( unsigned long v ) { return std::to_string( v ); }
	inline std::string num( long long v ) { return std::to_string( v ); }
	inline std::string num( unsigned long long v ) { return std::to_string( v ); }
	inline std::string num( bool v ) { return v ? "true" : "false"; }

	struct Fail {}; // thrown to leave a case after a violation was recorded

	struct Violation { std::string key, part, witness; uint64_t index; };
	struct State { std::atomic< uint64_t > index; std::atomic< uint64_t > started; };

	struct Ctx
	{
		std::mutex mtx;
		std::string part; uint64_t index = 0; uint64_t seed = 1; bool thorough = false;
		uint64_t evaluations = 0, checks = 0;
		std::map< std::string, uint64_t > events;
		std::unordered_set< uint64_t > distinct;
		std::vector< std::string > samples;
		std::vector< Violation > violations;
		State* state = nullptr;
		std::string out;
		int hang_cpu_s = 30;
		void record( const std::string& key, const std::string& witness )
		{
			std::lock_guard< std::mutex > l( mtx );
			for ( auto& v : violations ) if ( v.key == key ) return;
			violations.push_back( Violation{ key, part, witness, index } );
			fprintf( stderr, "MISMATCH part=%s case=%llu key=%s %s\n", part.c_str(), (unsigned long long)index, key.c_str(), witness.c_str() );
		}
	};
	inline Ctx& ctx() { static Ctx* c = new Ctx; return *c; }

	inline void event( const char* name, uint64_t n = 1 ) { auto& c = ctx(); std::lock_guard< std::mutex > l( c.mtx ); c.events[ name ] += n; }
	/// further evaluations made inside one case
	inline void evals( uint64_t n ) { auto& c = ctx(); std::lock_guard< std::mutex > l( c.mtx ); c.evaluations += n; }
	/// a case that meets the harness's rule for "non-trivial"; fingerprint identifies it
	inline void note( uint64_t fingerprint ) { auto& c = ctx(); std::lock_guard< std::mutex > l( c.mtx ); if ( c.distinct.size() < 400000 ) c.distinct.insert( mix( fingerprint ^ hash_str( c.part ) ) ); }
	inline void note( const std::string& s ) { note( hash_str( s ) ); }
	inline bool want_sample() { return ctx().samples.size() < 4; }
	inline void sample( const std::string& s ) { auto& c = ctx(); std::lock_guard< std::mutex > l( c.mtx ); if ( c.samples.size() < 4 ) c.samples.push_back( s.substr( 0, 400 ) ); }

	typedef void ( *PartFn )( Rng& r, uint64_t index );
	struct Part { std::string name; uint64_t quick, thorough; PartFn fn; };
	inline std::vector< Part >& parts() { static std::vector< Part >* p = new std::vector< Part >; return *p; }
	struct Reg { Reg( const char* n, uint64_t q, uint64_t t, PartFn f ) { parts().push_back( Part{ n, q, t, f } ); } };

	inline std::string json( const std::string& s )
	{
		std::string r = "\""; char b[ 8 ];
		for ( unsigned char c : s )
		{
			if ( c == '"' || c == '\\' ) { r += '\\'; r += c; }
			else if ( c < 32 || c > 126 ) { snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
			else r += c;
		}
		return r + "\"";
	}

	inline void write_report()
	{
		auto& c = ctx();
		FILE* f = c.out.empty() ? stdout : fopen( c.out.c_str(), "w" );
		if ( !f ) _exit( 90 );
		fprintf( f, "{\"evaluations\":%llu,\"checks\":%llu,\"events\":{", (unsigned long long)c.evaluations, (unsigned long long)c.checks );
		bool first = true;
		for ( auto& e : c.events ) { fprintf( f, "%s%s:%llu", first ? "" : ",", json( e.first ).c_str(), (unsigned long long)e.second ); first = false; }
		fprintf( f, "},\"samples\":[" ); first = true;
		for ( auto& s : c.samples ) { fprintf( f, "%s%s", first ? "" : ",", json( s ).c_str() ); first = false; }
		fprintf( f, "],\"violations\":[" ); first = true;
		for ( auto& v : c.violations ) { fprintf( f, "%s{\"key\":%s,\"part\":%s,\"index\":%llu,\"witness\":%s}", first ? "" : ",", json( v.key ).c_str(), json( v.part ).c_str(), (unsigned long long)v.index, json( v.witness.substr( 0, 4000 ) ).c_str() ); first = false; }
		fprintf( f, "],\"distinct\":[" ); first = true;
		for ( auto& d : c.distinct ) { fprintf( f, "%s%llu", first ? "" : ",", (unsigned long long)d ); first = false; }
		fprintf( f, "]}\n" );
		fclose( f );
	}

	// CPU watchdog: a case that uses hang_cpu_s seconds of CPU time is abandoned (exit 97); check.py re-runs it alone
	inline void on_prof( int )
	{
		static std::atomic< uint64_t > last{ ~0ull }; static std::atomic< int > ticks{ 0 }; // any thread of the process may be the one interrupted
		auto* s = ctx().state; if ( !s ) return;
		uint64_t now = s->started.load();
		if ( now == last ) { if ( ++ticks >= ctx().hang_cpu_s ) _exit( 97 ); }
		else { last = now; ticks = 0; }
	}

	inline int run( int argc, char** argv )
	{
		auto& c = ctx();
		std::string part, statefile; uint64_t cases = 0, shard = 0, shards = 1; bool list = false; long long only = -1; bool have_cases = false;
		for ( int i = 1; i < argc; ++i )
		{
			std::string a = argv[ i ];
			auto val = [&]() { return std::string( i + 1 < argc ? argv[ ++i ] : "" ); };
			if ( a == "--list" ) list = true;
			else if ( a == "--part" ) part = val();
			else if ( a == "--seed" ) c.seed = strtoull( val().c_str(), 0, 10 );
			else if ( a == "--cases" ) { cases = strtoull( val().c_str(), 0, 10 ); have_cases = true; }
			else if ( a == "--only" ) only = strtoll( val().c_str(), 0, 10 );
			else if ( a == "--shard" ) shard = strtoull( val().c_str(), 0, 10 );
			else if ( a == "--shards" ) shards = strtoull( val().c_str(), 0, 10 );
			else if ( a == "--thorough" ) c.thorough = true;
			else if ( a == "--out" ) c.out = val();
			else if ( a == "--state" ) statefile = val();
			else if ( a == "--hang" ) c.hang_cpu_s = atoi( val().c_str() );
		}
		if ( list )
		{
			for ( auto& p : parts() ) printf( "%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough );
			return 0;
		}
		static State fallback; c.state = &fallback;
		if ( !statefile.empty() )
		{
			int fd = open( statefile.c_str(), O_RDWR | O_CREAT, 0644 );
			if ( fd < 0 || ftruncate( fd, sizeof( State ) ) ) return 90;
			void* p = mmap( 0, sizeof( State ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
			if ( p == MAP_FAILED ) return 90;
			c.state = (State*)p; close( fd );
		}
		struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction( SIGPROF, &sa, 0 );
		struct itimerval tv = { { 1, 0 }, { 1, 0 } }; setitimer( ITIMER_PROF, &tv, 0 );

		const time_t c_start = time( 0 );
		for ( auto& p : parts() )
		{
			if ( p.name != part ) continue;
			c.part = p.name;
			uint64_t n = have_cases ? cases : c.thorough ? p.thorough : p.quick;
			for ( uint64_t i = shard; i < n || only >= 0; i += shards )
			{
				if ( only >= 0 ) i = (uint64_t)only;
				c.index = i; c.state->index.store( i ); c.state->started.fetch_add( 1 );
				Rng r( mix( c.seed * 0x100000001b3ull ^ hash_str( p.name ) ) ^ mix( i * 2 + 1 ) );
				try { p.fn( r, i ); }
				catch ( Fail& ) {}
				catch ( std::exception& e ) { c.record( p.name + ":unexpected-exception", std::string( "exception " ) + typeid( e ).name() + ": " + show( e.what() ) ); }
				++c.evaluations;
				if ( only >= 0 || c.violations.size() >= 8 ) break;
				if ( !c.thorough && !c.violations.empty() && time( 0 ) - c_start > 100 ) break; // the answer is known; do not go on for long
			}
		}
		struct itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer( ITIMER_PROF, &off, 0 );
		c.state->index.store( ~0ull );
		write_report();
		return 0;
	}

	/// scratch folder, removed at the end of the scope (path made by mkdtemp below $VP_SCRATCH)
	inline void remove_tree( const std::string& p )
	{
		struct stat st;
		if ( lstat( p.c_str(), &st ) ) return;
		if ( S_ISDIR( st.st_mode ) )
		{
			chmod( p.c_str(), 0755 );
			if ( DIR* d = opendir( p.c_str() ) )
			{
				std::vector< std::string > names;
				while ( dirent* e = readdir( d ) ) { std::string n = e->d_name; if ( n != "." && n != ".." ) names.push_back( n ); }
				closedir( d );
				for ( auto& n : names ) remove_tree( p + "/" + n );
			}
			rmdir( p.c_str() );
		}
		else unlink( p.c_str() );
	}
	struct Scratch
	{
		std::string dir;
		Scratch()
		{
			const char* base = getenv( "VP_SCRATCH" );
			dir = std::string( base && *base ? base : "/tmp" ) + "/vpXXXXXX";
			if ( !mkdtemp( &dir[ 0 ] ) ) { fprintf( stderr, "cannot create scratch folder\n" ); _exit( 90 ); }
		}
		~Scratch() { remove_tree( dir ); }
		Scratch( const Scratch& ) = delete;
		std::string operator/( const std::string& n ) const { return dir + "/" + n; }
	};
	inline void put_file( const std::string& p, const std::string& s )
	{
		FILE* f = fopen( p.c_str(), "wb" ); if ( !f ) { fprintf( stderr, "cannot write %s\n", p.c_str() ); _exit( 90 ); }
		if ( s.size() ) fwrite( s.data(), 1, s.size(), f );
		fclose( f );
	}
	inline bool get_file( const std::string& p, std::string& s )
	{
		struct stat st; if ( stat( p.c_str(), &st ) || !S_ISREG( st.st_mode ) ) return false;
		FILE* f = fopen( p.c_str(), "rb" ); if ( !f ) return false;
		s.clear(); char b[ 65536 ]; size_t n;
		while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n );
		fclose( f ); return true;
	}

	/// exact-size heap copy of a text incl. terminating zero, so that reads past it hit a red zone
	struct HeapText
	{
		char* p; size_t n;
		explicit HeapText( const std::string& s ) : p( (char*)malloc( s.size() + 1 ) ), n( s.size() ) { if ( n ) memcpy( p, s.data(), n ); p[ n ] = 0; }
		~HeapText() { free( p ); }
		HeapText( const HeapText& ) = delete;
	};

	inline bool near( long double a, long double b, long double tol ) { return a == b || std::fabs( a - b ) <= tol || ( std::isnan( a ) && std::isnan( b ) ); }

	template< typename F > bool throws( F f ) { try { f(); } catch ( std::exception& ) { return true; } return false; }
}

#define VP_CHECK( key_, cond_, witness_ ) \
	do { ++vp::ctx().checks; if ( !( cond_ ) ) { vp::ctx().record( vp::ctx().part + ":" + ( key_ ), std::string( #cond_ ) + " fails for " + ( witness_ ) ); throw vp::Fail(); } } while ( 0 )

#define PART( name_, quick_, thorough_ ) \
	static void part_##name_( vp::Rng& r, uint64_t idx ); \
	static vp::Reg reg_##name_( #name_, quick_, thorough_, part_##name_ ); \
	static void part_##name_( vp::Rng& r, uint64_t idx )

#ifndef VP_NO_MAIN
int main( int argc, char** argv ) { return vp::run( argc, argv ); }
#endif
