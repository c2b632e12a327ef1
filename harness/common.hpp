// concrete cross-check support: counts cases, remembers the current one, reports the first failure
#pragma once
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
extern "C" void __sanitizer_set_death_callback( void ( *cb )( void ) );
namespace H {
	inline char* cur() { static char b[ 8192 ]; return b; }
	inline std::string esc( const std::string& s ) {
		std::string o = "\""; char t[ 8 ];
		for ( unsigned char c : s ) { if ( c < 32 || c > 126 || c == '"' || c == '\\' ) { snprintf( t, 8, "\\x%02x", c ); o += t; } else o += char( c ); }
		return o + "\"";
	}
	inline std::string esc( const char* s ) { return esc( std::string( s ) ); }
	struct Stats { unsigned long long evals = 0; std::unordered_set<uint64_t> seen; std::vector<std::string> samples; std::string rule; };
	inline Stats& st() { static Stats s; return s; }
	inline void die() { fflush( stdout ); dprintf( 1, "CASE %s\n", cur() ); }
	inline void onsig( int s ) { dprintf( 1, "CASE %s\nFAIL %s on case: %s\n", cur(), s == SIGALRM ? "did not terminate" : "crashed", cur() ); _exit( 1 ); }
	// announce a case (call before exercising the code); text identifies the input
	inline void begin( const std::string& text ) {
		size_t n = text.size() < 8000 ? text.size() : 8000;
		memcpy( cur(), text.data(), n ); cur()[ n ] = 0;
		for ( size_t i = 0; i < n; ++i ) if ( cur()[ i ] == '\n' ) cur()[ i ] = ' ';
		auto& s = st(); ++s.evals;
		if ( s.seen.size() < 2000000 ) s.seen.insert( std::hash<std::string>()( text ) );
		if ( s.samples.size() < 5 || ( s.evals % 50021 == 0 && s.samples.size() < 12 ) ) s.samples.push_back( std::string( cur() ) );
		static unsigned long long k = 0;
		if ( ( k++ & 255 ) == 0 ) alarm( 20 );
	}
	inline void fail( const std::string& what ) {
		std::string w = what; for ( auto& c : w ) if ( c == '\n' ) c = ' ';
		printf( "FAIL %s; case: %s\n", w.c_str(), cur() ); fflush( stdout ); _exit( 1 );
	}
	inline void check( bool ok, const std::string& what ) { if ( !ok ) fail( what ); }
	template< typename A, typename B > void eq( const A& a, const B& b, const char* what ) {
		if ( !( a == b ) ) { std::ostringstream o; o << what << ": got " << a << ", expected " << b; fail( o.str() ); }
	}
	inline void eqs( const std::string& a, const std::string& b, const char* what ) { if ( a != b ) fail( std::string( what ) + ": got " + esc( a ) + ", expected " + esc( b ) ); }
	struct Rng { uint64_t s; explicit Rng( uint64_t x ) : s( x * 0x9E3779B97F4A7C15ull + 0x1234567 ) {}
		uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
		size_t below( size_t n ) { return n ? size_t( ( next() >> 11 ) % n ) : 0; }
		double unit() { return double( next() >> 11 ) / 9007199254740992.0; }
		double real( double a, double b ) { return a + ( b - a ) * unit(); } };
	inline std::string str( Rng& r, size_t maxlen, const std::string& alphabet ) {
		std::string s; size_t n = r.below( maxlen + 1 );
		for ( size_t i = 0; i < n; ++i ) s += alphabet[ r.below( alphabet.size() ) ];
		return s; }
	inline std::string bytes( Rng& r, size_t maxlen ) { std::string s; size_t n = r.below( maxlen + 1 ); for ( size_t i = 0; i < n; ++i ) s += char( r.below( 256 ) ); return s; }
	// all strings over an alphabet up to a length
	inline void all( const std::string& alphabet, size_t maxlen, const std::function< void( const std::string& ) >& f ) {
		std::vector< std::string > cur{ "" };
		for ( size_t l = 0;; ++l ) { for ( auto& s : cur ) f( s ); if ( l == maxlen ) break; std::vector< std::string > nx; for ( auto& s : cur ) for ( char c : alphabet ) nx.push_back( s + c ); cur.swap( nx ); } }
	struct Run { Rng r; double budget; std::clock_t t0;
		Run( int argc, char** argv, const char* rule ) : r( argc > 1 ? strtoull( argv[ 1 ], 0, 10 ) : 1 ), budget( argc > 2 ? atof( argv[ 2 ] ) : 5 ), t0( clock() ) {
			st().rule = rule; __sanitizer_set_death_callback( die ); signal( SIGALRM, onsig ); signal( SIGSEGV, onsig ); signal( SIGABRT, onsig ); signal( SIGFPE, onsig ); alarm( 20 ); }
		bool more() { return double( clock() - t0 ) / CLOCKS_PER_SEC < budget; }
		int done() { auto& s = st(); alarm( 0 );
			auto js = []( const std::string& x ) { std::string o = "\""; for ( char c : x ) { if ( c == '"' || c == '\\' ) o += '\\'; o += ( (unsigned char)c < 32 || (unsigned char)c > 126 ) ? '?' : c; } return o + "\""; };
			printf( "STATS {\"evaluations\": %llu, \"distinct\": %zu, \"rule\": %s, \"samples\": [", s.evals, s.seen.size(), js( s.rule ).c_str() );
			for ( size_t i = 0; i < s.samples.size(); ++i ) printf( "%s%s", i ? ", " : "", js( s.samples[ i ] ).c_str() );
			printf( "]}\n" ); return 0; } };
}
