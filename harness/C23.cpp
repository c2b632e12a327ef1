// flags: -include cstring
#include "flut/hash.hpp"
#include "common.hpp"
using namespace flut;
static uint64_t fnvref( const std::string& s ) { uint64_t h = 14695981039346656037ull; for ( unsigned char c : s ) { if ( !c ) break; h ^= c; h *= 1099511628211ull; } return h; }
static constexpr hash_t k0 = hash_constexpr( "" ), k1 = hash_constexpr( "a" ), k2 = "foobar"_hash, k3 = hash_constexpr( "\xc3\xa9\xff\x80z" ), k4 = "some longer key with spaces"_hash;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all strings of up to two bytes, random byte strings of up to 64 bytes, published FNV-1a values, compile-time constants" );
	auto& r = run.r;
	auto one = [&]( const std::string& s ) {
		H::begin( H::esc( s ) ); uint64_t e = fnvref( s );
		H::eq( hash( s ), e, "hash of std::string" ); H::eq( hash( s.c_str() ), e, "hash of C string" ); H::eq( hash_constexpr( s.c_str() ), e, "hash_constexpr" );
		H::eq( uint64_t( operator""_hash( s.c_str(), s.size() ) ), e, "_hash literal" );
		std::string t = s.c_str(); size_t k = r.below( t.size() + 1 ); H::eq( hash_constexpr( t.c_str() + k, fnvref( t.substr( 0, k ) ) ), e, "continued hash" ); };
	H::begin( "published values" ); H::eq( hash( "" ), 0xcbf29ce484222325ull, "\"\"" ); H::eq( hash( "a" ), 0xaf63dc4c8601ec8cull, "\"a\"" ); H::eq( hash( "foobar" ), 0x85944171f73967e8ull, "\"foobar\"" );
	H::eq( k0, fnvref( "" ), "constexpr \"\"" ); H::eq( k1, fnvref( "a" ), "constexpr \"a\"" ); H::eq( k2, fnvref( "foobar" ), "constexpr \"foobar\"" ); H::eq( k3, fnvref( "\xc3\xa9\xff\x80z" ), "constexpr non-ASCII" ); H::eq( k4, fnvref( "some longer key with spaces" ), "constexpr long" );
	one( "" ); for ( int a = 0; a < 256; ++a ) one( std::string( 1, char( a ) ) );
	for ( int a = 0; a < 65536; ++a ) one( std::string{ char( a >> 8 ), char( a & 255 ) } );
	while ( run.more() ) { one( H::bytes( r, 64 ) ); if ( r.below( 2000 ) == 0 ) one( std::string( 1000 + r.below( 3000 ), char( 1 + r.below( 255 ) ) ) ); }
	return run.done();
}
