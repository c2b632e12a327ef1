// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "common.hpp"
#include <memory>
using namespace flut;
// oracle
static std::pair< char, int > dec( const std::string& b )
{
	size_t n = b.size();
	if ( b[ 0 ] != '\\' || n == 1 ) return { b[ 0 ], 1 };
	switch ( b[ 1 ] ) { case 0: return { '?', 2 }; case '\\': return { '\\', 2 }; case '"': return { '"', 2 }; case 'r': return { '\r', 2 }; case 'n': return { '\n', 2 }; case 't': return { '\t', 2 }; }
	size_t k = 0; int v = 0;
	while ( k < 3 && 1 + k < n && b[ 1 + k ] >= '0' && b[ 1 + k ] <= '7' ) v = v * 8 + b[ 1 + k++ ] - '0';
	return { k > 0 && v < 32 ? char( v ) : '?', int( 1 + k ) };
}
static std::string unq( const std::string& s )
{
	if ( s.size() < 2 || s[ 0 ] != '"' || s.back() != '"' ) return s;
	std::string o;
	for ( size_t i = 1; i + 1 < s.size() && s[ i ] != '"'; ) { auto d = dec( s.substr( i ) ); o += d.first; i += d.second; }
	return o;
}
static void one( const std::string& s )
{
	H::begin( "buffer " + H::esc( s ) );
	if ( !s.empty() ) {
		// exact-size heap copy without terminator: any read past the end is caught by the sanitizer
		std::unique_ptr< char[] > b( new char[ s.size() ] ); memcpy( b.get(), s.data(), s.size() );
		int len = -7; char c = decode_char( b.get(), s.size(), &len );
		auto w = dec( s );
		H::eq( int( c ), int( w.first ), "decode_char value" );
		H::eq( len, w.second, "decode_char consumed length" );
		std::string longer = s + "777"; len = -7; c = decode_char( longer.data(), s.size(), &len );
		H::eq( len, w.second, "decode_char consumed length (more text follows the buffer)" );
		H::eq( int( c ), int( w.first ), "decode_char value (more text follows the buffer)" );
	}
	std::unique_ptr< std::string > heap( new std::string( s ) ); heap->shrink_to_fit();
	H::eqs( try_unquoted( *heap ), unq( s ), "try_unquoted" );
	std::string t = "\"" + s, u = t + "\"";
	H::eqs( try_unquoted( t ), unq( t ), "try_unquoted" );
	H::eqs( try_unquoted( u ), unq( u ), "try_unquoted" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all strings up to length 5 over escape-relevant characters, then random byte strings, also wrapped in quotes; every case is a distinct buffer" );
	int len; bool thrown = false; try { decode_char( "x", 0, &len ); } catch ( std::exception& ) { thrown = true; }
	H::check( thrown, "decode_char on an empty buffer must report an error" );
	H::all( std::string( "\"\\\0n07189a\x80", 11 ), 4, one );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) { one( H::bytes( run.r, 40 ) ); one( H::str( run.r, 60, std::string( "\"\\\0\n\r\t01234567\\\\\\abnrt \x01\x1f\x80\xff", 25 ) ) ); }
	return run.done();
}
