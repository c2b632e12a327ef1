// flags: -Dp=pattern -include cstring -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
#include "flut/char_stream.cpp"
#include "flut/system/path.cpp"
#include "flut/prop_node_tools.cpp"
#include <sstream>
#include <unistd.h>
// files are read with a stand-in for load_string; logging is not exercised
namespace flut {
	string load_string( const path& f, error_code* ) { std::ifstream i( f.str(), std::ios::binary ); std::stringstream s; s << i.rdbuf(); return s.str(); }
	namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} }
}
using namespace flut;
static std::string word( H::Rng& r, bool label )
{
	static const char C[] = "abXZ019 ={}%;'\"\\\n\t\r.,-_/#\xe9\x01";
	std::string s;
	if ( r.below( 5 ) == 0 && !label ) return "";
	if ( r.below( 3 ) == 0 ) s = label ? "item" : "1.5";
	else for ( size_t k = 1 + r.below( r.below( 8 ) == 0 ? 40 : 5 ); k > 0; --k ) s += C[ r.below( sizeof( C ) - 1 ) ];
	if ( label ) s = "k" + s;
	auto blank = []( char c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); };
	while ( !s.empty() && blank( s.back() ) ) s.pop_back();
	while ( !s.empty() && blank( s[ 0 ] ) ) s.erase( 0, 1 );
	return s;
}
static N grow( H::Rng& r, int depth, bool root )
{
	N n;
	if ( !root ) n.v = word( r, false );
	if ( depth > 0 ) for ( size_t k = r.below( 4 ) + ( root ? 1 : 0 ); k > 0; --k ) n.c.push_back( { word( r, true ), grow( r, depth - 1, false ) } );
	return n;
}
static void one( H::Rng& r, const std::string& file )
{
	N n = grow( r, int( r.below( 4 ) ), true ); bool readable = r.below( 2 ) == 1;
	H::begin( show( n ) + ( readable ? " saved readable" : " saved compact" ) );
	prop_node p = make( n );
	if ( !save_prop( p, path( file ), readable ) ) H::fail( "save_prop failed" );
	is( p, n, "save keeps the tree" );
	prop_node q;
	try { q = load_prop( path( file ) ); } catch ( std::exception& e ) { H::fail( std::string( "saved tree is rejected: " ) + e.what() ); }
	is( q, n, "save and load" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random trees with special characters in labels and values, saved to a scratch file in both formats and loaded again" );
	std::string file = "scratch.prop"; // in the build folder of the check
	while ( run.more() ) one( run.r, file );
	unlink( file.c_str() );
	return run.done();
}
