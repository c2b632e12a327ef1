// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
namespace flut { void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite ); }
#include "flut/char_stream.cpp"
#include "flut/system/path.cpp"
#include "flut/prop_node_tools.cpp"
// file access and logging are not exercised
namespace flut {
	string load_string( const path&, error_code* ) { return string(); }
	namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} }
}
using namespace flut;
static void one( N n, H::Rng& r )
{
	N o = tree( r, 2 ); bool ow = r.below( 2 ) == 1;
	H::begin( show( n ) + " merged with " + show( o ) + ( ow ? " overwriting" : "" ) );
	prop_node p = make( n ), q = make( o );
	merge_prop_nodes( p, q, ow );
	for ( auto& e : o.c ) { bool h = n.has( e.first ); if ( !h || ow ) n.add( e.first ) = e.second; }
	is( p, n, "merge" ); is( q, o, "merge keeps its source" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random pairs of trees with repeated keys, with and without overwriting" );
	while ( run.more() ) one( tree( run.r, 1 + int( run.r.below( 2 ) ) ), run.r );
	return run.done();
}
