// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
using namespace flut;
static std::vector< std::string > split( const std::string& k, char d ) { std::vector< std::string > o( 1 ); for ( char c : k ) if ( c == d ) o.push_back( "" ); else o.back() += c; return o; }
static const N* look( const N& n, const std::vector< std::string >& ks ) { const N* q = &n; for ( auto& k : ks ) { if ( !q->has( k ) ) return nullptr; q = &q->c[ q->at( k ) ].second; } return q; }
static void one( N n, H::Rng& r )
{
	prop_node p = make( n ); const prop_node& cp = p;
	for ( int step = 0; step < 4; ++step ) {
		char d = r.below( 2 ) ? '.' : '/'; std::string k = H::str( r, 7, std::string( "ab" ) + d + d + "." ), v = val( r );
		H::begin( show( n ) + " path " + k + " delimiter " + d );
		const N* x = look( n, split( k, d ) );
		H::eq( throws( [&]() { cp.get_delimited< string >( k, d ); } ), x == nullptr, "get_delimited throws exactly when the path does not exist" );
		if ( x ) H::eqs( cp.get_delimited< string >( k, d ), x->v, "get_delimited" );
		auto* c = cp.try_get_child_delimited( k, d ); H::eq( c == nullptr, x == nullptr, "try_get_child_delimited" ); if ( c ) is( *c, *x, "try_get_child_delimited" );
		is( p, n, "reading changes nothing" );
		p.set_delimited( k, v, d ); N* q = &n; for ( auto& s : split( k, d ) ) q = &q->add( s ); *q = N{ v, {} };
		is( p, n, "set_delimited" ); H::eqs( cp.get_delimited< string >( k, d ), v, "read back" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random trees up to depth 3; random delimited paths, including empty, leading, trailing and doubled delimiters" );
	while ( run.more() ) one( tree( run.r, 1 + int( run.r.below( 3 ) ) ), run.r );
	return run.done();
}
