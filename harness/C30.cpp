// flags: -include functional -include map -include tuple
#include "flut/memoize.hpp"
#include "common.hpp"
#include <set>
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random call sequences of up to 30 calls on memoised functions of one and two arguments, with a call counter and a log of the arguments" );
	auto& r = run.r;
	while ( run.more() )
	{
		std::vector< int > calls; int mul = int( r.below( 100 ) ); flut::memoize< std::string( int ) > m( [&]( int k ) { calls.push_back( k ); return std::to_string( k * mul ); } ); std::set< int > seen; std::string hist = "one argument:";
		std::vector< std::pair< int, int > > calls2; flut::memoize< int( int, int ) > m2( [&]( int k, int l ) { calls2.push_back( { k, l } ); return k * mul - l; } ); std::set< std::pair< int, int > > seen2;
		size_t n = 1 + r.below( 30 ), range = 1 + r.below( 8 );
		for ( size_t i = 0; i < n; ++i )
		{
			int k = int( r.below( range ) ) - 2, l = int( r.below( range ) ); hist += " " + std::to_string( k ) + "/" + std::to_string( l ); H::begin( hist );
			size_t c = calls.size(); H::eqs( m( k ), std::to_string( k * mul ), "value" ); bool fresh = seen.insert( k ).second; H::eq( calls.size(), c + ( fresh ? 1 : 0 ), "number of calls" ); if ( fresh ) H::eq( calls.back(), k, "argument passed" );
			c = calls2.size(); H::eq( m2( k, l ), k * mul - l, "value of two arguments" ); fresh = seen2.insert( { k, l } ).second; H::eq( calls2.size(), c + ( fresh ? 1 : 0 ), "number of calls with two arguments" ); if ( fresh ) H::check( calls2.back() == std::make_pair( k, l ), "arguments passed" );
		}
	}
	return run.done();
}
