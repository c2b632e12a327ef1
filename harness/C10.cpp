// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/sorted_vector.hpp"
#include "common.hpp"
using namespace flut;
struct X { int k, id; };
static bool operator<( const X& a, const X& b ) { return a.k < b.k; }
static bool operator==( const X& a, const X& b ) { return a.k == b.k; }
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random insert / find sequences on sorted_vector<int> and on a type with equal keys, compared with std::multiset order" );
	auto& r = run.r;
	while ( run.more() )
	{
		sorted_vector< int > v; std::vector< int > ref; sorted_vector< X > w; std::string hist;
		size_t ops = 1 + r.below( 40 ); int range = 1 + int( r.below( 20 ) );
		for ( size_t o = 0; o < ops; ++o )
		{
			int k = int( r.below( range ) ) - 3;
			if ( r.below( 3 ) )
			{
				hist += " insert(" + std::to_string( k ) + ")"; H::begin( hist );
				auto it = v.insert( k ); ref.insert( std::upper_bound( ref.begin(), ref.end(), k ), k );
				H::eq( *it, k, "insert returns the position of the element" );
				auto jt = w.insert( X{ k, int( o ) } ); H::check( jt->k == k && jt->id == int( o ), "insert returns the position of the element" );
			}
			else
			{
				hist += " find(" + std::to_string( k ) + ")"; H::begin( hist );
				bool in = std::find( ref.begin(), ref.end(), k ) != ref.end();
				auto it = v.find( k ); H::eq( it != v.end(), in, "find" ); if ( in ) H::eq( *it, k, "found element" ); else H::check( it == v.end(), "find returns end" );
				const auto& cv = v; auto ct = cv.find( k ); H::eq( ct != cv.end(), in, "const find" ); if ( in ) H::eq( *ct, k, "found element" );
			}
			H::eq( v.size(), ref.size(), "size" );
			H::check( std::equal( v.begin(), v.end(), ref.begin() ), "contents are sorted and complete" );
			for ( size_t i = 0; i + 1 < w.size(); ++i ) { H::check( ( w.begin() + i )->k <= ( w.begin() + i + 1 )->k, "ordered" ); }
			H::eq( w.size(), ref.size(), "size" );
		}
	}
	return run.done();
}
