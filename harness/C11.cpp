// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/dictionary.hpp"
#include "common.hpp"
using namespace flut;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random dictionaries (0..8 entries, duplicate elements and names included) and every lookup of elements and names in and out of the dictionary" );
	auto& r = run.r;
	while ( run.more() )
	{
		std::vector< std::pair< int, std::string > > ref; std::string hist; size_t n = r.below( 9 );
		for ( size_t i = 0; i < n; ++i ) { ref.push_back( { int( r.below( 8 ) ), H::str( r, 2, "ab" ) } ); hist += " {" + std::to_string( ref[ i ].first ) + "," + ref[ i ].second + "}"; }
		auto mk = [&]() -> dictionary< int > {
			switch ( n ) {
			case 0: return dictionary< int >();
			case 1: return dictionary< int >( { ref[ 0 ] } );
			case 2: return make_dictionary< int >( { ref[ 0 ], ref[ 1 ] } );
			case 3: return dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ] } );
			case 4: return make_dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ], ref[ 3 ] } );
			case 5: return dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ], ref[ 3 ], ref[ 4 ] } );
			case 6: return dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ], ref[ 3 ], ref[ 4 ], ref[ 5 ] } );
			case 7: return dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ], ref[ 3 ], ref[ 4 ], ref[ 5 ], ref[ 6 ] } );
			default: return dictionary< int >( { ref[ 0 ], ref[ 1 ], ref[ 2 ], ref[ 3 ], ref[ 4 ], ref[ 5 ], ref[ 6 ], ref[ 7 ] } ); } };
		auto d = mk();
		for ( int k = -1; k < 9; ++k )
		{
			H::begin( "dictionary" + hist + " lookup element " + std::to_string( k ) );
			size_t p = 0; while ( p < ref.size() && ref[ p ].first != k ) ++p;
			bool t = false; std::string s; try { s = d( k ); } catch ( std::exception& ) { t = true; }
			H::eq( t, p == ref.size(), "unknown element throws" ); if ( !t ) H::eqs( s, ref[ p ].second, "name" );
		}
		for ( auto nm : { "", "a", "b", "aa", "ab", "ba", "bb", "c", "A" } )
		{
			std::string q = nm; H::begin( "dictionary" + hist + " lookup name " + H::esc( q ) );
			size_t p = 0; while ( p < ref.size() && ref[ p ].second != q ) ++p;
			bool t = false; int e = 0; try { e = d( q ); } catch ( std::exception& ) { t = true; }
			H::eq( t, p == ref.size(), "unknown name throws" ); if ( !t ) H::eq( e, ref[ p ].first, "element" );
			int def = 77; H::eq( d( q, def ), p == ref.size() ? 77 : ref[ p ].first, "element or default" );
			t = false; try { e = lookup< int >( q, { { "a", 1 }, { "ab", 2 }, { "a", 3 } } ); } catch ( std::exception& ) { t = true; }
			H::eq( t, !( q == "a" || q == "ab" ), "lookup of an unknown name throws" ); if ( !t ) H::eq( e, q == "a" ? 1 : 2, "lookup" );
		}
	}
	return run.done();
}
