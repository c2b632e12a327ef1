// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/flat_map.hpp"
#include "common.hpp"
using namespace flut;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences (operator[], at, find, count, has_key, erase, clear, iteration) on a flat_map compared with std::map plus insertion order, keys from a small range so that collisions are frequent" );
	auto& r = run.r;
	while ( run.more() )
	{
		flat_map< int, int > m; std::vector< std::pair< int, int > > ref; std::string hist;
		size_t ops = 1 + r.below( 40 ); int range = 1 + int( r.below( 12 ) );
		auto pos = [&]( int k ) { for ( size_t i = 0; i < ref.size(); ++i ) if ( ref[ i ].first == k ) return i; return ref.size(); };
		for ( size_t o = 0; o < ops; ++o )
		{
			int k = int( r.below( range ) ) - 2, v = int( r.below( 1000 ) );
			size_t p = pos( k );
			const auto& cm = m;
			switch ( r.below( 10 ) )
			{
			case 0: case 1: case 2: hist += " [" + std::to_string( k ) + "]=" + std::to_string( v ); H::begin( hist ); m[ k ] = v; if ( p == ref.size() ) ref.push_back( { k, v } ); else ref[ p ].second = v; break;
			case 3: { hist += " [" + std::to_string( k ) + "]"; H::begin( hist ); int& x = m[ k ]; if ( p == ref.size() ) ref.push_back( { k, 0 } ); H::eq( x, ref[ pos( k ) ].second, "operator[]" ); x = v; ref[ pos( k ) ].second = v; break; }
			case 4: { hist += " at(" + std::to_string( k ) + ")"; H::begin( hist ); bool t = false; int x = -1; try { x = m.at( k ); m.at( k ) = x; } catch ( std::exception& ) { t = true; } H::eq( t, p == ref.size(), "at throws" ); if ( !t ) H::eq( x, ref[ p ].second, "at" );
				t = false; try { x = cm.at( k ); H::eq( x, cm[ k ], "const []" ); } catch ( std::exception& ) { t = true; } H::eq( t, p == ref.size(), "const at throws" ); if ( !t ) H::eq( x, ref[ p ].second, "const at" );
				t = false; try { x = cm[ k ]; } catch ( std::exception& ) { t = true; } H::eq( t, p == ref.size(), "const operator[] throws" ); break; }
			case 5: hist += " find(" + std::to_string( k ) + ")"; H::begin( hist ); H::eq( size_t( m.find( k ) - m.begin() ), p, "find" ); H::eq( size_t( cm.find( k ) - cm.begin() ), p, "const find" ); if ( p < ref.size() ) { m.find( k )->second = v; ref[ p ].second = v; } break;
			case 6: hist += " has_key(" + std::to_string( k ) + ")"; H::begin( hist ); H::eq( cm.has_key( k ), p < ref.size(), "has_key" ); H::eq( cm.count( k ), size_t( p < ref.size() ), "count" ); break;
			case 7: if ( p < ref.size() ) { hist += " erase(" + std::to_string( k ) + ")"; H::begin( hist ); m.erase( m.begin() + p ); ref.erase( ref.begin() + p ); } break;
			case 8: if ( r.below( 8 ) == 0 ) { hist += " clear"; H::begin( hist ); m.clear(); ref.clear(); } break;
			case 9: { hist += " copy"; H::begin( hist ); flat_map< int, int > c( m ); m[ k ] = v; if ( p == ref.size() ) ref.push_back( { k, v } ); else ref[ p ].second = v; H::eq( c.has_key( k ), p < c.size(), "copy independent" ); break; }
			}
			H::eq( m.size(), ref.size(), "size" ); H::eq( m.empty(), ref.empty(), "empty" );
			for ( size_t i = 0; i < ref.size(); ++i ) H::check( ( m.begin() + i )->first == ref[ i ].first && ( m.begin() + i )->second == ref[ i ].second, "entries" );
		}
	}
	return run.done();
}
