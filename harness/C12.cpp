// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/circular_deque.hpp"
#include "common.hpp"
#include <deque>
using namespace flut;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences on circular_deque with initial capacities 0..5 compared with std::deque: pushes and pops on both ends, indexing, front/back, clear, reserve, iteration" );
	auto& r = run.r;
	while ( run.more() )
	{
		size_t cap = r.below( 6 ); circular_deque< int > d( cap ); std::deque< int > ref; std::string hist = "capacity " + std::to_string( cap );
		size_t ops = 1 + r.below( 40 ); unsigned bias = unsigned( r.below( 3 ) );
		for ( size_t o = 0; o < ops; ++o )
		{
			int v = int( 100 + o );
			switch ( r.below( 12 ) + ( bias == 1 && r.below( 2 ) ? 100 : 0 ) )
			{
			case 0: case 1: case 2: case 100: hist += " push_back"; H::begin( hist ); d.push_back( v ); ref.push_back( v ); break;
			case 3: case 4: case 101: hist += " push_front"; H::begin( hist ); d.push_front( v ); ref.push_front( v ); break;
			case 5: case 6: { hist += " pop_back"; H::begin( hist ); bool t = false; try { d.pop_back(); } catch ( std::exception& ) { t = true; } H::eq( t, ref.empty(), "pop_back of an empty deque throws" ); if ( !t ) ref.pop_back(); break; }
			case 7: case 8: { hist += " pop_front"; H::begin( hist ); bool t = false; try { d.pop_front(); } catch ( std::exception& ) { t = true; } H::eq( t, ref.empty(), "pop_front of an empty deque throws" ); if ( !t ) ref.pop_front(); break; }
			case 9: if ( r.below( 4 ) == 0 ) { hist += " clear"; H::begin( hist ); d.clear(); ref.clear(); } break;
			case 10: { size_t n = r.below( 10 ); hist += " reserve(" + std::to_string( n ) + ")"; H::begin( hist ); size_t c = d.capacity(); d.reserve( n ); H::check( d.capacity() >= n && d.capacity() >= c, "capacity after reserve" ); break; }
			case 11: if ( !ref.empty() ) { size_t i = r.below( ref.size() ); hist += " write(" + std::to_string( i ) + ")"; H::begin( hist ); if ( r.below( 2 ) ) { d[ i ] = v; ref[ i ] = v; } else if ( r.below( 2 ) ) { d.front() = v; ref.front() = v; } else { d.back() = v; ref.back() = v; } } break;
			}
			const auto& cd = d;
			H::eq( d.size(), ref.size(), "size" ); H::eq( d.empty(), ref.empty(), "empty" ); H::check( d.capacity() >= d.size(), "capacity" ); H::eq( d.full(), d.size() == d.capacity(), "full" );
			for ( size_t i = 0; i < ref.size(); ++i ) { H::eq( d[ i ], ref[ i ], "element" ); H::eq( cd[ i ], ref[ i ], "const element" ); }
			if ( !ref.empty() ) { H::eq( d.front(), ref.front(), "front" ); H::eq( d.back(), ref.back(), "back" ); H::eq( cd.front(), ref.front(), "const front" ); H::eq( cd.back(), ref.back(), "const back" ); }
			else { int t = 0; try { d.front(); } catch ( std::exception& ) { ++t; } try { d.back(); } catch ( std::exception& ) { ++t; } try { cd.front(); } catch ( std::exception& ) { ++t; } try { cd.back(); } catch ( std::exception& ) { ++t; } H::eq( t, 4, "front/back of an empty deque throws" ); }
			size_t i = 0; for ( auto it = d.begin(); it != d.end(); ++it ) { H::check( i < ref.size(), "iteration ends" ); H::eq( *it, ref[ i++ ], "iterated element" ); } H::eq( i, ref.size(), "iterated elements" );
			i = 0; for ( auto it = d.begin(); it != d.end(); ) { H::check( i < ref.size(), "iteration ends" ); H::eq( *it++, ref[ i++ ], "iterated element" ); }
			i = 0; for ( auto it = cd.begin(); it != cd.end(); ++it ) { H::check( i < ref.size(), "iteration ends" ); H::eq( *it, ref[ i++ ], "const iterated element" ); } H::eq( i, ref.size(), "iterated elements" );
			H::eq( size_t( d.end() - d.begin() ), ref.size(), "distance" );
			i = 0; for ( auto it = d.begin(); it != d.end(); ++it ) { H::check( it.operator->() == &d[ i ], "-> of an iterator" ); ++i; }
			if ( !ref.empty() ) { size_t k = r.below( ref.size() ); H::eq( *( d.begin() + int( k ) ), ref[ k ], "iterator + n" ); H::eq( *( d.end() - int( ref.size() - k ) ), ref[ k ], "iterator - n" ); }
		}
	}
	return run.done();
}
