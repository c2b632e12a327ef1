// flags: -include functional -include memory -include stdexcept
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/dynarray.hpp"
#include "common.hpp"
using namespace flut;
typedef dynarray< std::string > D; typedef std::vector< std::string > R;
static void same( D& d, const R& r, const char* what )
{
	const D& c = d;
	H::eq( d.size(), r.size(), what ); H::eq( size_t( d.end() - d.begin() ), r.size(), "end - begin" ); H::eq( size_t( c.cend() - c.cbegin() ), r.size(), "cend - cbegin" ); H::eq( size_t( c.end() - c.begin() ), r.size(), "const end - begin" );
	for ( size_t i = 0; i < r.size(); ++i ) { H::eqs( d[ i ], r[ i ], what ); H::eqs( c[ i ], r[ i ], what ); H::eqs( d.at( i ), r[ i ], what ); H::eqs( c.at( i ), r[ i ], what ); H::eqs( d.data()[ i ], r[ i ], what ); H::eqs( c.data()[ i ], r[ i ], what ); }
	size_t i = 0; for ( auto& e : c ) H::eqs( e, r[ i++ ], what ); H::eq( i, r.size(), "iterated elements" );
	i = 0; for ( auto& e : d ) H::eqs( e, r[ i++ ], what ); H::eq( i, r.size(), "iterated elements" );
	int t = 0; for ( size_t k : { r.size(), r.size() + 1, size_t( -1 ) } ) { try { d.at( k ); } catch ( std::exception& ) { ++t; } try { c.at( k ); } catch ( std::exception& ) { ++t; } } H::eq( t, 6, "at() beyond the end throws" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random sequences of construction (default, size, size and value, copy, move), copy and move assignment (also to itself), element writes and assign on four dynarray<string> of size 0..6 compared with std::vector" );
	auto& r = run.r;
	while ( run.more() )
	{
		std::vector< D > d; std::vector< R > ref( 4 ); std::string hist; for ( int i = 0; i < 4; ++i ) d.push_back( D() );
		size_t ops = 1 + r.below( 25 ), seq = 0;
		for ( size_t o = 0; o < ops; ++o )
		{
			size_t a = r.below( 4 ), b = r.below( 4 ), n = r.below( 7 ); std::string v = "a string that is not short " + std::to_string( seq++ ), ab = std::to_string( a ) + "," + std::to_string( b );
			switch ( r.below( 10 ) )
			{
			case 0: hist += " size(" + std::to_string( n ) + ")"; H::begin( hist ); d[ a ] = D( n ); ref[ a ] = R( n ); break;
			case 1: case 2: hist += " fill(" + std::to_string( n ) + ")"; H::begin( hist ); d[ a ] = D( n, v ); ref[ a ] = R( n, v ); break;
			case 3: hist += " copy(" + ab + ")"; H::begin( hist ); { D t( d[ b ] ); same( t, ref[ b ], "copy" ); same( d[ b ], ref[ b ], "copied from" ); if ( t.size() ) { t[ 0 ] = v; same( d[ b ], ref[ b ], "copied from after writing to the copy" ); } } break;
			case 4: hist += " assign(" + ab + ")"; H::begin( hist ); d[ a ] = d[ b ]; ref[ a ] = R( ref[ b ] ); break;
			case 5: hist += " move-assign(" + ab + ")"; if ( a == b ) break; H::begin( hist ); d[ a ] = std::move( d[ b ] ); ref[ a ] = ref[ b ]; ref[ b ].clear(); break;
			case 6: hist += " move(" + ab + ")"; H::begin( hist ); { D t( std::move( d[ b ] ) ); R rt = ref[ b ]; ref[ b ].clear(); same( t, rt, "moved to" ); same( d[ b ], ref[ b ], "moved from" ); if ( r.below( 2 ) ) { d[ a ] = std::move( t ); ref[ a ] = rt; } } break;
			case 7: case 8: if ( ref[ a ].size() ) { size_t i = r.below( ref[ a ].size() ); hist += " write(" + std::to_string( i ) + ")"; H::begin( hist ); if ( r.below( 2 ) ) d[ a ][ i ] = v; else d[ a ].at( i ) = v; ref[ a ][ i ] = v; } break;
			case 9: hist += " assign-value"; H::begin( hist ); d[ a ].assign( v ); ref[ a ].assign( ref[ a ].size(), v ); break;
			}
			for ( int i = 0; i < 4; ++i ) same( d[ i ], ref[ i ], "contents" );
		}
	}
	return run.done();
}
