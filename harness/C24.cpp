// flags: -include cstring
#include "flut/flag_set.hpp"
#include "common.hpp"
using namespace flut;
enum class F { a, b, c, d, e, f, g, h, top = 31 };
template< typename FS, int N > void hist( H::Rng& r, const char* nm )
{
	std::string t = nm; std::vector< bool > m( N, false ); FS s; FS other; std::vector< bool > om( N, false );
	auto pick = [&]() { return int( r.below( N ) ); };
	size_t ops = 1 + r.below( 20 );
	for ( size_t o = 0; o <= ops; ++o )
	{
		int i = pick(), j = pick(), k = pick(); bool v = r.below( 2 );
		FS* ret = &s;
		switch ( o == 0 ? 20 : r.below( 15 ) )
		{
		case 0: case 1: t += " set(" + std::to_string( i ) + ")"; H::begin( t ); ret = &s.set( F( i ) ); m[ i ] = true; break;
		case 2: case 3: t += " clear(" + std::to_string( i ) + ")"; H::begin( t ); ret = &s.clear( F( i ) ); m[ i ] = false; break;
		case 4: case 5: t += " set(" + std::to_string( i ) + ( v ? ",true)" : ",false)" ); H::begin( t ); ret = &s.set( F( i ), v ); m[ i ] = v; break;
		case 6: t += " set{" + std::to_string( i ) + "," + std::to_string( j ) + "," + std::to_string( k ) + "}"; H::begin( t ); ret = &s.set( { F( i ), F( j ), F( k ) } ); m[ i ] = m[ j ] = m[ k ] = true; break;
		case 7: t += " clear{" + std::to_string( i ) + "," + std::to_string( j ) + "}"; H::begin( t ); ret = &s.clear( { F( i ), F( j ) } ); m[ i ] = m[ j ] = false; break;
		case 8: if ( r.below( 3 ) == 0 ) { t += " clear()"; H::begin( t ); s.clear(); m.assign( N, false ); } break;
		case 9: t += " set<2>()"; H::begin( t ); ret = &s.template set< F::c >(); m[ 2 ] = true; break;
		case 10: t += v ? " set<7>(true)" : " set<7>(false)"; H::begin( t ); ret = &s.template set< F::h >( v ); m[ 7 ] = v; break;
		case 11: t += " clear<0>()"; H::begin( t ); ret = &s.template clear< F::a >(); m[ 0 ] = false; break;
		case 12: { t += " copy"; H::begin( t ); FS c( s ); other = c; om = m; s.set( F( i ) ); m[ i ] = true; break; }
		case 13: t += " assign"; H::begin( t ); s = other; m = om; break;
		case 14: { t += " init{" + std::to_string( i ) + "," + std::to_string( j ) + "}"; H::begin( t ); s = FS{ F( i ), F( j ) }; m.assign( N, false ); m[ i ] = m[ j ] = true; break; }
		default: H::begin( t );
		}
		H::check( ret == &s, "the object itself is returned" );
		bool any = false; for ( int q = 0; q < N; ++q ) { any = any || m[ q ]; H::eq( bool( s.get( F( q ) ) ), bool( m[ q ] ), "get" ); H::eq( bool( s( F( q ) ) ), bool( m[ q ] ), "operator()" ); H::eq( bool( other.get( F( q ) ) ), bool( om[ q ] ), "copy" ); }
		H::eq( s.any(), any, "any" ); H::eq( s.template get< F::c >(), bool( m[ 2 ] ), "get<2>" ); H::eq( s.template get< F::a >(), bool( m[ 0 ] ), "get<0>" ); H::eq( s.template get< F::h >(), bool( m[ 7 ] ), "get<7>" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences (up to 20 steps) on flag_set over unsigned int (32 flags) and unsigned char (8 flags): single, list and template forms, copies, compared with a bool array" );
	while ( run.more() ) { hist< flag_set< F >, 32 >( run.r, "32 flags:" ); hist< flag_set< F, unsigned char >, 8 >( run.r, "8 flags:" ); }
	return run.done();
}
