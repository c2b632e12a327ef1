// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/table.hpp"
#include "common.hpp"
using namespace flut;
typedef std::vector< std::vector< int > > M;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences on table<int>: construction, add_row, add_column, get_or_add_row/column, resize, access by index and by label; all cells, labels and bounds checks compared with a matrix" );
	auto& r = run.r; const std::vector< std::string > names{ "a", "b", "c", "d", "e" };
	auto find = []( const std::vector< std::string >& l, const std::string& n ) -> size_t { for ( size_t i = 0; i < l.size(); ++i ) if ( l[ i ] == n ) return i; return no_index; };
	while ( run.more() )
	{
		M m; std::vector< std::string > rl, cl; std::string hist; table< int > s; size_t nc = 0;
		auto rows = [&]( size_t n, int v ) { m.resize( n, std::vector< int >( nc, v ) ); rl.resize( n ); };
		auto cols = [&]( size_t n, int v ) { for ( auto& x : m ) x.resize( n, v ); nc = n; cl.resize( n ); };
		if ( r.below( 2 ) ) { size_t a = r.below( 4 ), b = r.below( 4 ); hist = "table(" + std::to_string( a ) + "," + std::to_string( b ) + ")"; H::begin( hist ); s = table< int >( a, b ); cols( b, 0 ); rows( a, 0 ); }
		size_t ops = 1 + r.below( 12 ); int v = 10;
		for ( size_t o = 0; o < ops; ++o )
		{
			++v; auto n = names[ r.below( names.size() ) ], n2 = names[ r.below( names.size() ) ]; bool t = false; size_t res = 0;
			switch ( r.below( 10 ) )
			{
			case 0: case 1: { hist += " add_row(" + n + ")"; H::begin( hist ); bool bad = find( rl, n ) != no_index; try { res = s.add_row( n, v ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "add_row of a known label throws" ); if ( !t ) { H::eq( res, m.size(), "index of the added row" ); rows( m.size() + 1, v ); rl.back() = n; } break; }
			case 2: case 3: { hist += " add_column(" + n + ")"; H::begin( hist ); if ( find( cl, n ) != no_index ) break; res = s.add_column( n, v ); H::eq( res, nc, "index of the added column" ); cols( nc + 1, v ); cl.back() = n; break; }
			case 4: { hist += " get_or_add_row(" + n + ")"; H::begin( hist ); size_t e = find( rl, n ); res = s.get_or_add_row( n, v ); H::eq( res, e == no_index ? m.size() : e, "get_or_add_row" ); if ( e == no_index ) { rows( m.size() + 1, v ); rl.back() = n; } break; }
			case 5: { hist += " get_or_add_column(" + n + ")"; H::begin( hist ); size_t e = find( cl, n ); res = s.get_or_add_column( n, v ); H::eq( res, e == no_index ? nc : e, "get_or_add_column" ); if ( e == no_index ) { cols( nc + 1, v ); cl.back() = n; } break; }
			case 6: { size_t a = m.size() + r.below( 3 ), b = nc + r.below( 3 ); if ( r.below( 6 ) == 0 ) { a = r.below( 4 ); b = r.below( 4 ); } hist += " resize(" + std::to_string( a ) + "," + std::to_string( b ) + ")"; H::begin( hist ); bool bad = a < m.size() || b < nc; try { s.resize( a, b, v ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "shrinking throws" ); if ( !t ) { cols( b, v ); rows( a, v ); } break; }
			case 7: case 8: { hist += " write(" + n + "," + n2 + ")"; H::begin( hist ); s( n, n2 ) = v; if ( find( rl, n ) == no_index ) { rows( m.size() + 1, 0 ); rl.back() = n; } if ( find( cl, n2 ) == no_index ) { cols( nc + 1, 0 ); cl.back() = n2; } m[ find( rl, n ) ][ find( cl, n2 ) ] = v; break; }
			case 9: if ( !m.empty() && nc ) { size_t a = r.below( m.size() ), b = r.below( nc ); hist += " write(" + std::to_string( a ) + "," + std::to_string( b ) + ")"; H::begin( hist ); s( a, b ) = v; m[ a ][ b ] = v; } break;
			}
			const auto& cs = s;
			H::eq( s.row_size(), m.size(), "row_size" ); H::eq( s.column_size(), nc, "column_size" );
			for ( size_t a = 0; a < m.size(); ++a ) for ( size_t b = 0; b < nc; ++b ) { H::eq( s( a, b ), m[ a ][ b ], "cell" ); H::eq( cs( a, b ), m[ a ][ b ], "const cell" ); }
			for ( size_t a = 0; a < m.size(); ++a ) H::eqs( cs.row_labels()[ a ], rl[ a ], "row label" );
			for ( size_t b = 0; b < nc; ++b ) H::eqs( cs.col_labels()[ b ], cl[ b ], "column label" );
			for ( auto& x : names ) { H::eq( cs.row_labels().find( x ), find( rl, x ), "row by label" ); H::eq( cs.col_labels().find( x ), find( cl, x ), "column by label" );
				for ( auto& y : names ) { bool t2 = false; int got = 0; try { got = cs( x, y ); } catch ( std::exception& ) { t2 = true; } size_t a = find( rl, x ), b = find( cl, y ); H::eq( t2, a == no_index || b == no_index, "const access by unknown label throws" ); if ( !t2 ) H::eq( got, m[ a ][ b ], "const access by label" ); } }
			for ( int q = 0; q < 2; ++q ) { size_t a = q ? m.size() : r.below( m.size() + 1 ), b = q ? r.below( nc + 1 ) : nc; int t2 = 0; try { s( a, b ); } catch ( std::exception& ) { ++t2; } try { cs( a, b ); } catch ( std::exception& ) { ++t2; } H::eq( t2, 2, "access out of bounds throws" ); }
		}
	}
	return run.done();
}
