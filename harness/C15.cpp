// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/buffer/data_header.hpp"
#include "common.hpp"
using namespace flut;
// reference: labels by position and the position last given to a label
struct Ref { std::vector< std::string > l; std::vector< std::pair< std::string, size_t > > ix;
	size_t find( const std::string& s ) const { for ( auto& p : ix ) if ( p.first == s ) return p.second; return no_index; } 
	void put( const std::string& s, size_t i ) { ix.push_back( { s, i } ); }
	void drop( const std::string& s ) { for ( size_t i = 0; i < ix.size(); ++i ) if ( ix[ i ].first == s ) { ix.erase( ix.begin() + i ); return; } } };
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences on data_header<string> (three constructors, add, set, resize, clear) compared with a reference list; find/size/[]/iteration after every step" );
	auto& r = run.r; const std::vector< std::string > names{ "", "a", "b", "c", "d", "aa", "time", "x.y" };
	while ( run.more() )
	{
		{ size_t n = r.below( 5 ), m = r.below( 5 ); H::begin( "unlabelled header of " + std::to_string( n ) + ", " + std::to_string( m ) + " added" ); data_header< void > u( n ), z; H::eq( z.size(), size_t( 0 ), "default size" ); for ( size_t i = 0; i < m; ++i ) H::eq( u.add(), n + i, "position added" ); H::eq( u.size(), n + m, "size" ); for ( size_t i = 0; i < n + m; ++i ) H::eq( u.get_label( i ), i, "unlabelled position" ); }
		Ref ref; std::string hist; data_header< std::string > h; size_t kind = r.below( 4 );
		if ( kind == 0 ) { size_t n = r.below( 4 ); hist = "ctor(" + std::to_string( n ) + ")"; H::begin( hist ); h = data_header< std::string >( n ); ref.l.resize( n ); }
		else if ( kind == 1 ) { hist = "ctor{a,b,a}"; H::begin( hist ); h = data_header< std::string >( { "a", "b", "a" } ); ref.l = { "a", "b", "a" }; ref.put( "a", 0 ); ref.put( "b", 1 ); }
		else if ( kind == 2 ) { std::vector< std::string > v; hist = "ctor(vector"; size_t n = r.below( 5 ); for ( size_t i = 0; i < n; ++i ) { v.push_back( names[ r.below( names.size() ) ] ); hist += " " + H::esc( v.back() ); } hist += ")"; H::begin( hist ); h = data_header< std::string >( v ); ref.l = v; for ( size_t i = 0; i < n; ++i ) if ( ref.find( v[ i ] ) == no_index ) ref.put( v[ i ], i ); }
		else H::begin( hist );
		size_t ops = r.below( 12 );
		for ( size_t o = 0; o <= ops; ++o )
		{
			const auto& ch = h; H::eq( h.size(), ref.l.size(), "size" );
			for ( auto& n : names ) H::eq( h.find( n ), ref.find( n ), "find" );
			for ( size_t i = 0; i < ref.l.size(); ++i ) H::eqs( ch[ i ], ref.l[ i ], "label" );
			size_t i = 0; for ( auto& l : ch ) { H::check( i < ref.l.size(), "iteration ends" ); H::eqs( l, ref.l[ i++ ], "iterated label" ); } H::eq( i, ref.l.size(), "iterated labels" );
			if ( o == ops ) break;
			auto n = names[ r.below( names.size() ) ]; bool t = false;
			switch ( r.below( 8 ) )
			{
			case 0: case 1: case 2: { hist += " add(" + H::esc( n ) + ")"; H::begin( hist ); bool has = ref.find( n ) != no_index; size_t res = 0; try { res = h.add( n ); } catch ( std::exception& ) { t = true; } H::eq( t, has, "add of a known label throws" ); if ( !t ) { H::eq( res, ref.l.size(), "index of the added label" ); ref.put( n, ref.l.size() ); ref.l.push_back( n ); } break; }
			case 3: case 4: case 5: { size_t k = r.below( ref.l.size() + 1 ); hist += " set(" + std::to_string( k ) + "," + H::esc( n ) + ")"; H::begin( hist ); bool bad = k >= ref.l.size() || ref.find( n ) != no_index; size_t res = 0; try { res = h.set( k, n ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "set of a known label or an unknown position throws" ); if ( !t ) { H::eq( res, k, "result of set" ); if ( ref.find( ref.l[ k ] ) == k ) ref.drop( ref.l[ k ] ); ref.l[ k ] = n; ref.put( n, k ); } break; }
			case 6: { size_t k = r.below( 7 ); hist += " resize(" + std::to_string( k ) + ")"; H::begin( hist ); try { h.resize( k ); } catch ( std::exception& ) { t = true; } H::eq( t, k < ref.l.size(), "shrinking throws" ); if ( !t ) ref.l.resize( k ); break; }
			case 7: if ( r.below( 4 ) == 0 ) { hist += " clear"; H::begin( hist ); h.clear(); ref = Ref(); } break;
			}
		}
	}
	return run.done();
}
