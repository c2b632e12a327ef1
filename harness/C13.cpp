// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/container_tools.hpp"
#include "common.hpp"
using namespace flut;
static std::string show( const std::vector< double >& v ) { std::ostringstream o; for ( auto x : v ) o << " " << x; return o.str(); }
static bool near( double a, double b ) { return std::fabs( a - b ) <= 1e-9 * ( 1 + std::fabs( a ) + std::fabs( b ) ); }
static void one( const std::vector< double >& v, H::Rng& r )
{
	H::begin( "values:" + show( v ) );
	auto s = v; for ( size_t i = 1; i < s.size(); ++i ) for ( size_t j = i; j > 0 && s[ j ] < s[ j - 1 ]; --j ) std::swap( s[ j ], s[ j - 1 ] );
	H::check( sorted_copy( v ) == s, "sorted_copy" );
	auto ix = sort_indices( v ); H::eq( ix.size(), v.size(), "sort_indices size" ); std::vector< char > seen( v.size() );
	for ( size_t i = 0; i < ix.size(); ++i ) { H::check( ix[ i ] < v.size() && !seen[ ix[ i ] ], "sort_indices is a permutation" ); seen[ ix[ i ] ] = 1; H::eq( v[ ix[ i ] ], s[ i ], "sort_indices order" ); }
	if ( v.empty() ) { bool t = false; try { median( v ); } catch ( std::exception& ) { t = true; } H::check( t, "median of nothing throws" ); t = false; try { back_index( v ); } catch ( std::exception& ) { t = true; } H::check( t, "back_index of nothing throws" ); }
	else {
		size_t n = v.size(); H::check( near( median( v ), n % 2 ? s[ n / 2 ] : 0.5 * ( s[ n / 2 ] + s[ n / 2 - 1 ] ) ), "median" );
		H::eq( back_index( v ), n - 1, "back_index" );
		double sum = 0; for ( auto x : v ) sum += x; H::check( near( average( v ), sum / n ), "average" );
		size_t c = 1 + r.below( n ); sum = 0; for ( size_t i = 0; i < c; ++i ) sum += s[ i ]; H::check( near( top_average( v, c ), sum / c ), "top_average" );
		auto w = v; const auto& cv = v; H::eq( *min_element( w ), s[ 0 ], "min_element" ); H::eq( *max_element( w ), s[ n - 1 ], "max_element" ); H::eq( *min_element( cv ), s[ 0 ], "min_element" ); H::eq( *max_element( cv ), s[ n - 1 ], "max_element" );
	}
	for ( double x : { 0.0, 1.0, 2.0, -1.0, 99.0 } ) {
		size_t p = 0; while ( p < v.size() && v[ p ] != x ) ++p;
		H::eq( find_index( v, x ), p == v.size() ? no_index : p, "find_index" );
		auto w = v; auto it = flut::find( w, x ); H::eq( size_t( it - w.begin() ), p, "find" );
		auto pr = [&]( double y ) { return y > x; }; size_t q = 0; while ( q < v.size() && !( v[ q ] > x ) ) ++q; H::eq( size_t( flut::find_if( w, pr ) - w.begin() ), q, "find_if" );
		std::vector< double > f, g; for ( auto y : v ) if ( y > x ) f.push_back( y ); auto vw = make_view_if( w, pr ); for ( auto i = vw.begin(); i != vw.end(); ++i ) { g.push_back( *i ); if ( g.size() > v.size() ) break; } H::check( f == g, "view_if" );
		g.clear(); for ( auto i = vw.begin(); i != vw.end(); ) { H::check( i.operator->() == &*i, "-> of view_if" ); g.push_back( *i++ ); if ( g.size() > v.size() ) break; } H::check( f == g, "view_if with postfix increment" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all vectors up to length 6 over {-1,0,1,2}, then random vectors up to length 40" );
	H::all( "abcd", 6, [&]( const std::string& t ) { std::vector< double > v; for ( char c : t ) v.push_back( c - 'b' ); one( v, run.r ); } );
	while ( run.more() ) { std::vector< double > v; size_t n = run.r.below( 40 ); for ( size_t i = 0; i < n; ++i ) v.push_back( run.r.below( 2 ) ? double( run.r.below( 9 ) ) - 3 : run.r.real( -100, 100 ) ); one( v, run.r ); }
	return run.done();
}
