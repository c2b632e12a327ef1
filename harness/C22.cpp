// flags: -include functional -include map
#include "mathcommon.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/filter.hpp"
#include "flut/buffer/interpolation.hpp"
template< int N > void filter( H::Rng& r )
{
	iir_filter< double, N > f; double b0 = val( r ), a[ N ], b[ N ]; f.b0_ = b0;
	for ( int i = 0; i < N; ++i ) { f.a_[ i ] = a[ i ] = r.real( -0.3, 0.3 ); f.b_[ i ] = b[ i ] = val( r ); }
	std::vector< double > x, y; std::string hist = "filter " + std::to_string( N ) + " b0 " + num( b0 );
	size_t n = 1 + r.below( 10 );
	for ( size_t k = 0; k < n; ++k )
	{
		double v = val( r ), e = b0 * v, sc = std::fabs( b0 * v ); hist += " " + num( v ); H::begin( hist );
		for ( int i = 0; i < N; ++i ) if ( i < int( k ) ) { double t = b[ i ] * x[ k - 1 - i ] + a[ i ] * y[ k - 1 - i ]; e += t; sc += std::fabs( b[ i ] * x[ k - 1 - i ] ) + std::fabs( a[ i ] * y[ k - 1 - i ] ); }
		double g = f( v ); near( g, e, sc, "filter output" ); x.push_back( v ); y.push_back( g ); near( f(), g, 0, "last output" );
		near( f.velocity(), g - ( k ? y[ k - 1 ] : 0 ), g, "velocity" );
	}
}
template< int D > void poly( H::Rng& r, const polynomial< double, D >& p, const std::vector< double >& c )
{
	for ( int k = 0; k < 3; ++k ) { double v = val( r ), e = 0, s = 0, f = 1; if ( std::fabs( v ) > 50 ) v /= 50; for ( double ci : c ) { e += ci * f; s += std::fabs( ci * f ); f *= v; } H::begin( "polynomial degree " + std::to_string( D ) + " at " + num( v ) + " c0 " + num( c[ 0 ] ) ); near( p( v ), e, s, "polynomial value" ); }
	for ( int i = 0; i <= D; ++i ) H::check( p[ i ] == c[ i ], "coefficient" ); H::check( p.offset() == c[ 0 ] && p.slope() == c[ 1 ], "offset and slope" );
	polynomial< double, D > q; for ( int i = 0; i <= D; ++i ) { H::check( q[ i ] == 0, "default coefficient" ); q[ i ] = c[ i ]; } H::check( q( 2.0 ) == p( 2.0 ), "assigned coefficients" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random polynomials of degree 1..3, filters of order 2 and 4 over up to 10 samples, low-pass filters, sample tables of 1..8 points (also with equal keys) at keys on, between and outside the samples, regular tables of 1..7 intervals; compared with the defining formulas to 1e-9" );
	auto& r = run.r;
	while ( run.more() )
	{
		double a = val( r ), b = val( r ), c = val( r ), d = val( r );
		poly< 1 >( r, polynomial< double, 1 >( a, b ), { a, b } ); poly< 2 >( r, polynomial< double, 2 >( a, b, c ), { a, b, c } ); poly< 3 >( r, polynomial< double, 3 >( a, b, c, d ), { a, b, c, d } );
		if ( b != 0 ) { double x = intersect_y( linear_function< double >( a, b ), c ); near( x, ( c - a ) / b, ( std::fabs( c ) + std::fabs( a ) ) / b, "intersection" ); }
		filter< 2 >( r ); filter< 4 >( r );
		{ double w = r.real( 0.01, 0.49 ); H::begin( "butterworth " + num( w ) ); auto f = make_lowpass_butterworth_2nd_order( w ); near( ( f.b0_ + f.b_[ 0 ] + f.b_[ 1 ] ) / ( 1 - f.a_[ 0 ] - f.a_[ 1 ] ), 1, 1, "low-pass gain at frequency 0" );
			near( f.b0_ - f.b_[ 0 ] + f.b_[ 1 ], 0, f.b0_, "low-pass gain at the highest frequency" );
			double s = std::sin( 2 * M_PI * w ), o = std::cos( 2 * M_PI * w ), o2 = std::cos( 4 * M_PI * w ), s2 = std::sin( 4 * M_PI * w ); double nr = f.b0_ + f.b_[ 0 ] * o + f.b_[ 1 ] * o2, ni = f.b_[ 0 ] * s + f.b_[ 1 ] * s2, dr = 1 - f.a_[ 0 ] * o - f.a_[ 1 ] * o2, di = -f.a_[ 0 ] * s - f.a_[ 1 ] * s2;
			near( ( nr * nr + ni * ni ) / ( dr * dr + di * di ), 0.5, 1, "low-pass power at the cutoff frequency" ); }
		{
			size_t n = 1 + r.below( 8 ); std::vector< std::pair< double, double > > s; std::vector< double > u; double k = val( r ); std::string hist = "samples";
			for ( size_t i = 0; i < n; ++i ) { s.push_back( { k, val( r ) } ); u.push_back( val( r ) ); hist += " " + num( k ) + ":" + num( s.back().second ); if ( r.below( 6 ) ) k += r.real( 0.1, 3 ); }
			for ( int q = 0; q < 6; ++q )
			{
				double key = q == 0 ? s[ r.below( n ) ].first : q == 1 ? s[ 0 ].first - r.real( 0, 2 ) : q == 2 ? s[ n - 1 ].first + r.real( 0, 2 ) : r.real( s[ 0 ].first, s[ n - 1 ].first );
				H::begin( hist + " at " + num( key ) );
				size_t p = 0; while ( p < n && s[ p ].first <= key ) ++p;
				double e = p == n ? s[ n - 1 ].second : p == 0 ? s[ 0 ].second : s[ p - 1 ].second + ( key - s[ p - 1 ].first ) * ( s[ p ].second - s[ p - 1 ].second ) / ( s[ p ].first - s[ p - 1 ].first );
				near( interpolated_value( s, key ), e, 1e3, "interpolated sample" );
				double t = q == 0 ? double( r.below( n ) ) : q == 1 ? -r.real( 0, 2 ) : q == 2 ? double( n ) - 1 + r.real( 0, 2 ) : r.real( 0, double( n ) - 1 ); H::begin( "regular samples at " + num( t ) + " of " + std::to_string( n ) );
				size_t l = t < 0 ? 0 : size_t( t ); double e2 = t < 0 ? u[ 0 ] : l + 1 >= n ? u[ n - 1 ] : u[ l ] + ( t - double( l ) ) * ( u[ l + 1 ] - u[ l ] );
				near( interpolated_value( u, t ), e2, 1e3, "interpolated regular sample" );
			}
		}
		{
			double lo = val( r ), hi = lo + r.real( 0.5, 5 ); int n = 1 + int( r.below( 7 ) ); auto fn = [&]( double x ) { return a + b * x + c * x * x; }; regular_piecewise_linear_function< double > f( lo, hi, n, fn ); double st = ( hi - lo ) / n;
			for ( int q = 0; q < 6; ++q )
			{
				double x = q == 0 ? lo - r.real( 0, 3 ) : q == 1 ? hi + r.real( 0, 3 ) : q == 2 ? lo + st * double( r.below( n + 1 ) ) : r.real( lo, hi ); int j = int( std::floor( ( x - lo ) / st ) ); j = j < 0 ? 0 : j > n - 1 ? n - 1 : j;
				H::begin( "regular function " + num( lo ) + ".." + num( hi ) + " / " + std::to_string( n ) + " at " + num( x ) ); double y0 = fn( lo + j * st ), y1 = fn( lo + ( j + 1 ) * st ), w = ( x - lo - j * st ) / st; near( f( x ), y0 + w * ( y1 - y0 ), ( std::fabs( y0 ) + std::fabs( y1 ) ) * ( 10 + std::fabs( w ) ), "piecewise linear value" );
			}
		}
	}
	return run.done();
}
