// flags: -include map -include functional -include limits -include iomanip
#include "mathcommon.hpp"
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random values, limits and angles (several magnitudes, integers, exact limits and multiples of the range): clamping, soft clamping, wrapping, bounds, averages, differences, unit conversion, sign, powers of two, parity, square wave" );
	auto& r = run.r; const double pi = 3.14159265358979323846;
	for ( unsigned long long i = 0; i < 70000; ++i ) { unsigned v = i < 65600 ? unsigned( i ) : unsigned( r.next() ); if ( i % 7 == 0 && i > 65600 ) v = 1u << r.below( 32 ); H::begin( "integer " + std::to_string( v ) ); unsigned c = 0; for ( int k = 0; k < 32; ++k ) c += ( v >> k ) & 1; H::eq( is_power_of_two( v ), c == 1, "is_power_of_two" ); int s = int( v ); H::eq( is_even( s ), s % 2 == 0, "is_even" ); H::eq( is_odd( s ), s % 2 != 0, "is_odd" ); }
	while ( run.more() )
	{
		double a = val( r ), b = val( r ), v = val( r ); if ( a > b ) std::swap( a, b ); if ( r.below( 8 ) == 0 ) v = a; if ( r.below( 8 ) == 0 ) v = b; if ( r.below( 8 ) == 0 ) v = a + ( b - a ) * ( double( r.below( 9 ) ) - 4 );
		H::begin( "v=" + num( v ) + " lower=" + num( a ) + " upper=" + num( b ) );
		double e = v < a ? a : v > b ? b : v, t = v; double& ref = clamp( t, a, b ); H::eq( t, e, "clamp" ); H::check( &ref == &t, "clamp returns its argument" ); H::eq( clamped( v, a, b ), e, "clamped" ); H::eq( is_between( v, a, b ), v >= a && v <= b, "is_between" );
		bounds< double > bo( a, b ); H::eq( bo.is_within( v ), v >= a && v <= b, "bounds::is_within" ); near( bo.get_violation( v ), v - e, v - e, "bounds::get_violation" ); if ( e == v ) H::eq( bo.get_violation( v ), 0., "bounds::get_violation inside" ); near( bo.range(), b - a, b - a, "bounds::range" ); t = v; H::eq( bo.clamp( t ), e, "bounds::clamp" ); H::eq( t, e, "bounds::clamp in place" ); auto nb = -bo; H::check( nb.lower == -b && nb.upper == -a, "negated bounds" );
		{ bounds< double > one( v ); H::check( one.lower == v && one.upper == v, "bounds of one value" ); float fa = float( a ), fb = float( b ); bounds< float > bf( fa, fb ); bounds< double > bd( bf ); H::check( bd.lower == float( a ) && bd.upper == float( b ), "converted bounds" ); }
		int ia = int( a ), ib = int( b ), iv = int( v ); if ( ia > ib ) std::swap( ia, ib ); { int x = iv; clamp( x, ia, ib ); H::eq( x, iv < ia ? ia : iv > ib ? ib : iv, "integer clamp" ); }
		if ( b - a > 1e-6 ) { double w = v; double& wr = wrap( w, a, b ); H::check( &wr == &w, "wrap returns its argument" ); double tol = 1e-9 * ( 1 + std::fabs( v ) + std::fabs( a ) + std::fabs( b ) ); H::check( w >= a - tol && w <= b + tol, "wrap stays in range: " + num( w ) ); double k = ( v - w ) / ( b - a ); H::check( std::fabs( k - std::round( k ) ) < 1e-6 * ( 1 + std::fabs( k ) ), "wrap moves by a multiple of the range: " + num( w ) ); if ( v >= a + tol && v < b - tol ) near( w, v, tol * 1e9, "wrap inside" ); H::eq( wrapped( v, a, b ), w, "wrapped" );
			double bd = r.below( 4 ) ? r.real( 0, 0.5 ) : r.below( 2 ) * 0.5; H::begin( "soft v=" + num( v ) + " lower=" + num( a ) + " upper=" + num( b ) + " boundary=" + num( bd ) ); double rr = bd * ( b - a ), sc = v; double& sr = soft_clamp( sc, a, b, bd ); H::check( &sr == &sc, "soft_clamp returns its argument" ); H::check( sc >= a - tol && sc <= b + tol, "soft_clamp stays in range: " + num( sc ) ); if ( v <= b - rr && v >= a + rr ) H::eq( sc, v, "soft_clamp inside" ); H::eq( soft_clamped( v, a, b, bd ), sc, "soft_clamped" );
			double se = v > b - rr ? ( rr == 0 ? b : b - rr * rr / ( v - b + 2 * rr ) ) : v < a + rr ? ( rr == 0 ? a : a + rr * rr / ( a + 2 * rr - v ) ) : v; near( sc, se, tol * 1e9, "soft_clamp" ); t = v; bo.soft_clamp( t, bd ); H::eq( t, sc, "bounds::soft_clamp" );
			double v2 = v + r.real( 0, 1 ); H::check( soft_clamped( v2, a, b, bd ) >= sc - tol, "soft_clamp is monotone" ); }
		H::begin( "v=" + num( v ) + " w=" + num( a ) ); near( rad_to_deg( v ), v / pi * 180, v * 60, "rad_to_deg" ); near( deg_to_rad( v ), v / 180 * pi, v, "deg_to_rad" );
		Rad ra( v ); Deg de( v ); near( ra.rad_value(), v, v, "radian value" ); near( ra.deg_value(), v * 180 / pi, v * 60, "radians in degrees" ); near( de.deg_value(), v, v, "degree value" ); near( de.rad_value(), v * pi / 180, v, "degrees in radians" ); near( Rad( de ).value, v * pi / 180, v, "conversion to radians" ); near( Deg( ra ).value, v * 180 / pi, v * 60, "conversion to degrees" ); near( ra.degree().value, v * 180 / pi, v * 60, "degree()" ); near( de.radian().value, v * pi / 180, v, "radian()" ); near( ra.degree().radian().value, v, v, "round trip" ); near( ra.radian().value, v, v, "radian() of radians" ); near( de.degree().value, v, v, "degree() of degrees" );
		{ Rad x( 0. ); x = de; near( x.value, v * pi / 180, v, "assigned degrees" ); Rad o( a ); x = ra; x += o; near( x.value, v + a, v, "angle +=" ); x -= o; near( x.value, v, v + a, "angle -=" ); x *= 3.; near( x.value, 3 * v, v, "angle *=" ); x /= 2.; near( x.value, 1.5 * v, v, "angle /=" ); near( ( ra * 2. ).value, 2 * v, v, "angle *" ); near( ( ra / 4. ).value, v / 4, v, "angle /" ); near( ( 2. * ra ).value, 2 * v, v, "s * angle" ); near( ( -ra ).value, -v, v, "-angle" ); near( ( ra + o ).value, v + a, v, "angle +" ); near( ( ra - o ).value, v - a, v, "angle -" ); H::eq( ra < o, v < a, "<" ); H::eq( ra > o, v > a, ">" ); H::eq( ra <= o, v <= a, "<=" ); H::eq( ra >= o, v >= a, ">=" ); H::eq( ra == o, v == a, "==" ); H::eq( ra != o, v != a, "!=" ); near( sin( de ), std::sin( v * pi / 180 ), 1e3, "sin of degrees" ); near( cos( ra ), std::cos( v ), 1, "cos of radians" ); }
		H::eq( sign( v ), v >= 0 ? 1. : -1., "sign" ); near( squared( v ), v * v, v * v, "squared" ); near( cubed( v ), v * v * v, v * v * v, "cubed" ); near( signed_sqrt( v ), v >= 0 ? std::sqrt( v ) : -std::sqrt( -v ), v, "signed_sqrt" ); if ( std::fabs( v ) > 1e-4 ) { near( inv( v ), 1 / v, 1 / v, "inv" ); near( invsqrt( std::fabs( v ) ), 1 / std::sqrt( std::fabs( v ) ), 1 / std::fabs( v ), "invsqrt" ); }
		{ double x = v; double& y = set_if_smaller( x, a ); H::eq( x, std::min( v, a ), "set_if_smaller" ); H::check( &x == &y, "set_if_smaller returns its argument" ); x = v; double& z = set_if_bigger( x, a ); H::eq( x, std::max( v, a ), "set_if_bigger" ); H::check( &x == &z, "set_if_bigger returns its argument" ); }
		{ double ph = v - 2 * std::floor( v / 2 ); H::eq( square_wave( v ), ph < 1 ? 1. : -1., "square_wave" ); }
		{ H::eq( equals( v, v ), true, "equals itself" ); H::eq( equals( v, v + 1, 1e-9 ), false, "equals" ); }
		{ average_< double > av; H::check( av.empty(), "new average is empty" ); H::eq( av.get(), 0., "empty average" ); double tv = 0, tw = 0; std::string h = "average"; size_t n = 1 + r.below( 6 ); for ( size_t i = 0; i < n; ++i ) { double x = val( r ), w = r.below( 2 ) ? 1 : r.real( 0.01, 3 ); h += " " + num( x ) + "*" + num( w ); H::begin( h ); if ( w == 1 ) av.add( x ); else av.add( x, w ); tv += w * x; tw += w; near( av.get(), tv / tw, 1e3, "average" ); H::check( !av.empty(), "average is not empty" ); if ( r.below( 9 ) == 0 ) { h += " reset"; H::begin( h ); av.reset(); tv = tw = 0; H::check( av.empty() && av.get() == 0, "reset" ); } } }
		{ delta< double > d( v ); double prev = v; for ( int i = 0; i < 3; ++i ) { double x = val( r ); H::begin( "delta " + num( prev ) + " -> " + num( x ) ); near( d( x ), x - prev, prev, "difference to the previous value" ); prev = x; } }
	}
	return run.done();
}
