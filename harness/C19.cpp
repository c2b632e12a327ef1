// flags: -include map -include functional -include limits -include iomanip
#include "mathcommon.hpp"
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random vectors (several magnitudes, integers, zeros): every vec3/vec4 operator, products, lengths, normalisation, comparison and bounding boxes against componentwise formulas" );
	auto& r = run.r;
	while ( run.more() )
	{
		V a = vec( r ), b = vec( r ); double s = val( r ); if ( r.below( 5 ) == 0 ) b = a; if ( r.below( 9 ) == 0 ) b.z = a.z;
		H::begin( "a=" + show( a ) + " b=" + show( b ) + " s=" + num( s ) );
		double m = ( 1 + mag( a ) ) * ( 1 + mag( b ) ) * ( 1 + std::fabs( s ) );
		near( a + b, a.x + b.x, a.y + b.y, a.z + b.z, m, "a+b" ); near( a - b, a.x - b.x, a.y - b.y, a.z - b.z, m, "a-b" ); near( -a, 0 - a.x, 0 - a.y, 0 - a.z, m, "-a" );
		near( s * a, s * a.x, s * a.y, s * a.z, m, "s*a" ); near( a * s, s * a.x, s * a.y, s * a.z, m, "a*s" ); near( a * b, a.x * b.x, a.y * b.y, a.z * b.z, m, "a*b" );
		if ( std::fabs( s ) > 1e-6 ) { near( a / s, a.x / s, a.y / s, a.z / s, m / std::fabs( s ), "a/s" ); V t = a; V& u = t /= s; near( t, a.x / s, a.y / s, a.z / s, m / std::fabs( s ), "a/=s" ); H::check( &u == &t, "a/=s returns a" ); }
		{ V t = a; V& u = t += b; near( t, a.x + b.x, a.y + b.y, a.z + b.z, m, "a+=b" ); H::check( &u == &t, "a+=b returns a" ); }
		{ V t = a; V& u = t -= b; near( t, a.x - b.x, a.y - b.y, a.z - b.z, m, "a-=b" ); H::check( &u == &t, "a-=b returns a" ); }
		{ V t = a; V& u = t *= s; near( t, a.x * s, a.y * s, a.z * s, m, "a*=s" ); H::check( &u == &t, "a*=s returns a" ); }
		{ V t = a; V& u = t *= b; near( t, a.x * b.x, a.y * b.y, a.z * b.z, m, "a*=b" ); H::check( &u == &t, "a*=b returns a" ); }
		double d = a.x * b.x + a.y * b.y + a.z * b.z, n = a.x * a.x + a.y * a.y + a.z * a.z; V c = cross_product( a, b ); double mm = m * m;
		near( dot_product( a, b ), d, mm, "dot_product" ); near( c, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, mm, "cross_product" );
		near( squared_length( a ), n, mm, "squared_length" ); near( length( a ), std::sqrt( n ), m, "length" ); near( a.length(), std::sqrt( n ), m, "vec3::length" ); near( a.squared_length(), n, mm, "vec3::squared_length" );
		near( distance( a, b ), mag( V( a.x - b.x, a.y - b.y, a.z - b.z ) ), m, "distance" );
		bool e = a.x == b.x && a.y == b.y && a.z == b.z; H::eq( a == b, e, "==" ); H::eq( a != b, !e, "!=" ); H::eq( a.is_null(), a.x == 0 && a.y == 0 && a.z == 0, "is_null" );
		for ( int k = 0; k < 3; ++k ) { V t = a; ( k == 0 ? t.x : k == 1 ? t.y : t.z ) += 1; H::check( !( t == a ) && t != a && !( a == t ) && a != t, "vectors differing in one component are different" ); }
		{ V t = a; normalize( t ); V u = normalized( a ); double l = std::sqrt( n ); if ( l > 1e-12 ) { near( t, a.x / l, a.y / l, a.z / l, 1, "normalize" ); near( u, a.x / l, a.y / l, a.z / l, 1, "normalized" ); near( mag( u ), 1, 1, "length of normalized" ); near( a.normalized(), u, 1, "vec3::normalized" ); } else if ( l == 0 ) { near( t, a, 0, "normalize(0)" ); near( u, a, 0, "normalized(0)" ); } }
		H::check( V::zero() == V( 0, 0, 0 ) && V::unit_x() == V( 1, 0, 0 ) && V::unit_y() == V( 0, 1, 0 ) && V::unit_z() == V( 0, 0, 1 ) && V::neg_unit_x() == V( -1, 0, 0 ) && V::neg_unit_y() == V( 0, -1, 0 ) && V::neg_unit_z() == V( 0, 0, -1 ) && V::uniform( s ) == V( s, s, s ) && V::unit( 0 ) == V( 1, 0, 0 ) && V::unit( 1 ) == V( 0, 1, 0 ) && V::unit( 2 ) == V( 0, 0, 1 ) && V() == V( 0, 0, 0 ) && V( s ) == V( s, s, s ), "named vectors" );
		H::check( a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z, "element access" ); { V t; t.set( a.x, a.y, a.z ); H::check( t == a, "set" ); vec3_< float > f( float( a.x ), float( a.y ), float( a.z ) ); V g( f ), h; h = f; H::check( g == V( f.x, f.y, f.z ) && h == g, "conversion of the number type" ); }
		{ V p = vec3_from_polar( s, Rad( b.x ), Rad( b.y ) ); near( p, s * std::sin( b.x ) * std::sin( b.y ), s * std::cos( b.x ), s * std::sin( b.x ) * std::cos( b.y ), 1 + std::fabs( s ), "vec3_from_polar" ); near( mag( p ), std::fabs( s ), 1 + std::fabs( s ), "length of vec3_from_polar" ); }
		{ V t = a; t.clear(); H::check( t.x == 0 && t.y == 0 && t.z == 0, "clear" ); }
		{ W p( a.x, a.y, a.z, val( r ) ), q( b.x, b.y, b.z, val( r ) ); H::begin( "p=" + show( p ) + " q=" + show( q ) + " s=" + num( s ) ); double k = m * ( 1 + std::fabs( p.w ) ) * ( 1 + std::fabs( q.w ) );
			auto w4 = [&]( const W& g, double x, double y, double z, double w, const char* what ) { near( g.x, x, k, what + std::string( ".x" ) ); near( g.y, y, k, what + std::string( ".y" ) ); near( g.z, z, k, what + std::string( ".z" ) ); near( g.w, w, k, what + std::string( ".w" ) ); };
			H::check( p[ 0 ] == p.x && p[ 1 ] == p.y && p[ 2 ] == p.z && p[ 3 ] == p.w, "vec4 element access" ); w4( W::zero(), 0, 0, 0, 0, "vec4 zero" ); w4( W(), 0, 0, 0, 0, "vec4 default" ); w4( W::unit_x(), 1, 0, 0, 0, "unit_x" ); w4( W::unit_y(), 0, 1, 0, 0, "unit_y" ); w4( W::unit_z(), 0, 0, 1, 0, "unit_z" ); w4( W::unit_w(), 0, 0, 0, 1, "unit_w" ); { double n4 = p.x * p.x + p.y * p.y + p.z * p.z + p.w * p.w; near( p.squared_length(), n4, k * k, "vec4 squared_length" ); near( p.length(), std::sqrt( n4 ), k, "vec4 length" ); H::eq( p.is_null(), p.x == 0 && p.y == 0 && p.z == 0 && p.w == 0, "vec4 is_null" ); for ( int j = 0; j < 4; ++j ) { W u; u[ j ] = 1; H::check( !u.is_null(), "vec4 is_null of a unit vector" ); } }
			w4( p + q, p.x + q.x, p.y + q.y, p.z + q.z, p.w + q.w, "vec4 +" ); w4( p - q, p.x - q.x, p.y - q.y, p.z - q.z, p.w - q.w, "vec4 -" ); w4( -p, 0 - p.x, 0 - p.y, 0 - p.z, 0 - p.w, "vec4 unary -" );
			w4( s * p, s * p.x, s * p.y, s * p.z, s * p.w, "s*vec4" ); w4( p * s, s * p.x, s * p.y, s * p.z, s * p.w, "vec4*s" ); if ( std::fabs( s ) > 1e-2 ) { w4( p / s, p.x / s, p.y / s, p.z / s, p.w / s, "vec4/s" ); W t = p; t /= s; w4( t, p.x / s, p.y / s, p.z / s, p.w / s, "vec4/=s" ); }
			W t = p; t += q; w4( t, p.x + q.x, p.y + q.y, p.z + q.z, p.w + q.w, "vec4 +=" ); t = p; t -= q; w4( t, p.x - q.x, p.y - q.y, p.z - q.z, p.w - q.w, "vec4 -=" ); t = p; t *= s; w4( t, p.x * s, p.y * s, p.z * s, p.w * s, "vec4 *=" ); }
		{ bounding_box_<double> b1( a ), b2( a, b ); near( b1.lower_bounds, a, 0, "box of a point" ); near( b1.upper_bounds, a, 0, "box of a point" ); near( b2.lower_bounds, a, 0, "lower corner" ); near( b2.upper_bounds, b, 0, "upper corner" ); bounding_box_<double> e; e += a; near( e.lower_bounds, a, 0, "empty box extended by a point" ); near( e.upper_bounds, a, 0, "empty box extended by a point" ); }
		{ bounding_box_<double> box( a, a ); V lo = a, hi = a; std::string h = "box " + show( a ); for ( size_t k = r.below( 5 ); k > 0; --k ) { V p = vec( r ), q = p; bool two = r.below( 2 ); if ( two ) { V x = vec( r ); p = V( std::min( q.x, x.x ), std::min( q.y, x.y ), std::min( q.z, x.z ) ); q = V( std::max( q.x, x.x ), std::max( q.y, x.y ), std::max( q.z, x.z ) ); h += " += [" + show( p ) + show( q ) + "]"; } else h += " += " + show( p );
			H::begin( h ); if ( two ) box += bounding_box_<double>( p, q ); else box += p; lo = V( std::min( lo.x, p.x ), std::min( lo.y, p.y ), std::min( lo.z, p.z ) ); hi = V( std::max( hi.x, q.x ), std::max( hi.y, q.y ), std::max( hi.z, q.z ) ); near( box.lower_bounds, lo, 0, "lower bounds" ); near( box.upper_bounds, hi, 0, "upper bounds" ); } }
	}
	return run.done();
}
