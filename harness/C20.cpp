// flags: -include map -include functional -include limits -include iomanip
#include "mathcommon.hpp"
static double dot( const V& a, const V& b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// Rodrigues' formula: rotation of v about the unit axis k
static V rodrigues( const V& k, double ang, const V& v ) { double c = std::cos( ang ), s = std::sin( ang ), d = dot( k, v ) * ( 1 - c ); return V( c * v.x + s * ( k.y * v.z - k.z * v.y ) + d * k.x, c * v.y + s * ( k.z * v.x - k.x * v.z ) + d * k.y, c * v.z + s * ( k.x * v.y - k.y * v.x ) + d * k.z ); }
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random unit quaternions, axes, angles and points: lengths, angles and handedness preserved, composition, inverses, axis-angle, Euler angles in all six orders, direction pairs (including opposite), transforms" );
	auto& r = run.r;
	while ( run.more() )
	{
		Qt p = uq( r ), q = uq( r ); V v = vec( r ), u = vec( r ); double m = ( 1 + mag( u ) ) * ( 1 + mag( v ) );
		H::begin( "p=" + show( p ) + " q=" + show( q ) + " v=" + show( v ) + " u=" + show( u ) );
		V qv = q * v, qu = q * u; near( mag( qv ), mag( v ), m, "length of the rotated vector" ); near( dot( qv, qu ), dot( v, u ), m, "dot product of rotated vectors" ); near( cross_product( qv, qu ), q * cross_product( v, u ), m, "cross product of rotated vectors" );
		near( ( p * q ) * v, p * qv, m, "composition" ); near( -q * qv, v, m, "inverse" ); near( q * ( -q * v ), v, m, "inverse" ); near( length( p * q ), 1, 1, "length of the product" ); near( length( q ), 1, 1, "length" );
		{ Qt o = quat_from_quats( p, q ); near( p * ( o * v ), qv, m, "quat_from_quats" ); }
		{ double f = r.real( 0.1, 10 ); Qt s( q.w * f, q.x * f, q.y * f, q.z * f ), n = normalized( s ); near( n.w, q.w, 1, "normalized w" ); near( n.x, q.x, 1, "normalized x" ); near( n.y, q.y, 1, "normalized y" ); near( n.z, q.z, 1, "normalized z" ); Qt t = s; normalize( t ); near( t.w, q.w, 1, "normalize w" ); near( t.z, q.z, 1, "normalize z" ); }
		V k = vec( r ); double kl = mag( k ), ang = r.below( 6 ) ? r.real( -7, 7 ) : ( double( r.below( 9 ) ) - 4 ) * 1.5707963267948966;
		if ( kl > 1e-2 ) { k = V( k.x / kl, k.y / kl, k.z / kl ); H::begin( "axis=" + show( k ) + " angle=" + num( ang ) + " v=" + show( v ) );
			bool thrown = false; Qt a( 1, 0, 0, 0 ); try { a = quat_from_axis_angle( k, Rad( ang ) ); } catch ( std::exception& ) { thrown = true; }
			if ( !thrown ) { near( a * v, rodrigues( k, ang, v ), m, "rotation about an axis" ); near( a * k, k, 1, "the axis is fixed" );
				auto aa = axis_angle_from_quat( a ); near( rodrigues( aa.first, aa.second.value, v ), rodrigues( k, ang, v ), 100 * m, "axis_angle_from_quat" ); near( mag( aa.first ), 1, 1, "axis length" );
				V rv = rotation_vector_from_quat( a ); double l = mag( rv ); if ( l > 1e-7 ) near( rodrigues( V( rv.x / l, rv.y / l, rv.z / l ), l, v ), rodrigues( k, ang, v ), 100 * m, "rotation vector" ); }
			thrown = false; try { quat_from_axis_angle( V( 2 * k.x, 2 * k.y, 2 * k.z ), Rad( ang ) ); } catch ( std::exception& ) { thrown = true; } H::check( thrown, "an axis that is not normalised is rejected" ); }
		{ double e[ 3 ] = { ang, r.real( -4, 4 ), r.real( -4, 4 ) }; static const char* orders[] = { "xyz", "xzy", "yxz", "yzx", "zxy", "zyx" }; static const euler_order eo[] = { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx };
			int o = int( r.below( 6 ) ); H::begin( std::string( "euler " ) + orders[ o ] + " " + num( e[ 0 ] ) + " " + num( e[ 1 ] ) + " " + num( e[ 2 ] ) + " v=" + show( v ) ); Qt a = quat_from_euler( Rad( e[ 0 ] ), Rad( e[ 1 ] ), Rad( e[ 2 ] ), eo[ o ] ); V w = v;
			for ( int i = 2; i >= 0; --i ) { int ax = orders[ o ][ i ] - 'x'; w = rodrigues( V( ax == 0, ax == 1, ax == 2 ), e[ ax ], w ); } near( a * v, w, m, "Euler angles" ); near( length( a ), 1, 1, "length of the quaternion" ); }
		{ double sl = mag( v ), tl = mag( u ); V t = u; bool opp = r.below( 4 ) == 0; if ( opp ) { double f = -r.real( 0.5, 3 ); t = V( f * v.x, f * v.y, f * v.z ); if ( r.below( 3 ) == 0 ) { v = V( r.below( 3 ) == 0, r.below( 3 ) == 1, 0 ); if ( mag( v ) == 0 ) v.z = 1; t = V( -v.x, -v.y, -v.z ); } sl = mag( v ); tl = mag( t ); }
			if ( sl > 1e-2 && tl > 1e-2 ) { H::begin( "directions " + show( v ) + " " + show( t ) ); Qt d = quat_from_directions( v, t ); V w = d * v; double tol = 1e-6; H::check( std::fabs( w.x / sl - t.x / tl ) < tol && std::fabs( w.y / sl - t.y / tl ) < tol && std::fabs( w.z / sl - t.z / tl ) < tol, "the first direction is turned into the second" ); near( length( d ), 1, 100, "length of the quaternion from directions" ); } }
		{ Tr a( vec( r ), p ), b( vec( r ), q ); double k2 = 100 * m * ( 1 + mag( a.p ) ) * ( 1 + mag( b.p ) ); H::begin( "transform p=" + show( a.p ) + show( a.q ) + " o=" + show( b.p ) + show( b.q ) + " v=" + show( v ) );
			V av = p * v; near( a * v, a.p.x + av.x, a.p.y + av.y, a.p.z + av.z, k2, "transform of a point" ); near( a.transform( v ), a * v, k2, "transform" ); near( a.inv_transform( a * v ), v, k2, "inv_transform undoes transform" ); near( a * a.inv_transform( v ), v, k2, "transform undoes inv_transform" );
			near( a.inverse() * ( a * v ), v, k2, "inverse" ); near( -a * ( a * v ), v, k2, "unary minus is the inverse" ); near( ( a * b ) * v, a * ( b * v ), k2, "composition" ); near( a.transform( b ) * v, a * ( b * v ), k2, "composition (transform)" ); near( a.inv_transform( b ) * v, a.inverse() * ( b * v ), k2, "inv_transform of a transform" );
			near( ( a * q ) * v, p * ( q * v ), k2, "transform of a rotation" ); near( a.transform( q ) * v, p * ( q * v ), k2, "transform of a rotation" ); near( a.inv_transform( q ) * v, -p * ( q * v ), k2, "inverse transform of a rotation" ); near( Tr::identity() * v, v, k2, "identity" ); }
	}
	return run.done();
}
