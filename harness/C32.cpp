// flags: -include map -include functional -include limits -include iomanip
#include "mathcommon.hpp"
static void nearq( const Qt& a, const Qt& b, double sc, const std::string& what ) { near( a.w, b.w, sc, what + " w" ); near( a.x, b.x, sc, what + " x" ); near( a.y, b.y, sc, what + " y" ); near( a.z, b.z, sc, what + " z" ); }
// image of the unit axis k under the rotation q (rotation matrix columns)
static V col( const Qt& q, int k ) { if ( k == 0 ) return V( 1 - 2 * ( q.y * q.y + q.z * q.z ), 2 * ( q.x * q.y + q.w * q.z ), 2 * ( q.x * q.z - q.w * q.y ) ); if ( k == 1 ) return V( 2 * ( q.x * q.y - q.w * q.z ), 1 - 2 * ( q.x * q.x + q.z * q.z ), 2 * ( q.y * q.z + q.w * q.x ) ); return V( 2 * ( q.x * q.z + q.w * q.y ), 2 * ( q.y * q.z - q.w * q.x ), 1 - 2 * ( q.x * q.x + q.y * q.y ) ); }
static double angdiff( double a, double b ) { double d = std::fmod( std::fabs( a - b ), 2 * 3.14159265358979323846 ); return std::min( d, 2 * 3.14159265358979323846 - d ); }
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random unit quaternions (including half turns about every axis and near them): conversion to and from axis frames, axis and angle, rotation vectors, Euler angle vectors, pitch, yaw and roll; matrices from columns; named constants and assignments" );
	auto& r = run.r; const double pi = 3.14159265358979323846;
	while ( run.more() )
	{
		Qt q = uq( r ); if ( r.below( 4 ) == 0 ) { double h = r.real( -1e-3, 1e-3 ), n; int k = int( r.below( 3 ) ); Qt t( h, k == 0, k == 1, k == 2 ); if ( r.below( 2 ) ) { t.x += r.real( -0.1, 0.1 ); t.y += r.real( -0.1, 0.1 ); t.z += r.real( -0.1, 0.1 ); } n = std::sqrt( t.w * t.w + t.x * t.x + t.y * t.y + t.z * t.z ); q = Qt( t.w / n, t.x / n, t.y / n, t.z / n ); }
		V x = col( q, 0 ), y = col( q, 1 ), z = col( q, 2 );
		H::begin( "q=" + show( q ) );
		{ Qt f = quat_from_axes( x, y, z ); near( f.w * f.w + f.x * f.x + f.y * f.y + f.z * f.z, 1, 100, "length of the quaternion from axes" ); near( f * V( 1, 0, 0 ), x, 100, "x axis of the frame" ); near( f * V( 0, 1, 0 ), y, 100, "y axis of the frame" ); near( f * V( 0, 0, 1 ), z, 100, "z axis of the frame" ); }
		{ V a = vec( r ), b = vec( r ), c = vec( r ); H::begin( "columns " + show( a ) + show( b ) + show( c ) ); auto m = mat33_from_axes( a, b, c ); const V* cs[] = { &a, &b, &c }; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) H::eq( m[ i ][ j ], ( *cs[ j ] )[ i ], "entry of the matrix from columns" ); }
		H::begin( "q=" + show( q ) );
		{ auto chk = [&]( double got, double s, double c, const char* what ) { if ( s * s + c * c > 1e-10 ) H::check( angdiff( got, std::atan2( s, c ) ) < 1e-5 && got <= pi + 1e-9 && got >= -pi - 1e-9, std::string( what ) + ": got " + num( got ) + ", expected " + num( std::atan2( s, c ) ) ); };
			chk( pitch( q ).value, y.z, y.y, "pitch" ); chk( yaw( q ).value, z.x, z.z, "yaw" ); chk( roll( q ).value, x.y, x.x, "roll" ); auto e = euler_from_quat( q ); chk( e.x.value, y.z, y.y, "euler x" ); chk( e.y.value, z.x, z.z, "euler y" ); chk( e.z.value, x.y, x.x, "euler z" ); }
		{ double a = r.real( -3.1, 3.1 ); int k = int( r.below( 3 ) ); Qt s( std::cos( a / 2 ), k == 0 ? std::sin( a / 2 ) : 0, k == 1 ? std::sin( a / 2 ) : 0, k == 2 ? std::sin( a / 2 ) : 0 ); H::begin( "turn by " + num( a ) + " about axis " + std::to_string( k ) ); near( ( k == 0 ? pitch( s ) : k == 1 ? yaw( s ) : roll( s ) ).value, a, 1e3, "angle of a turn about one axis" ); }
		H::begin( "q=" + show( q ) );
		if ( std::fabs( q.w ) < 1 - 1e-6 ) { auto aa = axis_angle_from_quat( q ); double h = aa.second.value / 2; nearq( Qt( std::cos( h ), std::sin( h ) * aa.first.x, std::sin( h ) * aa.first.y, std::sin( h ) * aa.first.z ), q, 1e4, "quaternion of its axis and angle" ); try { nearq( quat_from_axis_angle( aa.first, aa.second ), q, 1e4, "round trip through axis and angle" ); } catch ( std::exception& ) {}
			V rv = rotation_vector_from_quat( q ); double l = mag( rv ); near( l, aa.second.value, 1e3, "length of the rotation vector" ); near( rv, V( aa.first.x * l, aa.first.y * l, aa.first.z * l ), 1e3, "direction of the rotation vector" ); }
		{ auto aa = axis_angle_from_quat( Qt( 1, 0, 0, 0 ) ); near( aa.first, 1, 0, 0, 0, "axis of the identity" ); H::eq( aa.second.value, 0., "angle of the identity" ); near( rotation_vector_from_quat( Qt( 1, 0, 0, 0 ) ), 0, 0, 0, 0, "rotation vector of the identity" ); }
		{ static const euler_order eo[] = { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx }; double e[ 3 ] = { r.real( -4, 4 ), r.real( -4, 4 ), r.real( -4, 4 ) }; int o = int( r.below( 6 ) ); H::begin( "euler vector " + num( e[ 0 ] ) + " " + num( e[ 1 ] ) + " " + num( e[ 2 ] ) + " order " + std::to_string( o ) ); Rad e0( e[ 0 ] ), e1( e[ 1 ] ), e2( e[ 2 ] ); vec3_< Rad > ev( e0, e1, e2 ); nearq( quat_from_euler( ev, eo[ o ] ), quat_from_euler( Rad( e[ 0 ] ), Rad( e[ 1 ] ), Rad( e[ 2 ] ), eo[ o ] ), 1, "quaternion from a vector of Euler angles" ); }
		{ Qt i = Qt::identity(), d; H::check( i.w == 1 && i.x == 0 && i.y == 0 && i.z == 0 && d.w == 1 && d.x == 0 && d.y == 0 && d.z == 0, "identity" ); Qt s; s.set( q.w, q.x, q.y, q.z ); nearq( s, q, 0, "set" ); quat_< float > f( 1.5f, -2.f, 3.f, 0.25f ); Qt c( f ), g; g = f; H::check( c.w == 1.5 && c.x == -2 && c.y == 3 && c.z == 0.25 && g.w == 1.5 && g.x == -2 && g.y == 3 && g.z == 0.25, "conversion of the number type" ); }
	}
	return run.done();
}
