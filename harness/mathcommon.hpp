#include <algorithm>
#include <numeric>
#include <cmath>
#include "flut/math/math.hpp"
#include "flut/char_stream.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/average.hpp"
#include "flut/math/delta.hpp"
#include "common.hpp"
using namespace flut;
using namespace flut::math;
typedef vec3_<double> V; typedef vec4_<double> W; typedef quat_<double> Qt; typedef transform_<double> Tr; typedef radian_<double> Rad; typedef degree_<double> Deg;
inline std::string num( double d ) { char b[ 40 ]; snprintf( b, 40, "%.17g", d ); return b; }
inline std::string show( double d ) { return num( d ); }
inline std::string show( const V& v ) { return "(" + num( v.x ) + "," + num( v.y ) + "," + num( v.z ) + ")"; }
inline std::string show( const W& v ) { return "(" + num( v.x ) + "," + num( v.y ) + "," + num( v.z ) + "," + num( v.w ) + ")"; }
inline std::string show( const Qt& v ) { return "(" + num( v.w ) + ";" + num( v.x ) + "," + num( v.y ) + "," + num( v.z ) + ")"; }
// numbers from several magnitudes, small integers, zero
inline double val( H::Rng& r ) { switch ( r.below( 8 ) ) { case 0: return double( int( r.below( 7 ) ) - 3 ); case 1: return 0; case 2: return r.real( -1e-3, 1e-3 ); case 3: return r.real( -1e3, 1e3 ); case 4: return -0.5 * double( r.below( 10 ) ); default: return r.real( -4, 4 ); } }
inline V vec( H::Rng& r ) { return V( val( r ), val( r ), val( r ) ); }
inline Qt uq( H::Rng& r ) { if ( r.below( 8 ) == 0 ) { double s = r.below( 2 ) ? 1 : -1; switch ( r.below( 4 ) ) { case 0: return Qt( s, 0, 0, 0 ); case 1: return Qt( 0, s, 0, 0 ); case 2: return Qt( 0, 0, s, 0 ); default: return Qt( 0, 0, 0, s ); } } for ( ;; ) { double w = r.real( -1, 1 ), x = r.real( -1, 1 ), y = r.real( -1, 1 ), z = r.real( -1, 1 ), n = std::sqrt( w * w + x * x + y * y + z * z ); if ( n > 0.1 && n <= 1 ) return Qt( w / n, x / n, y / n, z / n ); } }
inline void near( double got, double want, double scale, const std::string& what ) { if ( !( std::fabs( got - want ) <= 1e-9 * ( 1 + std::fabs( scale ) ) ) ) H::fail( what + ": got " + num( got ) + ", expected " + num( want ) ); }
inline void near( const V& g, double x, double y, double z, double scale, const std::string& what ) { near( g.x, x, scale, what + " .x" ); near( g.y, y, scale, what + " .y" ); near( g.z, z, scale, what + " .z" ); }
inline void near( const V& g, const V& w, double scale, const std::string& what ) { near( g, w.x, w.y, w.z, scale, what ); }
inline double mag( const V& v ) { return std::sqrt( v.x * v.x + v.y * v.y + v.z * v.z ); }
