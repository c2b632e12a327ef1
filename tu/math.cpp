// verified text: math headers of /repo, included verbatim and instantiated
#include <algorithm>
#include <numeric>
#include <vector>
#include <string>
#include <iostream>
#include <cmath>
#include "flut/math/math.hpp"
#include "flut/char_stream.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/average.hpp"
#include "flut/math/delta.hpp"
namespace flut
{
	template class bounds<double>;
	template bounds<double>::bounds( const double&, const double& );
	template bounds<double>::bounds( const double& );
	template struct delta<double>;
	template struct constants<double>;
	namespace math
	{
#define R double
		typedef vec3_<R> V;
		typedef vec4_<R> W;
		typedef quat_<R> Qt;
		template struct vec3_<R>;
		template struct vec4_<R>;
		template struct quat_<R>;
		template struct transform_<R>;
		template struct bounding_box_<R>;
		template struct average_<R>;
		template V operator+( const V&, const V& );
		template V& operator+=( V&, const V& );
		template V operator-( const V&, const V& );
		template V& operator-=( V&, const V& );
		template V operator-( V );
		template V operator*( R, V );
		template V operator*( V, R );
		template V& operator*=( V&, R );
		template V operator/( V, R );
		template V& operator/=( V&, R );
		template V operator*( const V&, const V& );
		template V& operator*=( V&, const V& );
		template R length( V );
		template R squared_length( V );
		template R is_normalized( V );
		template R distance( const V&, const V& );
		template bool operator==( const V&, const V& );
		template bool operator!=( const V&, const V& );
		template void normalize( V& );
		template V normalized( V );
		template R dot_product( const V&, const V& );
		template V cross_product( const V&, const V& );
		template V vec3_from_polar( R, angle_<angle_unit::radians, R>, angle_<angle_unit::radians, R> );
		template W operator+( const W&, const W& );
		template W& operator+=( W&, const W& );
		template W operator-( const W&, const W& );
		template W& operator-=( W&, const W& );
		template W operator-( W );
		template W operator*( R, W );
		template W operator*( W, R );
		template W& operator*=( W&, R );
		template W operator/( W, R );
		template W& operator/=( W&, R );
		template Qt operator*( const Qt&, const Qt& );
		template V operator*( const Qt&, const V& );
		template Qt operator-( Qt );
		template R length( Qt );
		template bool is_normalized( Qt );
		template Qt& normalize( Qt& );
		template Qt normalized( Qt );
		template Qt quat_from_quats( const Qt&, const Qt& );
		template Qt quat_from_axis_angle( const V&, angle_<angle_unit::radians, R> );
		template Qt quat_from_euler( angle_<angle_unit::radians, R>, angle_<angle_unit::radians, R>, angle_<angle_unit::radians, R>, euler_order );
		template Qt quat_from_directions( const V&, const V& );
		template vec3_<R> rotation_vector_from_quat( const Qt& );
		template radian_<R> pitch( const Qt& );
		template radian_<R> yaw( const Qt& );
		template radian_<R> roll( const Qt& );
		template vec3_< radian_<R> > euler_from_quat( const Qt& );
		template Qt quat_from_euler( const vec3_< angle_<angle_unit::radians, R> >&, euler_order );
		template mat33_<R> mat33_from_axes( const V&, const V&, const V& );
		template Qt quat_from_axes( const V&, const V&, const V& );
		template vec3_<R>::vec3_( const vec3_<float>& );
		template vec3_<R>& vec3_<R>::operator=( const vec3_<float>& );
		template void vec3_<R>::set( R, R, R );
		template quat_<R>::quat_( const quat_<float>& );
		template quat_<R>& quat_<R>::operator=( const quat_<float>& );
		template void quat_<R>::set( R, R, R, R );
		template angle_<angle_unit::radians, R> operator*( const R&, const angle_<angle_unit::radians, R>& );
		template angle_<angle_unit::degrees, R> operator*( const R&, const angle_<angle_unit::degrees, R>& );
		template angle_<angle_unit::radians, R> operator/( const R&, const angle_<angle_unit::radians, R>& );
		template angle_<angle_unit::degrees, R> operator/( const R&, const angle_<angle_unit::degrees, R>& );
		template angle_<angle_unit::radians, R>& angle_<angle_unit::radians, R>::operator=( const angle_<angle_unit::degrees, R>& );
		template angle_<angle_unit::degrees, R>& angle_<angle_unit::degrees, R>::operator=( const angle_<angle_unit::radians, R>& );
		template auto operator+( const angle_<angle_unit::radians, R>&, const angle_<angle_unit::radians, R>& ) -> angle_<angle_unit::radians, R>;
		template auto operator-( const angle_<angle_unit::radians, R>&, const angle_<angle_unit::radians, R>& ) -> angle_<angle_unit::radians, R>;
		template auto operator+( const angle_<angle_unit::degrees, R>&, const angle_<angle_unit::degrees, R>& ) -> angle_<angle_unit::degrees, R>;
		template auto operator-( const angle_<angle_unit::degrees, R>&, const angle_<angle_unit::degrees, R>& ) -> angle_<angle_unit::degrees, R>;
		template R sin( const angle_<angle_unit::radians, R>& );
		template R cos( const angle_<angle_unit::radians, R>& );
		template R tan( const angle_<angle_unit::radians, R>& );
		template R sin( const angle_<angle_unit::degrees, R>& );
		template R cos( const angle_<angle_unit::degrees, R>& );
		template R tan( const angle_<angle_unit::degrees, R>& );
		template angle_<angle_unit::radians, R> rad( R );
		template angle_<angle_unit::degrees, R> deg( R );
		template std::pair< V, radian_<R> > axis_angle_from_quat( const Qt& );
		template struct angle_<angle_unit::radians, R>;
		template struct angle_<angle_unit::degrees, R>;
		template angle_<angle_unit::radians, R>::angle_( const angle_<angle_unit::degrees, R>& );
		template angle_<angle_unit::degrees, R>::angle_( const angle_<angle_unit::radians, R>& );
		template angle_<angle_unit::radians, R>& angle_<angle_unit::radians, R>::operator*=( const R& );
		template angle_<angle_unit::radians, R> angle_<angle_unit::radians, R>::operator*( const R& ) const;
		template angle_<angle_unit::radians, R>& angle_<angle_unit::radians, R>::operator/=( const R& );
		template angle_<angle_unit::radians, R> angle_<angle_unit::radians, R>::operator/( const R& ) const;
		template angle_<angle_unit::degrees, R>& angle_<angle_unit::degrees, R>::operator*=( const R& );
		template angle_<angle_unit::degrees, R> angle_<angle_unit::degrees, R>::operator*( const R& ) const;
		template angle_<angle_unit::degrees, R>& angle_<angle_unit::degrees, R>::operator/=( const R& );
		template angle_<angle_unit::degrees, R> angle_<angle_unit::degrees, R>::operator/( const R& ) const;
		template R rad_to_deg( R );
		template R deg_to_rad( R );
		template bool equals( R, R, R );
		template R inv( R );
		template R invsqrt( R );
		template R signed_sqrt( R );
		template R squared( R );
		template R cubed( R );
		template R sign( R );
		template R& set_if_smaller( R&, const R& );
		template R& set_if_bigger( R&, const R& );
		template bool is_power_of_two( unsigned );
		template bool is_even( int );
		template bool is_odd( int );
		template R& clamp( R&, const R&, const R& );
		template R clamped( R, const R&, const R& );
		template R limit_transfer( R, R );
		template R& soft_clamp( R&, const R&, const R&, const R& );
		template R soft_clamped( R, const R&, const R&, const R& );
		template R& wrap( R&, const R&, const R& );
		template R wrapped( R, const R&, const R& );
		template bool is_between( R, R, R );
		template R square_wave( R );
		template int& clamp( int&, const int&, const int& );
	}
}
