# third batch of behaviour-preserving edits (see tryref.py)
Q, V3, V4 = 'flut/math/quat.hpp', 'flut/math/vec3.hpp', 'flut/math/vec4.hpp'
DEFS3 = [
 ('R69', ['C32'], {Q: [('''				size_t i = 0;
				if ( m[1][1] > m[0][0] ) i = 1;
				if ( m[2][2] > m[i][i] ) i = 2;
				size_t j = ( i + 1 ) % 3;
				size_t k = ( j + 1 ) % 3;
				T root = sqrt( m[i][i] - m[j][j] - m[k][k] + T( 1 ) );
				T* q_xyz = &q.x;
				q_xyz[i] = T( 0.5 ) * root;
				root = T( 0.5 ) / root;
				q.w = ( m[k][j] - m[j][k] ) * root;
				q_xyz[j] = ( m[j][i] + m[i][j] ) * root;
				q_xyz[k] = ( m[k][i] + m[i][k] ) * root;
''', '''				if ( m.e11 <= m.e00 && m.e22 <= m.e00 )
				{
					const T root = sqrt( m.e00 - m.e11 - m.e22 + T( 1 ) );
					const T f = T( 0.5 ) / root;
					q.set( ( m.e21 - m.e12 ) * f, T( 0.5 ) * root, ( m.e10 + m.e01 ) * f, ( m.e20 + m.e02 ) * f );
				}
				else if ( m.e22 <= m.e11 )
				{
					const T root = sqrt( m.e11 - m.e22 - m.e00 + T( 1 ) );
					const T f = T( 0.5 ) / root;
					q.set( ( m.e02 - m.e20 ) * f, ( m.e01 + m.e10 ) * f, T( 0.5 ) * root, ( m.e21 + m.e12 ) * f );
				}
				else
				{
					const T root = sqrt( m.e22 - m.e00 - m.e11 + T( 1 ) );
					const T f = T( 0.5 ) / root;
					q.set( ( m.e10 - m.e01 ) * f, ( m.e02 + m.e20 ) * f, ( m.e12 + m.e21 ) * f, T( 0.5 ) * root );
				}
''')]}),
 ('R70', ['C32'], {Q: [('''			T tx = T(2) * q.x, tz = T(2) * q.z;
			T twx = tx * q.w, txx = tx * q.x, tyz = tz * q.y, tzz = tz * q.z;
			return radian_< T >( atan2( tyz + twx, T(1) - ( txx + tzz ) ) );
''', '''			const vec3_<T> y = q * vec3_<T>::unit_y();
			return radian_< T >( atan2( y.z, y.y ) );
'''), ('''				T s = T(1) / l;
				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
''', '''				const T s = inv( l );
				const vec3_<T> axis = s * vec3_<T>( q.x, q.y, q.z );
				const T angle = T(2) * std::acos( q.w );
				return std::pair< vec3_<T>, radian_<T> >{ axis, radian_<T>( angle ) };
'''), ('''				T f = T(2) * std::acos( q.w ) / l;
				return vec3_<T>( f * q.x, f * q.y, f * q.z );
			}
			else return vec3_<T>::zero();
''', '''				const vec3_<T> axis( q.x / l, q.y / l, q.z / l );
				return axis * ( T(2) * std::acos( q.w ) );
			}
			return vec3_<T>();
''')]}),
 ('R71', ['C32', 'C20'], {Q: [('''			T t = m.e00 + m.e11 + m.e22;
			if ( t > 0.0 )
			{
				T root = sqrt( t + T( 1 ) );
				q.w = T( 0.5 ) * root;
				root = T( 0.5 ) / root;
				q.x = ( m.e21 - m.e12 ) * root;
				q.y = ( m[0][2] - m[2][0] ) * root;
				q.z = ( m[1][0] - m[0][1] ) * root;
			}
			else
			{
''', '''			const T t = m.e00 + m.e11 + m.e22;
			if ( t > T( 0 ) )
			{
				const T s = T( 2 ) * sqrt( t + T( 1 ) );
				q.w = s / T( 4 );
				q.x = ( m.e21 - m.e12 ) / s;
				q.y = ( m.e02 - m.e20 ) / s;
				q.z = ( m.e10 - m.e01 ) / s;
				return q;
			}
			{
'''), ('''			T l = sqrt( q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w );
			if ( l > constants<T>::epsilon() )
			{ T invl = inv( l ); q.w *= invl; q.x *= invl; q.y *= invl; q.z *= invl; }
			return q;
''', '''			normalize( q );
			return q;
''')]}),
 ('R72', ['C19'], {V3: [('''{ return vec3_<T>( radius * sin( inclination ) * sin( azimuth ) , radius * cos( inclination ), radius * sin( inclination ) * cos( azimuth ) ); }''', '''{
			const T s = radius * sin( inclination );
			return vec3_<T>( s * sin( azimuth ), radius * cos( inclination ), s * cos( azimuth ) );
		}''')], 'flut/math/vec3_type.hpp': [('''static vec3_<T> unit( index_t idx ) { return vec3_<T>( T( idx == 0 ), T( idx == 1 ), T( idx == 2 ) ); }''', '''static vec3_<T> unit( index_t idx ) { vec3_<T> v; if ( idx == 0 ) v.x = T(1); else if ( idx == 1 ) v.y = T(1); else if ( idx == 2 ) v.z = T(1); return v; }''')], 'flut/math/bounding_box.hpp': [('''				set_if_smaller( lower_bounds.x, v.x );
				set_if_smaller( lower_bounds.y, v.y );
				set_if_smaller( lower_bounds.z, v.z );
				set_if_bigger( upper_bounds.x, v.x );
				set_if_bigger( upper_bounds.y, v.y );
				set_if_bigger( upper_bounds.z, v.z );
				return *this;
''', '''				for ( index_t i = 0; i < 3; ++i ) {
					set_if_smaller( lower_bounds[ i ], v[ i ] );
					set_if_bigger( upper_bounds[ i ], v[ i ] );
				}
				return *this;
''')]}),
 ('R73', ['C21'], {'flut/math/angle.hpp': [('''angle_<U, T> operator*( const TS& s, const angle_<U, T>& a ) { return angle_<U, T>( T(s) * a.value ); }''', '''angle_<U, T> operator*( const TS& s, const angle_<U, T>& a ) { return a * s; }'''),
   ('''{ value = angle_converter<U2, U>::convert( T( a.value ) ); return *this; }''', '''{ const angle_<U, T> o( a ); value = o.value; return *this; }''')]}),
]
