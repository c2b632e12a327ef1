# second batch of behaviour-preserving edits (see tryref.py)
ST, SH, CS, CH, PC = 'flut/string_tools.cpp', 'flut/string_tools.hpp', 'flut/char_stream.cpp', 'flut/char_stream.hpp', 'flut/system/path.cpp'
DEFS2 = [
 # strings
 ('R28', ['C05'], {ST: [('''		size_t ofs = s.find_first_not_of( sep_chars.c_str(), 0 );
		while ( ofs != string::npos ) {
			size_t ofsend = s.find_first_of( sep_chars.c_str(), ofs );
			strings.push_back( s.substr( ofs, ofsend - ofs ) );
			ofs = s.find_first_not_of( sep_chars.c_str(), ofsend );
		}
		return strings;''', '''		size_t ofsend = 0;
		while ( true ) {
			const size_t ofs = s.find_first_not_of( sep_chars.c_str(), ofsend );
			if ( ofs == string::npos ) break;
			ofsend = s.find_first_of( sep_chars.c_str(), ofs );
			const size_t len = ( ofsend == string::npos ? s.size() : ofsend ) - ofs;
			strings.push_back( s.substr( ofs, len ) );
			if ( ofsend == string::npos ) break;
		}
		return strings;''')]}),
 ('R29', ['C06'], {SH: [('''{ if ( n >= 0 ) return str.substr( 0, size_t( n ) ); else return str.substr( 0, size_t( std::max( 0, int(str.size()) + n ) ) ); }''',
   '''{
		if ( n < 0 )
		{
			const int len = int( str.size() ) + n;
			return len > 0 ? str.substr( 0, size_t( len ) ) : string();
		}
		return str.substr( 0, size_t( n ) );
	}'''), ('''{ if ( n >= 0 ) return str.substr( str.size() - std::min( str.size(), size_t( n ) ), string::npos ); else return str.substr( std::min( str.size(), size_t( -n ) ), string::npos ); }''',
   '''{
		const size_t count = n >= 0 ? str.size() - std::min( str.size(), size_t( n ) ) : std::min( str.size(), size_t( -n ) );
		return str.substr( count );
	}'''), ('''{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.compare( s1 - s2, s2, substr ) == 0 ); }''',
   '''{ if ( substr.size() > str.size() ) return false; return str.compare( str.size() - substr.size(), substr.size(), substr ) == 0; }'''),
   ('''{ return str.find( substr ) == 0; }''', '''{ return str.compare( 0, substr.size(), substr ) == 0; }''')]}),
 ('R30', ['C06'], {ST: [('''		auto right = s.find_last_not_of( space_chars );
		return s.substr( 0, 1 + right );''', '''		const auto right = s.find_last_not_of( space_chars );
		if ( right == string::npos )
			return string();
		return s.substr( 0, right + 1 );'''), ('''		return s.substr( 0, s.find_first_of( sep_chars.c_str() ) );''', '''		const auto pos = s.find_first_of( sep_chars );
		if ( pos == string::npos ) return s;
		return s.substr( 0, pos );''') if 0 else ('''		return s.substr( 0, s.find_first_of( sep_chars.c_str() ) );''', '''		const auto pos = s.find_first_of( sep_chars.c_str() );
		if ( pos == string::npos ) return s;
		return s.substr( 0, pos );'''), ('''		if ( pos == string::npos )
			return make_pair( s, string("") );
		else return make_pair( trim_str( s.substr( 0, pos ) ), trim_str( mid_str( s, pos + 1 ) ) );''', '''		if ( pos != string::npos )
		{
			string key = trim_str( left_str( s, int( pos ) ) );
			string value = trim_str( s.substr( pos + 1 ) );
			return std::make_pair( key, value );
		}
		return { s, "" };''')]}),
 ('R31', ['C01', 'C02'], {ST: [('''		if ( c == '\\"' )
			return "\\\\\\"";
		else if ( c == '\\\\' )
			return "\\\\\\\\";
		else if ( (unsigned char)c < 32 )
		{
			switch ( c )
			{
			case '\\r': return "\\\\r";
			case '\\n': return "\\\\n";
			case '\\t': return "\\\\t";
			default: return stringf( "\\\\%03o", (int)c );
			}
		}
		else return string( 1, c ); // nothing to encode''', '''		switch ( c )
		{
		case '\\"': return "\\\\\\"";
		case '\\\\': return "\\\\\\\\";
		case '\\r': return "\\\\r";
		case '\\n': return "\\\\n";
		case '\\t': return "\\\\t";
		default:
			if ( static_cast< unsigned char >( c ) >= 32 )
				return string( 1, c ); // nothing to encode
			return stringf( "\\\\%03o", (int)c );
		}''')]}),
 ('R32', ['C01', 'C02', 'C03'], {ST: [('''			int value = 0;
			int max_len = std::min( (int)buf_size - 1, 3 );
			for ( *len = 1; *len <= max_len; ++(*len) )
			{
				if ( *buf >= '0' && *buf < '8' )
					value = value * 8 + *buf++ - '0';
				else break;
			}
			if ( *len > 1 && value < 32 )
				return char( value ); // we read a valid char
			else return '?'; // no valid char could be read''', '''			int value = 0;
			int digits = 0;
			const int max_len = std::min( (int)buf_size - 1, 3 );
			while ( digits < max_len && buf[ digits ] >= '0' && buf[ digits ] <= '7' )
			{
				value = value * 8 + ( buf[ digits ] - '0' );
				++digits;
			}
			*len = digits + 1;
			if ( digits == 0 || value >= 32 )
				return '?'; // no valid char could be read
			return char( value ); // we read a valid char''')]}),
 ('R33', ['C01'], {ST: [('''		for ( const char& c : s )
			if ( (unsigned char)c < 33 || c == '\\"' || c == '\\\\' )
				return true;
		return false;''', '''		return std::any_of( s.begin(), s.end(), []( char c ) {
			return (unsigned char)c < 33 || c == '\\"' || c == '\\\\';
		} );''')]}),
 ('R34', ['C08'], {ST: [('''		auto ext_len = get_filename_ext( str ).size();
		if ( ext_len > 0 ) ++ext_len; // add dot
		return str.substr( 0, str.size() - ext_len );''', '''		const string ext = get_filename_ext( str );
		if ( ext.empty() )
			return str;
		return str.substr( 0, str.size() - ext.size() - 1 );'''), ('''		if ( n != string::npos ) return str.substr( n + 1, string::npos );
		else return str;''', '''		if ( n == string::npos )
			return str;
		return string( str.begin() + n + 1, str.end() );''')]}),
 # char stream
 ('R35', ['C03', 'C04'], {CS: [('''		for ( cur_pos_end = const_cast<char*>( cur_pos ); cur_pos_end != buffer_end && !strchr( delimiters_, *cur_pos_end ); ++cur_pos_end );
		s = string( cur_pos, size_t( cur_pos_end - cur_pos ) );''', '''		cur_pos_end = const_cast<char*>( cur_pos );
		while ( cur_pos_end != buffer_end )
		{
			if ( strchr( delimiters_, *cur_pos_end ) )
				break;
			++cur_pos_end;
		}
		s.assign( cur_pos, size_t( cur_pos_end - cur_pos ) );''')]}),
 ('R36', ['C03', 'C04'], {CH: [('''{ if ( cur_pos == buffer_end ) { buffer_flags.set< eof_flag >(); return true; } else return false; }''', '''{ const bool at_end = cur_pos == buffer_end; if ( at_end ) buffer_flags.set< eof_flag >(); return at_end; }'''),
   ('''{ if ( cur_pos == cur_pos_end ) buffer_flags.set< fail_flag >(); else { cur_pos = cur_pos_end; skip_delimiters(); } }''', '''{ if ( cur_pos != cur_pos_end ) { cur_pos = cur_pos_end; skip_delimiters(); return; } buffer_flags.set< fail_flag >(); }'''),
   ('''		void skip_delimiters() { while ( !test_eof() && strchr( delimiters_, *cur_pos ) ) ++cur_pos; }''', '''		void skip_delimiters() { skip_delimiters( delimiters_ ); }''')]}),
 ('R37', ['C03', 'C04'], {CS: [('''				char quote_char = getc();
				while ( good() )
				{
					char c = peekc();
					if ( c == quote_char ) // end of quote
					{
						getc();
						break;
					}
					else if ( c == '\\\\' )
					{
						int len;
						s += decode_char( cur_pos, buffer_end - cur_pos, &len );
						for ( ; len > 0; --len ) getc();
					}
					else s += getc();
				}
				cur_pos_end''', '''				s += read_quoted();
				cur_pos_end'''), ('''	flut::string char_stream::get_token(''', '''	flut::string char_stream::read_quoted()
	{
		string s;
		const char quote_char = getc();
		while ( good() )
		{
			const char c = peekc();
			if ( c == quote_char ) // end of quote
			{
				getc();
				break;
			}
			if ( c == '\\\\' )
			{
				int len;
				s += decode_char( cur_pos, buffer_end - cur_pos, &len );
				while ( len-- > 0 ) getc();
			}
			else s += getc();
		}
		return s;
	}

	flut::string char_stream::get_token(''')], CH: [('''		void init_buffer( const char* b, size_t len );
''', '''		void init_buffer( const char* b, size_t len );
		string read_quoted();
''')]}),
 # path
 ('R38', ['C07'], {PC: [('''		size_t n1 = last_separator_pos();
		size_t n2 = data_.find_last_of( '.' );
		if ( n1 == string::npos ) n1 = 0; else ++n1;
		return path( data_.substr( n1, ( n2 >= n1 ) ? n2 - n1 : string::npos ) );''', '''		const size_t sep = last_separator_pos();
		const size_t start = sep == string::npos ? 0 : sep + 1;
		const size_t dot = data_.rfind( '.' );
		if ( dot == string::npos || dot < start )
			return path( data_.substr( start ) );
		return path( data_.substr( start, dot - start ) );'''), ('''		size_t n = last_separator_pos();
		if ( n != string::npos ) data_ = data_.substr( 0, n );
		else data_.clear();
		return *this;''', '''		data_ = parent_path().str();
		return *this;'''), ('''		for ( char& c : data_ )
			if ( c == '/' || c == '\\\\' ) c = preferred_separator();
		return *this;''', '''		for ( size_t i = 0; i < data_.size(); ++i )
		{
			if ( data_[ i ] == '\\\\' || data_[ i ] == '/' )
				data_[ i ] = preferred_separator();
		}
		return *this;''')]}),
 ('R39', ['C07'], {PC: [('''		for ( char& c : data_ )
			if ( c == '/' || c == '\\\\' ) c = preferred_separator();
		return *this;''', '''		std::replace( data_.begin(), data_.end(), '\\\\', preferred_separator() );
		return *this;'''), ('''#include "path.hpp"''', '''#include "path.hpp"
#include <algorithm>'''), ('''		size_t n = data_.find_last_of( "./\\\\" );
		if ( n != string::npos && data_[ n ] == '.' ) data_.erase( n ); // remove existing extension

		if ( !ext.empty() )
			data_ += '.' + ext.data_;
''', '''		const size_t n = data_.find_last_of( "./\\\\" );
		if ( n != string::npos && data_[ n ] == '.' )
			data_.resize( n ); // remove existing extension

		if ( ext.empty() )
			return *this;
		data_.push_back( '.' );
		data_.append( ext.data_ );
''')]}),
 # containers
 ('R40', ['C09'], {'flut/flat_map.hpp': [('''			return std::count_if( cbegin(), cend(), [&]( const value_type& kvp ) { return kvp.first == key; } );''', '''			size_t n = 0;
			for ( const auto& kvp : *this )
				if ( kvp.first == key ) ++n;
			return n;'''), ('''			return std::find_if( begin(), end(), [&]( const value_type& kvp ) { return kvp.first == key; } );''', '''			auto it = begin();
			while ( it != end() && !( it->first == key ) )
				++it;
			return it;'''), ('''			auto it = find( key );
			if ( it == this->end() ) {
				this->emplace_back( key, V() );
				return this->back().second;
			}
			else return it->second;''', '''			auto it = find( key );
			if ( it != end() )
				return it->second;
			this->push_back( std::make_pair( key, V() ) );
			return this->back().second;''')]}),
 ('R41', ['C10'], {'flut/sorted_vector.hpp': [('''			return std::vector< T >::insert( std::upper_bound( begin(), end(), e ), e );''', '''			auto pos = end();
			while ( pos != begin() && e < *( pos - 1 ) )
				--pos;
			return std::vector< T >::insert( pos, e );'''), ('''			auto it = std::lower_bound( begin(), end(), e );
			return ( it != end() && *it == e ) ? it : end();''', '''			auto it = std::lower_bound( begin(), end(), e );
			if ( it == end() || !( *it == e ) )
				return end();
			return it;''')]}),
 ('R42', ['C11'], {'flut/dictionary.hpp': [('''			auto it = std::find_if( data.begin(), data.end(), [&]( pair_t& p ) { return str == p.second; } );
			return ( it == data.end() ) ? value_not_found : it->first;''', '''			for ( auto& p : data )
				if ( p.second == str ) return p.first;
			return value_not_found;'''), ('''		for ( auto& entry : table )
			if ( value == entry.first )
				return entry.second;
		flut_error''', '''		for ( auto it = table.begin(); it != table.end(); ++it )
		{
			if ( value == it->first )
				return it->second;
		}
		flut_error''')]}),
 ('R43', ['C12'], {'flut/circular_deque.hpp': [('''		T& operator[]( index_t idx ) { return buffer_[ ( front_ + idx ) % buffer_.size() ]; }
		const T& operator[]( index_t idx ) const { return buffer_[ ( front_ + idx ) % buffer_.size() ]; }
''', '''		T& operator[]( index_t idx ) { return buffer_[ buffer_index( idx ) ]; }
		const T& operator[]( index_t idx ) const { return buffer_[ buffer_index( idx ) ]; }
		size_t buffer_index( index_t idx ) const { return ( front_ + idx ) % capacity(); }
'''), ('''T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }''', '''T& back() { flut_assert( !empty() ); return buffer_[ buffer_index( size_ - 1 ) ]; }'''),
   ('''void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }''', '''void pop_front() {
			flut_assert( size_ > 0 );
			++front_;
			if ( front_ == capacity() ) front_ = 0;
			--size_;
		}'''), ('''else { front_ = ( front_ + capacity() - 1 ) % capacity(); front() = value; }''', '''else {
				front_ = ( front_ == 0 ? capacity() : front_ ) - 1;
				buffer_[ front_ ] = value;
			}''')]}),
 ('R44', ['C12'], {'flut/circular_deque.hpp': [('''			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
			front_ = 0;
			buffer_.resize( s );''', '''			buffer_type new_buffer( s );
			for ( size_t i = 0; i < size_; ++i )
				new_buffer[ i ] = ( *this )[ i ];
			buffer_ = std::move( new_buffer );
			front_ = 0;''')]}),
 ('R45', ['C13'], {'flut/container_tools.hpp': [('''		auto s = vec.size();
		auto v = sorted_copy( vec );
		if ( s % 2 == 1 ) return v[ s / 2 ];
		else return ( v[ s / 2 ] + v[ s / 2 - 1 ] ) / T(2);''', '''		const auto v = sorted_copy( vec );
		const auto mid = v.size() / 2;
		const bool even = v.size() % 2 == 0;
		return even ? ( v[ mid - 1 ] + v[ mid ] ) / T(2) : v[ mid ];'''), ('''		auto it = std::find( vec.begin(), vec.end(), val );
		if ( it == vec.end() ) return no_index;
		else return it - vec.begin();''', '''		for ( index_t i = 0; i < vec.size(); ++i )
			if ( vec[ i ] == val ) return i;
		return no_index;'''), ('''		vector< size_t > idx_vec( cont.size() );
		for ( index_t i = 0; i < cont.size(); ++i ) idx_vec[ i ] = i;
''', '''		vector< size_t > idx_vec( cont.size() );
		std::iota( idx_vec.begin(), idx_vec.end(), size_t( 0 ) );
''')]}),
 ('R46', ['C13'], {'flut/container_tools.hpp': [('''{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }''', '''{
		auto sum = typename I::value_type( 0 );
		for ( auto it = b; it != e; ++it ) sum += *it;
		return sum / typename I::value_type( e - b );
	}'''), ('''		vector< T > result( count );
		std::partial_sort_copy( vec.begin(), vec.end(), result.begin(), result.end() );
		return average( result );''', '''		vector< T > result = sorted_copy( vec );
		result.resize( count );
		return average( result );''')]}),
 ('R47', ['C15', 'C16', 'C17'], {'flut/buffer/data_header.hpp': [('''			auto it = label_indices_.find( label );
			return ( it != label_indices_.end() ) ? it->second : no_index;''', '''			const auto it = label_indices_.find( label );
			if ( it == label_indices_.end() )
				return no_index;
			return it->second;'''), ('''			labels_.push_back( label );
			return label_indices_[ label ] = labels_.size() - 1;''', '''			const index_t idx = labels_.size();
			labels_.push_back( label );
			label_indices_[ label ] = idx;
			return idx;'''), ('''for ( index_t i = 0; i < labels_.size(); ++i ) label_indices_.emplace( labels_[ i ], i );''', '''index_t i = 0; for ( const auto& l : labels_ ) { label_indices_.emplace( l, i ); ++i; }''')]}),
 ('R48', ['C16'], {'flut/storage.hpp': [('''			for ( index_t fidx = 0; fidx < data.size(); ++fidx ) ( *this )( fidx, cidx ) = data[ fidx ];
			return cidx;''', '''			index_t fidx = 0;
			for ( const auto& v : data )
				( *this )( fidx++, cidx ) = v;
			return cidx;'''), ('''			data_.resize( data_.size() + channel_size() );
			++frame_size_;
			std::copy( data.begin(), data.end(), data_.end() - channel_size() );''', '''			data_.insert( data_.end(), data.begin(), data.end() );
			++frame_size_;''')]}),
 ('R49', ['C16'], {'flut/storage.hpp': [('''			if ( nchannels > channel_size() ) {
				if ( frame_size() > 1 ) {''', '''			const bool reorganize = nchannels > channel_size() && frame_size() > 1;
			if ( nchannels > channel_size() ) {
				if ( reorganize ) {'''), ('''					for ( index_t fi = 0; fi < frame_size(); ++fi )
						for ( index_t ci = 0; ci < channel_size(); ++ci )
							new_data[ nchannels * fi + ci ] = data_[ channel_size() * fi + ci ];''', '''					for ( index_t fi = 0; fi < frame_size(); ++fi )
						std::copy( data_.begin() + fi * channel_size(), data_.begin() + ( fi + 1 ) * channel_size(), new_data.begin() + fi * nchannels );''')]}),
 ('R50', ['C17'], {'flut/table.hpp': [('''			data_.resize( rows * cols );
			for ( index_t ri = rows; ri-- > 0; )
				for ( index_t ci = cols; ci-- > 0; )
					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : default_value;''', '''			vector< T > new_data( rows * cols, default_value );
			for ( index_t ri = 0; ri < row_size(); ++ri )
				for ( index_t ci = 0; ci < column_size(); ++ci )
					new_data[ ri * cols + ci ] = data_[ ri * column_size() + ci ];
			data_ = std::move( new_data );''')]}),
 ('R51', ['C18'], {'flut/buffer/circular_frame_buffer.hpp': [('''			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
			return data( frame % frame_buf_size_, channel );''', '''			flut_assert( channel < channel_size() );
			flut_assert( frame < frame_size() && frame_size() <= frame + frame_buf_size_ );
			return ( *this )( frame, channel );'''), ('''{ return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }''', '''{ return reverse( 0, channel ); }''')]}),
 # math
 ('R52', ['C19', 'C20'], {'flut/math/vec3.hpp': [('''		{ return vec3_<T>( v1.x + v2.x, v1.y + v2.y, v1.z + v2.z ); }''', '''		{ vec3_<T> r( v1 ); r += v2; return r; }''') if 0 else ('''		{ return sqrt( v.x * v.x + v.y * v.y + v.z * v.z ); }''', '''		{ return sqrt( dot_product( v, v ) ); }'''), ('''		/// Get length of a vec3
''', '''		template< typename T > T dot_product( const vec3_<T>& v1, const vec3_<T>& v2 );

		/// Get length of a vec3
'''), ('''		{ return sqrt( squared( v1.x - v2.x ) + squared( v1.y - v2.y ) + squared( v1.z - v2.z ) ); }''', '''		{ return length( v2 - v1 ); }'''), ('''		{ return !( v1 == v2 ); }''', '''		{ return v1.x != v2.x || v1.y != v2.y || v1.z != v2.z; }'''),
   ('''{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }''', '''{ v.x /= s; v.y /= s; v.z /= s; return v; }''')]}),
 ('R53', ['C20'], {'flut/math/quat.hpp': [('''			vec3_<T> qv( q.x, q.y, q.z );
			vec3_<T> uv = cross_product( qv, v );
			vec3_<T> uuv = cross_product( qv, uv );
			uv *= T(2) * q.w;
			uuv *= T(2);
			return v + uv + uuv;''', '''			const vec3_<T> u( q.x, q.y, q.z );
			const vec3_<T> t = T(2) * cross_product( u, v );
			return v + q.w * t + cross_product( u, t );'''), ('''			T l = sqrt( q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w );
			if ( l > constants<T>::epsilon() )
			{ T invl = inv( l ); q.w *= invl; q.x *= invl; q.y *= invl; q.z *= invl; }
			return q;''', '''			return normalize( q );''')]}),
 ('R54', ['C20'], {'flut/math/transform.hpp': [('return p + q * v;', 'return q * v + p;')]}),
 ('R55', ['C21'], {'flut/math/bounds.hpp': [('''{ if ( value < lower ) return value - lower; else if ( value > upper ) return value - upper; else return T( 0 ); }''', '''{
			if ( is_within( value ) ) return T( 0 );
			return value < lower ? value - lower : value - upper;
		}'''), ('''{ return ( value >= lower ) && ( value <= upper ); }''', '''{ return !( value < lower || value > upper ); }''')], 'flut/math/math.hpp': [('''			if ( ( v - lower ) >= 0 )
				return v = fmod( v - lower, upper - lower ) + lower;
			else return v = fmod( v - lower, upper - lower ) + upper;''', '''			const T range = upper - lower;
			const T m = fmod( v - lower, range );
			v = ( v >= lower ? lower : upper ) + m;
			return v;'''), ('''return v != 0 && !( v & ( v - 1 ) );''', '''return v != 0 && ( v & ( v - 1 ) ) == 0;'''), ('''{ return ( v & 1 ) == 1; }''', '''{ return !is_even( v ); }''')]}),
 ('R56', ['C22'], {'flut/math/polynomial.hpp': [('''			T result = coeff[ 0 ];
			T factor = T( v );
			for ( auto it = std::begin( coeff ) + 1; it != std::end( coeff ); ++it ) { result += factor * *it; factor *= v; }
			return result;''', '''			T result = coeff[ D ];
			for ( size_t i = D; i-- > 0; )
				result = result * v + coeff[ i ];
			return result;''')], 'flut/buffer/interpolation.hpp': [('''			K w = key - lb;
			return ( K(1) - w ) * cont[ lb ] + w * cont[ ub ];''', '''			const K w = key - K( lb );
			return cont[ lb ] + w * ( cont[ ub ] - cont[ lb ] );''')]}),
 # bits
 ('R57', ['C23'], {'flut/hash.hpp': [('''		while ( *str ) { ret ^= static_cast< unsigned char >( *str ); ret *= fnv1a_64_prime; ++str;	}''', '''		for ( char const* p = str; *p != '\\0'; ++p )
			ret = ( ret ^ static_cast< unsigned char >( *p ) ) * fnv1a_64_prime;''')]}),
 ('R58', ['C24'], {'flut/flag_set.hpp': [('''		flag_set& set( EnumT index, bool value ) { data = ( data & ~storage_bit( index ) ) | storage_bit( index, value ); return *this; }''', '''		flag_set& set( EnumT index, bool value ) { return value ? set( index ) : clear( index ); }'''), ('''flag_set( std::initializer_list< EnumT > flags ) : data( StorageT( 0 ) ) { set( flags ); }''', '''flag_set( std::initializer_list< EnumT > flags ) : flag_set() { for ( auto f : flags ) data |= storage_bit( f ); }''')]}),
 # property nodes
 ('R59', ['C25', 'C26', 'C27', 'C28'], {'flut/prop_node.hpp': [('''iterator find( const key_t& key ) { return std::find_if( begin(), end(), [&]( const pair_t& e ) { return e.first == key; } ); }''', '''iterator find( const key_t& key )
		{
			for ( auto it = begin(); it != end(); ++it )
				if ( it->first == key ) return it;
			return end();
		}'''), ('''		{ access(); auto it = find( key ); if ( it != end() ) return it->second.access(); else return push_back( key ); }''', '''		{ if ( prop_node* c = try_get_child( key ) ) return *c; return push_back( key ); }'''), ('''		{ auto it = find( key ); flut_error_if( it == end(), "Could not find key: " + key ); access(); return it->second; }''', '''		{
			auto it = find( key );
			if ( it != end() )
			{
				access();
				return it->second;
			}
			flut_error( "Could not find key: " + key );
		}''')]}),
 ('R60', ['C25', 'C27'], {'flut/prop_node.hpp': [('''			auto p = key.find_first_of( delim );
			if ( p == string::npos ) return set( key, v );
			else return get_or_add_child( key.substr( 0, p ) ).set_delimited( mid_str( key, p + 1 ), v, delim );''', '''			const auto p = key.find( delim );
			if ( p != string::npos )
			{
				prop_node& child = get_or_add_child( left_str( key, int( p ) ) );
				return child.set_delimited( key.substr( p + 1 ), v, delim );
			}
			return set( key, v );'''), ('''			if ( p == string::npos ) return try_get_child( key );
			else if ( const prop_node* c = try_get_child( key.substr( 0, p ) ) )
			return c->try_get_child_delimited( mid_str( key, p + 1 ), delim );
			else return nullptr;''', '''			if ( p == string::npos )
				return try_get_child( key );
			const prop_node* c = try_get_child( key.substr( 0, p ) );
			return c ? c->try_get_child_delimited( mid_str( key, p + 1 ), delim ) : nullptr;''')]}),
 ('R61', ['C26'], {'flut/prop_node.cpp': [('''		if ( value != other.value )
			return false;

		if ( size() != other.size() )
			return false;

		for ( size_t i = 0; i < children.size(); ++i )
		{
			if ( children[i].first != other.children[i].first )
				return false;
			if ( children[i].second != other.children[i].second )
				return false;
		}

		return true;''', '''		if ( size() != other.size() || value != other.value )
			return false;

		auto it2 = other.children.begin();
		for ( auto it1 = children.begin(); it1 != children.end(); ++it1, ++it2 )
		{
			if ( it1->first != it2->first || !( it1->second == it2->second ) )
				return false;
		}

		return true;''')]}),
 ('R62', ['C28'], {'flut/prop_node_tools.cpp': [('''		for ( auto& o : other )
		{
			auto it = pn.find( o.first );
			if ( it == pn.end() )
				pn.push_back( o.first, o.second );
			else if ( overwrite )
				it->second = o.second;
		}''', '''		for ( auto it = other.begin(); it != other.end(); ++it )
		{
			if ( !pn.has_key( it->first ) )
				pn.push_back( it->first, it->second );
			else if ( overwrite )
				pn.set( it->first, it->second );
		}''')]}),
 # log, memoize, output
 ('R63', ['C29'], {'flut/system/log.cpp': [('''			for ( auto s : global_sinks )
				s->try_send_log_message( l, str );''', '''			for ( size_t i = 0; i < global_sinks.size(); ++i )
				global_sinks[ i ]->try_send_log_message( l, str );'''), ('''			lowest_log_level = critical_level;
			for ( auto s : global_sinks )
				if ( s->get_log_level() < lowest_log_level ) lowest_log_level = s->get_log_level();
			return lowest_log_level;''', '''			level lowest = critical_level;
			for ( auto s : global_sinks )
				lowest = std::min( lowest, s->get_log_level() );
			return lowest_log_level = lowest;'''), ('''			flut_assert( s != nullptr );
			if ( std::find( global_sinks.begin(), global_sinks.end(), s ) == global_sinks.end() )
			{
				global_sinks.push_back( s );
				get_global_log_level();
			}''', '''			flut_assert( s != nullptr );
			const bool known = std::find( global_sinks.begin(), global_sinks.end(), s ) != global_sinks.end();
			if ( known )
				return;
			global_sinks.push_back( s );
			get_global_log_level();''')]}),
 ('R64', ['C30'], {'flut/memoize.hpp': [('''			auto it = mem_.find( tup );
			if ( it == mem_.end() ) {
				auto r = func_( args... );
				mem_[ tup ] = r;
				return r;
			}
			else
				return it->second;''', '''			auto it = mem_.find( tup );
			if ( it == mem_.end() )
				it = mem_.emplace( tup, func_( args... ) ).first;
			return it->second;''')]}),
 ('R65', ['C31'], {'flut/container_tools.hpp': [('''		for ( auto it = vec.begin(); it != vec.end(); ++it ) {
			if ( it != vec.begin() ) str << "\\t";
			str << *it;
		}
		return str << std::endl;''', '''		bool first = true;
		for ( const auto& e : vec ) {
			if ( !first ) str << "\\t";
			str << e;
			first = false;
		}
		str << std::endl;
		return str;''')], 'flut/storage.hpp': [('''		for ( index_t ci = 0; ci < buf.channel_size(); ++ci ) {
			str << buf.get_label( ci );
			if ( ci == buf.channel_size() - 1 ) str << std::endl; else str << '\\t';
		}
''', '''		for ( index_t ci = 0; ci < buf.channel_size(); ++ci ) {
			if ( ci > 0 ) str << '\\t';
			str << buf.get_label( ci );
		}
		if ( buf.channel_size() > 0 ) str << std::endl;
''')], 'flut/table.hpp': [('''		for ( auto& rl : t.col_labels() )
			str << "\\t" << rl;
''', '''		for ( index_t col = 0; col < t.column_size(); ++col )
			str << "\\t" << t.col_labels()[ col ];
''')]}),
 ('R66', ['C14'], {'flut/dynarray.hpp': [('''void assign( const T& v ) { std::fill( begin(), end(), v ); }''', '''void assign( const T& v ) { for ( auto& e : *this ) e = v; }'''), ('''size_t size() const { return end() - begin(); }''', '''size_t size() const { return size_t( end_ - data_.get() ); }'''),
   ('''dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }''', '''dynarray( size_t n, const T& v ) : dynarray( n ) { assign( v ); }''')]}),
 ('R67', ['C22'], {'flut/filter.hpp': [('''			for ( int i = N - 1; i > 0; --i ) {
				x_[ i ] = x_[ i - 1 ];
				y_[ i ] = y_[ i - 1 ];
			}
''', '''			std::copy_backward( x_.begin(), x_.end() - 1, x_.end() );
			std::copy_backward( y_.begin(), y_.end() - 1, y_.end() );
''')]}),
 ('R68', ['C21'], {'flut/math/average.hpp': [('''{ return tot_w > T() ? tot_v / tot_w : T(); }''', '''{ if ( !( tot_w > T() ) ) return T(); return tot_v / tot_w; }''')], 'flut/math/angle.hpp': [('''angle_ operator*( const TS& s ) const { return angle_( value * T(s) ); }''', '''angle_ operator*( const TS& s ) const { angle_ r( value ); r *= s; return angle_( r.value ); }'''), ('''bool operator>=( const angle_& other ) const { return value >= other.value; }''', '''bool operator>=( const angle_& other ) const { return other <= *this; }''')]}),
]
