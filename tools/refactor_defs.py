ST = 'flut/string_tools.cpp'
DEFS = [
 ('R01', ['C05'], {ST: [('''		auto left = s.find_first_not_of( space_chars );
		if ( left == string::npos ) return string( "" ); // string has no non-whitespace characters
		auto right = s.find_last_not_of( space_chars );
		return s.substr( left, 1 + right - left );''', '''		const size_t first = s.find_first_not_of( space_chars );
		const size_t last = s.find_last_not_of( space_chars );
		if ( first != string::npos )
			return string( s, first, last + 1 - first );
		return string();''')]}),
 ('R02', ['C04'], {ST: [('''		size_t ofs = s.find_first_not_of( sep_chars.c_str(), 0 );
		while ( ofs != string::npos ) {
			size_t ofsend = s.find_first_of( sep_chars.c_str(), ofs );
			strings.push_back( s.substr( ofs, ofsend - ofs ) );
			ofs = s.find_first_not_of( sep_chars.c_str(), ofsend );
		}''', '''		const char* seps = sep_chars.c_str();
		for ( size_t b = s.find_first_not_of( seps ), e; b != string::npos; b = s.find_first_not_of( seps, e ) ) {
			e = s.find_first_of( seps, b );
			strings.emplace_back( s.substr( b, e - b ) );
		}''')]}),
 ('R03', ['C01', 'C02'], {ST: [('''	FLUT_API string quoted( const string& s )
	{
		string sout = "\\"";
		for ( const char& c : s )
		{
			if ( c == '\\"' || c == '\\\\' || (unsigned char)c < 32 )
				sout += encode_char( c );
			else sout += c;
		}
		sout += "\\"";
		return sout;''', '''	static bool must_encode( char c )
	{
		return (unsigned char)c < 32 || c == '\\\\' || c == '\\"';
	}

	FLUT_API string quoted( const string& s )
	{
		string sout( 1, '\\"' );
		for ( size_t i = 0; i < s.size(); ++i )
		{
			if ( !must_encode( s[ i ] ) )
				sout.push_back( s[ i ] );
			else sout += encode_char( s[ i ] );
		}
		return sout + "\\"";''')]}),
 ('R04', ['C01', 'C02'], {ST: [('''		for ( auto it = s.begin() + 1; it < s.end() - 1 && *it != '\\"'; ++it )
		{
			if ( *it == '\\\\' )
			{
				int len;
				sout += decode_char( &( *it ), s.end() - it, &len );
				it += ( len - 1 );
			}
			else sout += *it;
		}''', '''		auto it = s.begin() + 1;
		while ( it < s.end() - 1 )
		{
			if ( *it == '\\"' ) break;
			int len = 1;
			if ( *it == '\\\\' )
				sout += decode_char( &( *it ), s.end() - it, &len );
			else sout += *it;
			it += len;
		}''')]}),
 ('R05', ['C01', 'C02', 'C03'], {ST: [('''	FLUT_API char decode_char( const char* buf''', '''	static bool is_oct_digit( char c ) { return '0' <= c && c <= '7'; }

	FLUT_API char decode_char( const char* buf'''), ('''				if ( *buf >= '0' && *buf < '8' )
					value = value * 8 + *buf++ - '0';
				else break;''', '''				if ( !is_oct_digit( *buf ) ) break;
				value = 8 * value + ( *buf - '0' );
				++buf;''')]}),
 ('R06', ['C03'], {'flut/char_stream.cpp': [('''				while ( good() )
				{
					char c = peekc();
					if ( c == quote_char ) // end of quote
					{
						getc();
						break;
					}
					else if ( c == '\\\\' )
					{
						int len;
						s += decode_char( cur_pos, buffer_end - cur_pos, &len );
						for ( ; len > 0; --len ) getc();
					}
					else s += getc();
				}''', '''				bool closed = false;
				while ( good() && !closed )
				{
					char c = peekc();
					closed = ( c == quote_char );
					if ( closed ) getc();
					else if ( c != '\\\\' ) s += getc();
					else
					{
						int len;
						s += decode_char( cur_pos, buffer_end - cur_pos, &len );
						while ( len-- > 0 ) getc();
					}
				}''')]}),
 ('R07', ['C09'], {'flut/flat_map.hpp': [('''			auto it = find( key );
			if ( it == this->end() ) {
				this->emplace_back( key, V() );
				return this->back().second;
			}
			else return it->second;''', '''			auto it = find( key );
			if ( it != end() ) return it->second;
			this->push_back( value_type( key, V() ) );
			return back().second;'''), ('''			return std::find_if( begin(), end(), [&]( const value_type& kvp ) { return kvp.first == key; } );''', '''			auto it = begin();
			while ( it != end() && !( it->first == key ) ) ++it;
			return it;''')]}),
 ('R08', ['C10'], {'flut/sorted_vector.hpp': [('''			auto it = std::lower_bound( begin(), end(), e );
			return ( it != end() && *it == e ) ? it : end();''', '''			auto it = std::lower_bound( begin(), end(), e );
			if ( it == end() ) return it;
			return *it == e ? it : end();''')]}),
 ('R09', ['C12'], {'flut/circular_deque.hpp': [('''			if ( ++size_ > capacity() ) {
				if ( front_ == 0 ) buffer_.push_back( value );
				else buffer_.insert( buffer_.begin() + front_++, value ); // last element is right before front
			}
			else back() = value;''', '''			if ( size_ < capacity() ) {
				++size_;
				back() = value;
				return;
			}
			if ( front_ != 0 ) {
				buffer_.insert( buffer_.begin() + front_, value );
				++front_;
			}
			else buffer_.push_back( value );
			++size_;'''), ('''front_ = ( front_ + 1 ) % capacity(); --size_; }''', '''--size_; if ( ++front_ == capacity() ) front_ = 0; }''')]}),
 ('R10', ['C16'], {'flut/storage.hpp': [('''					for ( index_t fi = 0; fi < frame_size(); ++fi )
						for ( index_t ci = 0; ci < channel_size(); ++ci )
							new_data[ nchannels * fi + ci ] = data_[ channel_size() * fi + ci ];''', '''					const size_t old_channels = channel_size();
					for ( index_t fi = 0; fi < frame_size(); ++fi ) {
						index_t src = fi * old_channels, dst = fi * nchannels;
						for ( index_t ci = 0; ci < old_channels; ++ci )
							new_data[ dst + ci ] = data_[ src + ci ];
					}'''), ('''			data_.resize( data_.size() + channel_size() );
			++frame_size_;
			std::copy( data.begin(), data.end(), data_.end() - channel_size() );''', '''			data_.insert( data_.end(), data.begin(), data.end() );
			++frame_size_;''')]}),
 ('R11', ['C17'], {'flut/table.hpp': [('''			data_.resize( rows * cols );
			for ( index_t ri = rows; ri-- > 0; )
				for ( index_t ci = cols; ci-- > 0; )
					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : default_value;''', '''			vector< T > new_data( rows * cols, default_value );
			for ( index_t ri = 0; ri < row_size(); ++ri )
				for ( index_t ci = 0; ci < column_size(); ++ci )
					new_data[ cols * ri + ci ] = data_[ column_size() * ri + ci ];
			data_.swap( new_data );''')]}),
 ('R12', ['C25', 'C26', 'C27', 'C28'], {'flut/prop_node.hpp': [('''{ auto it = find( key ); if ( it == end() ) push_back( key, v ); else it->second.set( v ); return *this; }''', '''{
			auto it = find( key );
			if ( it != end() ) it->second.set( v );
			else push_back( key, v );
			return *this;
		}'''), ('''{ access(); auto it = find( key ); if ( it != end() ) return it->second.access(); else return push_back( key ); }''', '''{ access(); if ( auto c = try_get_child( key ) ) return *c; return push_back( key ); }''')]}),
 ('R13', ['C19', 'C20'], {'flut/math/vec3.hpp': [('''''', '''''')]} if 0 else {'flut/math/math.hpp': [('{ return v >= T() ? T(1) : T(-1); }', '{ return v < T() ? T(-1) : T(1); }'), ('''		{ if ( v < min ) v = min; else if ( v > max ) v = max; return v; } // TODO: use efficient instructions''', '''		{
			if ( v < min ) return v = min;
			if ( max < v ) return v = max;
			return v;
		}''')]}),
 ('R14', ['C21'], {'flut/math/math.hpp': [('{ return v >= T() ? T(1) : T(-1); }', '{ return v < T() ? T(-1) : T(1); }'), ('''		{ if ( v < min ) v = min; else if ( v > max ) v = max; return v; } // TODO: use efficient instructions''', '''		{
			if ( v < min ) return v = min;
			if ( max < v ) return v = max;
			return v;
		}'''), ('''			if ( ( v - lower ) >= 0 )
				return v = fmod( v - lower, upper - lower ) + lower;
			else return v = fmod( v - lower, upper - lower ) + upper;''', '''			const T ofs = v - lower;
			const T rem = fmod( ofs, upper - lower );
			v = ofs < 0 ? rem + upper : rem + lower;
			return v;'''), ('return ( v >= min && v <= max );', 'return !( v < min ) && !( v > max );')]}),
 ('R15', ['C29'], {'flut/system/log.cpp': [('''			for ( auto s : global_sinks )
				s->try_send_log_message( l, str );''', '''			for ( size_t i = 0; i < global_sinks.size(); ++i )
				if ( global_sinks[ i ]->test_log_level( l ) ) global_sinks[ i ]->send_log_message( l, str );'''), ('''			for ( auto s : global_sinks )
				if ( s->get_log_level() < lowest_log_level ) lowest_log_level = s->get_log_level();
			return lowest_log_level;''', '''			level lowest = critical_level;
			for ( auto s : global_sinks )
				lowest = std::min( lowest, s->get_log_level() );
			return lowest_log_level = lowest;'''), ('''			auto it = std::find( global_sinks.begin(), global_sinks.end(), s );
			if ( it != global_sinks.end() ) global_sinks.erase( it );''', '''			global_sinks.erase( std::remove( global_sinks.begin(), global_sinks.end(), s ), global_sinks.end() );''')]}),
 ('R16', ['C31'], {'flut/storage.hpp': [('''				str << buf( fi, ci );
				if ( ci == buf.channel_size() - 1 ) str << std::endl; else str << '\\t';''', '''				if ( ci > 0 ) str << '\\t';
				str << buf( fi, ci );
				if ( ci + 1 == buf.channel_size() ) str << std::endl;''')], 'flut/table.hpp': [('''			for ( index_t col = 0; col < t.column_size(); ++col )
				str << "\\t" << t( row, col );''', '''			for ( index_t col = 0; col != t.column_size(); col++ ) {
				str << '\\t';
				str << t( row, col );
			}''')]}),
 ('R17', ['C15', 'C16', 'C17', 'C18'], {'flut/buffer/data_header.hpp': [('''			auto it = label_indices_.find( labels_[ idx ] );
			if ( it != label_indices_.end() && it->second == idx ) label_indices_.erase( it );
			labels_[ idx ] = label;
			label_indices_[ label ] = idx;
			return idx;''', '''			if ( find( labels_[ idx ] ) == idx )
				label_indices_.erase( labels_[ idx ] );
			label_indices_[ label ] = idx;
			labels_[ idx ] = label;
			return idx;'''), ('''			labels_.push_back( label );
			return label_indices_[ label ] = labels_.size() - 1;''', '''			const index_t idx = labels_.size();
			label_indices_.emplace( label, idx );
			labels_.push_back( label );
			return idx;''')]}),
 ('R18', ['C11'], {'flut/dictionary.hpp': [('''			auto it = std::find_if( data.begin(), data.end(), [&]( pair_t& p ) { return e == p.first; } );
			flut_error_if( it == data.end(), "Could not find element " + to_str( e ) );
			return it->second;''', '''			for ( auto& entry : data )
				if ( entry.first == e ) return entry.second;
			flut_error( "Could not find element " + to_str( e ) );''')]}),
 ('R19', ['C30'], {'flut/memoize.hpp': [('''			auto it = mem_.find( tup );
			if ( it == mem_.end() ) {
				auto r = func_( args... );
				mem_[ tup ] = r;
				return r;
			}
			else
				return it->second;''', '''			auto it = mem_.find( tup );
			if ( it != mem_.end() ) return it->second;
			auto r = func_( args... );
			mem_.insert( std::make_pair( tup, r ) );
			return r;''')]}),
 ('R20', ['C23'], {'flut/hash.hpp': [('''		while ( *str ) { ret ^= static_cast< unsigned char >( *str ); ret *= fnv1a_64_prime; ++str;	}
		return ret;''', '''		for ( ; *str != 0; ++str )
			ret = ( ret ^ static_cast< unsigned char >( *str ) ) * fnv1a_64_prime;
		return ret;''')]}),
 ('R21', ['C24'], {'flut/flag_set.hpp': [('''{ data = ( data & ~storage_bit( index ) ) | storage_bit( index, value ); return *this; }
		template''', '''{ return value ? set( index ) : clear( index ); }
		template'''), ('''( data & storage_bit( index ) ) != 0; }
		inline''', '''( ( data >> int( index ) ) & 1 ) == 1; }
		inline''')]}),
 ('R22', ['C28'], {'flut/prop_node_tools.cpp': [('''			auto it = pn.find( o.first );
			if ( it == pn.end() )
				pn.push_back( o.first, o.second );
			else if ( overwrite )
				it->second = o.second;''', '''			if ( !pn.has_key( o.first ) )
				pn.push_back( o.first, o.second );
			else if ( overwrite )
				pn.get_child( o.first ) = o.second;''')]}),
 ('R23', ['C14'], {'flut/dynarray.hpp': [('''{ std::copy( o.begin(), o.end(), begin() ); }''', '''{ for ( size_t i = 0; i < o.size(); ++i ) data_[ i ] = o[ i ]; }'''), ('''void assign( const T& v ) { std::fill( begin(), end(), v ); }''', '''void assign( const T& v ) { for ( auto& e : *this ) e = v; }''')]}),
 ('R24', ['C18'], {'flut/buffer/circular_frame_buffer.hpp': [('''			index_t ofs0 = ( frame0 % frame_buf_size_ ) * channel_size() + channel;
			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * channel_size() + channel;
			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];''', '''			const T v0 = data( frame0 % frame_buf_size_, channel );
			const T v1 = data( ( frame0 + 1 ) % frame_buf_size_, channel );
			return v0 * ( T(1) - pos ) + v1 * pos;''')]}),
 ('R25', ['C22'], {'flut/filter.hpp': [('''			for ( int i = 0; i < N; ++i )
				y += b_[ i ] * x_[ i ] + a_[ i ] * y_[ i ];''', '''			for ( int i = 0; i < N; ++i ) {
				y += b_[ i ] * x_[ i ];
				y += a_[ i ] * y_[ i ];
			}'''), ('''			x_[ 0 ] = x;
			y_[ 0 ] = y;''', '''			y_[ 0 ] = y;
			x_[ 0 ] = x;''')]}),
 ('R26', ['C06', 'C08', 'C07'], {ST: [('''		size_t n = str.find_last_of( "/\\\\" );
		if ( n != string::npos ) return str.substr( 0, n + 1 );
		else return string();''', '''		return str.substr( 0, str.find_last_of( "/\\\\" ) + 1 );'''), ('''		size_t n = str.find_last_of( '.' );
		if ( n != string::npos ) {
			string ext = str.substr( n + 1 );
			if ( ext.find_last_of( "/\\\\" ) == string::npos ) // check if not part of folder
				return ext;
		}
		return string(); // no extension found''', '''		const size_t n = str.rfind( '.' );
		const size_t sep = str.find_last_of( "/\\\\" );
		if ( n == string::npos || ( sep != string::npos && sep > n ) )
			return string();
		return str.substr( n + 1 );''')]}),
 ('R27', ['C26'], {'flut/prop_node.hpp': [('''{ value = std::move( other.value ); children = std::move( other.children ); return *this; }''', '''{ children.swap( other.children ); value = std::move( other.value ); return *this; }''')]} if 0 else {'flut/prop_node.hpp': [('''bool operator!=( const prop_node& other ) { return !( *this == other ); }''', '''bool operator!=( const prop_node& other ) { const bool equal = ( *this == other ); return !equal; }''')]}),
]
