"""behaviour-preserving edits of the stopwatch, written property trees and flag sets"""
S, P, F = 'flut/stopwatch.cpp', 'flut/prop_node.cpp', 'flut/flag_set.hpp'
FIND = '''		auto iter = std::find_if( measures_.begin(), measures_.end(), [&]( measure_t& m ) { return m.first == s; } );
		if ( iter == measures_.end() )
			measures_.push_back( make_pair( s, now - epoch_ ) );
		else iter->second += now - epoch_;
'''
REP = '''		for ( auto& m : measures_ )
			pn.push_back( m.first, m.second );
'''
WIDTH = '''			width = std::max( width, depth * 2 + int( child.first.size() ) );
			width = std::max( width, get_align_width( child.second, depth + 1 ) );
'''
LOOP = '''			string key_str( depth * 2, ' ' );
			key_str += child.first;

			str << std::left << std::setw( align ) << key_str;
			if ( child.second.has_value() || child.second.size() == 0 )
				str << std::setw( 0 ) << " = " << child.second.get_value();
			str << std::endl;

			to_stream( str, child.second, depth + 1, align );
'''
FA = 'flut/factory.hpp'
REG = '{ func_map_[ name ] = []( Args... args ) { return std::unique_ptr< T >( new U( args... ) ); }; }'
IDX = '{ auto it = func_map_.find( type ); flut_error_if( it == func_map_.end(), "Unregistered type: " + type ); return it->second; }'
TRY = '{ auto it = func_map_.find( type ); return it != func_map_.end() ? it->second( args... ) : nullptr; }'
TIDY = """		size_t pos = id.find_last_of( ':' );
		if ( pos != string::npos )
			return trim_str( id.substr( pos + 1 ), "_" ); // remove anything before :: plus underscores
		else if ( str_begins_with( id, "m_" ) )
			return trim_right_str( id.substr( 2 ), "_" ); // remove m_ plus underscores
		else return trim_str( id, "_" ); // remove underscores
"""
DEFS5 = [
 ('R87', ['C36'], {S: [(FIND, '''		const auto elapsed = now - epoch_;
		size_t idx = 0;
		while ( idx < measures_.size() && measures_[ idx ].first != s )
			++idx;
		if ( idx < measures_.size() )
			measures_[ idx ].second += elapsed;
		else measures_.emplace_back( s, elapsed );
''')]}),
 ('R88', ['C36'], {S: [(FIND, '''		bool found = false;
		for ( auto& m : measures_ )
		{
			if ( m.first == s )
			{
				m.second += now - epoch_;
				found = true;
				break;
			}
		}
		if ( !found )
			measures_.push_back( measure_t( s, now - epoch_ ) );
'''), (REP, '''		for ( size_t i = 0; i < measures_.size(); ++i )
			pn.push_back( measures_[ i ].first, measures_[ i ].second );
''')]}),
 ('R89', ['C36'], {S: [(FIND, '''		auto iter = measures_.begin();
		for ( ; iter != measures_.end(); ++iter )
			if ( iter->first == s )
				break;
		if ( iter == measures_.end() )
			iter = measures_.insert( measures_.end(), measure_t( s, 0.0 ) );
		iter->second += now - epoch_;
'''), ('''		epoch_ = timer_.seconds();
		internal_measure_ += epoch_ - now;
''', '''		const auto done = timer_.seconds();
		internal_measure_ = internal_measure_ + ( done - now );
		epoch_ = done;
''')]}),
 ('R90', ['C31'], {P: [(WIDTH, '''			const int own = 2 * depth + static_cast< int >( child.first.length() );
			const int nested = get_align_width( child.second, depth + 1 );
			width = std::max( width, std::max( own, nested ) );
''')]}),
 ('R91', ['C31'], {P: [(LOOP, '''			const auto& node = child.second;
			str << std::left << std::setw( align ) << ( string( depth * 2, ' ' ) + child.first );
			if ( node.has_value() || node.size() == 0 )
				str << " = " << node.get_value();
			str << "\\n";
			to_stream( str, node, depth + 1, align );
''')]}),
 ('R92', ['C31'], {P: [('''		for ( auto& child : pn )
		{
			string key_str''', '''		const int next_depth = depth + 1;
		for ( auto it = pn.begin(); it != pn.end(); ++it )
		{
			auto& child = *it;
			string key_str'''), ('to_stream( str, child.second, depth + 1, align );', 'to_stream( str, child.second, next_depth, align );'), (WIDTH, '''			const int key_width = depth * 2 + int( child.first.size() );
			if ( key_width > width )
				width = key_width;
			const int child_width = get_align_width( child.second, depth + 1 );
			if ( child_width > width )
				width = child_width;
''')]}),
 ('R93', ['C24'], {F: [('{ for ( auto f : flags ) set( f ); return *this; }', '{ for ( auto it = flags.begin(); it != flags.end(); ++it ) data |= storage_bit( *it ); return *this; }'),
                       ('flag_set( std::initializer_list< EnumT > flags ) : data( StorageT( 0 ) ) { set( flags ); }', 'flag_set( std::initializer_list< EnumT > flags ) : data( 0 ) { for ( EnumT f : flags ) set( f ); }')]}),
 ('R94', ['C24'], {F: [('{ for ( auto f : flags ) clear( f ); return *this; }', '{ StorageT mask = 0; for ( auto f : flags ) mask |= storage_bit( f ); data &= ~mask; return *this; }'),
                       ('{ data = ( data & ~storage_bit( index ) ) | storage_bit( index, value ); return *this; }\n		template', '{ return value ? set( index ) : clear( index ); }\n		template'),
                       ('template< EnumT index >	bool get() const { return ( data & storage_bit( index ) ) != 0; }', 'template< EnumT index >	bool get() const { return get( index ); }')]}),
 ('R95', ['C36'], {'flut/stopwatch.hpp': [('stopwatch() : internal_measure_( 0 ), timer_() { start_first_measure(); }', 'stopwatch() : epoch_( 0 ), internal_measure_( 0.0 ) { epoch_ = timer_.seconds(); }')], S: [(FIND, '''		const seconds_t delta = now - epoch_;
		auto same_tag = [&]( const measure_t& m ) { return m.first == s; };
		auto iter = std::find_if( measures_.begin(), measures_.end(), same_tag );
		if ( iter != measures_.end() )
		{
			iter->second += delta;
		}
		else
		{
			measures_.push_back( { s, delta } );
		}
''')]}),
 ('R96', ['C37'], {FA: [(REG, '{ create_func_t make = []( Args... args ) { std::unique_ptr< T > result( new U( args... ) ); return result; }; func_map_[ name ] = make; }'),
                       (IDX, '{ flut_error_if( !has_type( type ), "Unregistered type: " + type ); return func_map_.find( type )->second; }'),
                       (TRY, '{ if ( has_type( type ) ) return create( type, args... ); return std::unique_ptr< T >(); }')]}),
 ('R97', ['C37'], {FA: [(REG, '{ auto& func = func_map_[ name ]; func = []( Args... args ) { return std::unique_ptr< T >( new U( args... ) ); }; }'),
                       (IDX, '{ for ( auto& entry : func_map_ ) if ( entry.first == type ) return entry.second; flut_error( "Unregistered type: " + type ); }'),
                       ('return func_map_.find( type ) != func_map_.end();', 'return func_map_.has_key( type );'),
                       ('return func_map_.empty();', 'return func_map_.size() == 0;')]}),
 ('R98', ['C37', 'C09'], {FA: [(IDX, '{ return func_map_.at( type ); }'), (TRY, '{ auto it = func_map_.find( type ); if ( it == func_map_.end() ) return nullptr; return it->second( args... ); }'),
                       ('return create( type, args... ); }', 'const create_func_t& func = ( *this )[ type ]; return func( args... ); }'),
                       ('return func_map_.find( type ) != func_map_.end();', 'return func_map_.count( type ) > 0;')],
     'flut/flat_map.hpp': [("""			auto it = find( key );
			if ( it == this->end() ) {
				this->emplace_back( key, V() );
				return this->back().second;
			}
			else return it->second;""", """			auto it = find( key );
			if ( it != this->end() )
				return it->second;
			this->push_back( value_type( key, V() ) );
			return this->back().second;""")]}),
 ('R99', ['C38'], {'flut/system_tools.cpp': [(TIDY, """		const size_t pos = id.rfind( ':' );
		if ( pos != string::npos )
		{
			const string name = id.substr( pos + 1 );
			return trim_str( name, "_" );
		}
		if ( id.size() >= 2 && id[ 0 ] == 'm' && id[ 1 ] == '_' )
			return trim_right_str( id.substr( 2 ), "_" );
		return trim_str( id, "_" );
"""), ('return ( pos != std::string::npos ) ? str.substr( pos + 1 ) : str;', 'if ( pos == std::string::npos ) return str;\n		return str.substr( pos + 1 );')]}),
 ('R100', ['C38'], {'flut/system_tools.cpp': [(TIDY, """		bool qualified = id.find( ':' ) != string::npos;
		if ( !qualified && id.compare( 0, 2, "m_" ) == 0 )
			return trim_right_str( mid_str( id, 2 ), "_" );
		return trim_str( qualified ? right_of_str( id, ":" ) : id, "_" );
"""), ('return ( pos != std::string::npos ) ? str.substr( pos + 1 ) : str;', 'return right_of_str( str, ": " );'), ('size_t pos = str.find_last_of( ": " );\n', '')]}),
 ('R101', ['C38'], {'flut/system_tools.cpp': [(TIDY, """		string name = id;
		size_t pos = name.find_last_of( ":" );
		if ( pos == string::npos && str_begins_with( name, "m_" ) )
		{
			name.erase( 0, 2 );
			while ( !name.empty() && name.back() == '_' )
				name.pop_back();
			return name;
		}
		if ( pos != string::npos ) name = name.substr( pos + 1 );
		return trim_str( name, "_" );
""")]}),
 ('R102', ['C39'], {'flut/math/optional.hpp': [('char_stream& operator>>( char_stream& str, optional< T >& v )\n	{ T tmp; str >> tmp; if ( !str.fail() ) v = tmp; return str; }', 'char_stream& operator>>( char_stream& str, optional< T >& v )\n	{\n		T value{};\n		str >> value;\n		if ( str.fail() )\n			return str;\n		v = std::move( value );\n		return str;\n	}'),
     ('operator bool() const { return value_ != constants<T>::sentinel(); }', 'operator bool() const { return !( value_ == constants<T>::sentinel() ); }'),
     ('optional() : has_value_( false ) {}', 'optional() : value_(), has_value_( false ) {}'),
     ('{ value_ = v; has_value_ = true; return *this; }', '{ has_value_ = true; value_ = v; return *this; }')]}),
 ('R103', ['C39'], {'flut/math/optional.hpp': [('optional< T, E >& operator=( T&& v ) { value_ = std::move( v ); has_value_ = true; return *this; }', 'optional< T, E >& operator=( T&& v ) { std::swap( value_, v ); has_value_ = true; return *this; }'),
     ('optional() : value_( constants<T>::sentinel() ) {}', 'optional() { value_ = constants<T>::sentinel(); }'),
     ('const T& operator*() const { return value_; }\n		T value_;\n		bool has_value_;', 'const T& operator*() const { return this->value_; }\n		bool has_value() const { return has_value_; }\n		T value_;\n		bool has_value_;'),
     ('char_stream& operator>>( char_stream& str, optional< T >& v )\n	{ T tmp; str >> tmp; if ( !str.fail() ) v = tmp; return str; }', 'char_stream& operator>>( char_stream& str, optional< T >& v )\n	{ T tmp; if ( !( str >> tmp ).fail() ) v = optional< T >( tmp ); return str; }')]}),
]
