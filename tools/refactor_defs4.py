"""behaviour-preserving edits of the property text code"""
P = 'flut/prop_node_tools.cpp'
GT = '''		while ( str.peekc() == '%' )
			str.get_line(); // comment: skip rest of line
		return trim_str( str.get_token( "={}%", "\\"'" ) );
'''
LOOP = '''			while ( str.good() && t != "}" )
			{
				t = get_prop_token( str );
				if ( is_valid_prop_label( t ) )
					read_prop_node( str, parent.push_back( t ) );
				else if ( t != "}" )
					flut_error( "Invalid token: " + t );
			}
'''
TOP = '''		string t = get_prop_token( str );
		while ( is_valid_prop_label( t ) )
		{
			read_prop_node( str, root.push_back( t ) );
			t = get_prop_token( str );
		}
		return root;
'''
WR = '''			for ( auto& node : pn )
				write_prop_none( str, node.first, node.second, level + 1, readable );
			str'''
B = ['C34', 'C35']
DEFS4 = [
 ('R74', B, {P: [(GT, '''		for ( ;; )
		{
			if ( str.peekc() != '%' )
				break;
			str.get_line();
		}
		auto token = str.get_token( "={}%", "\\"'" );
		return trim_str( token );
''')]}),
 ('R75', ['C35'], {P: [('''	static string quoted_prop_str( const string& s )
	{
		// characters with a special meaning must be quoted
		return s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : try_quoted( s );
	}
''', '''	static string quoted_prop_str( const string& s )
	{
		if ( s.find_first_of( "={}%;'" ) == string::npos )
			return try_quoted( s );
		return quoted( s );
	}
''')]}),
 ('R76', B, {P: [('		return ( s.size() > 0 && isalpha( (unsigned char)s[ 0 ] ) );', '''		if ( s.empty() )
			return false;
		return isalpha( (unsigned char)s.front() ) != 0;''')]}),
 ('R77', B, {P: [('	void read_prop_node( char_stream& str, prop_node& parent )\n', '''	void read_prop_node( char_stream& str, prop_node& parent );

	static void read_prop_children( char_stream& str, prop_node& parent )
	{
		string t;
''' + LOOP.replace('\n\t', '\n').replace('\t\t\twhile', '\t\twhile', 1) + '''	}

	void read_prop_node( char_stream& str, prop_node& parent )
'''), ('		if ( t == "{" )\n		{\n' + LOOP + '		}\n', '		if ( t == "{" )\n			read_prop_children( str, parent );\n')]}),
 ('R78', B, {P: [(TOP, '''		for ( string t = get_prop_token( str ); is_valid_prop_label( t ); t = get_prop_token( str ) )
			read_prop_node( str, root.push_back( t ) );
		return root;
''')]}),
 ('R79', ['C35'], {P: [(WR, '''			for ( auto it = pn.begin(); it != pn.end(); ++it )
				write_prop_none( str, it->first, it->second, level + 1, readable );
			str''')]}),
 ('R80', B, {P: [(LOOP, '''			while ( str.good() )
			{
				t = get_prop_token( str );
				if ( t == "}" )
					break;
				if ( !is_valid_prop_label( t ) )
					flut_error( "Invalid token: " + t );
				prop_node& child = parent.push_back( t );
				read_prop_node( str, child );
			}
''')]}),
 ('R81', ['C35'], {P: [('		if ( pn.size() > 0 )\n		{\n			str << indent << "{" << newline; // #TODO only do newline when needed\n' + WR + ' << indent << "}" << newline;\n		}\n',
  '''		if ( pn.size() == 0 )
			return;
		str << indent << "{" << newline;
		for ( auto& node : pn )
			write_prop_none( str, node.first, node.second, level + 1, readable );
		str << indent << "}";
		str << newline;
''')]}),
 ('R82', ['C35'], {P: [('''		if ( pn.has_value() || pn.empty() )
			str << assign << ( pn.empty() ? "\\"\\"" : quoted_prop_str( pn.get_value() ) );
''', '''		const bool is_empty = pn.empty();
		if ( is_empty )
			str << assign << "\\"\\"";
		else if ( pn.has_value() )
		{
			string v = quoted_prop_str( pn.get_value() );
			str << assign << v;
		}
''')]}),
 ('R83', B, {P: [('''		if ( t == "=" )
		{
			parent.set_value( get_prop_token( str ) );
''', '''		if ( t == "=" )
		{
			string v = get_prop_token( str );
			parent.set_value( std::move( v ) );
''')]}),
 ('R84', B, {P: [('''		if ( t == "=" )
		{
			parent.set_value( get_prop_token( str ) );
''', '''		const bool has_assign = ( t == "=" );
		if ( has_assign )
		{
			auto v = get_prop_token( str );
			parent.set_value( v );
''')]}),
 ('R85', B, {P: [(TOP, '''		while ( true )
		{
			const string label = get_prop_token( str );
			if ( !is_valid_prop_label( label ) )
				return root;
			read_prop_node( str, root.push_back( label ) );
		}
''')]}),
 ('R86', ['C28'], {P: [('''			auto it = pn.find( o.first );
			if ( it == pn.end() )
				pn.push_back( o.first, o.second );
			else if ( overwrite )
				it->second = o.second;
''', '''			const auto& key = o.first;
			auto it = pn.find( key );
			const bool found = it != pn.end();
			if ( found && overwrite )
				it->second = o.second;
			else if ( !found )
				pn.push_back( key, o.second );
''')]}),
]
