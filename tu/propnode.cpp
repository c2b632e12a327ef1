// verified text: flut/prop_node.hpp, flut/prop_node.cpp, flut/string_tools.cpp, included verbatim; text values (std::string) instantiated
#include "flut/string_tools.cpp"
#include "flut/prop_node.cpp"
namespace flut
{
	template string prop_node::get< string >() const;
	template string prop_node::get< string >( const key_t& ) const;
	template string prop_node::get< string >( const key_t&, const string& ) const;
	template string prop_node::get_any< string >( std::initializer_list< key_t >, const string& ) const;
	template string prop_node::get_any< string >( std::initializer_list< key_t > ) const;
	template prop_node& prop_node::set< string >( const key_t&, const string& );
	template prop_node& prop_node::set< prop_node >( const key_t&, const prop_node& );
	template prop_node& prop_node::set_value< string >( const string& );
	template prop_node& prop_node::set_delimited< string >( const key_t&, const string&, const char );
	template string prop_node::get_delimited< string >( const key_t&, const char ) const;
	template prop_node& prop_node::push_back< string >( const key_t&, const string& );
	template prop_node& prop_node::operator=< string >( const string& );
}
