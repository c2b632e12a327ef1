// verified text: flut/stopwatch.cpp, flut/stopwatch.hpp, flut/prop_node.hpp, flut/string_tools.cpp, included verbatim
#include "flut/string_tools.cpp"
#include "flut/stopwatch.cpp"
namespace flut
{
	template prop_node& prop_node::push_back< double >( const key_t&, const double& );
}
