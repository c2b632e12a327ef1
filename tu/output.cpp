// verified text: the stream output operators of /repo, included verbatim and instantiated for double
#include <algorithm>
#include <numeric>
#include <vector>
#include <string>
#include <iostream>
#include "flut/math/math.hpp"
#include "flut/string_tools.hpp"
#include "flut/container_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/angle.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/bounds.hpp"
#include "flut/system/path.cpp"
namespace flut
{
	template std::ostream& operator<<( std::ostream&, const vector< double >& );
	template std::ostream& operator<<( std::ostream&, const storage< double, string >& );
	template std::ostream& operator<<( std::ostream&, const table< double >& );
	template std::ostream& operator<<( std::ostream&, const bounds< double >& );
	namespace math
	{
		template std::ostream& operator<<( std::ostream&, const vec3_< double >& );
		template std::ostream& operator<<( std::ostream&, const quat_< double >& );
		template std::ostream& operator<<( std::ostream&, const angle_< angle_unit::degrees, double >& );
	}
}
