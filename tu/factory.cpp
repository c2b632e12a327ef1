// verified text: flut/factory.hpp, flut/flat_map.hpp, included verbatim and instantiated
#include <algorithm>
#include <vector>
#include <string>
#include <functional>
#include <memory>
#include "flut/string_tools.hpp"
#include "flut/flat_map.hpp"
#include "flut/system_tools.hpp"
#include "flut/factory.hpp"
struct vt_B { virtual ~vt_B(); };
struct vt_D : public vt_B { vt_D( int ); };
namespace flut
{
	template class factory< vt_B, int >;
	template void factory< vt_B, int >::register_class< vt_D >( const std::string& );
}
