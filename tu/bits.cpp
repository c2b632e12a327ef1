// verified text: flut/hash.hpp, flut/flag_set.hpp, included verbatim and instantiated
#include "flut/hash.hpp"
#include "flut/flag_set.hpp"
namespace flut
{
	enum class vt_flag { f0, f1, f5 = 5, f31 = 31 };
	template struct flag_set< vt_flag, unsigned int >;
	template bool flag_set< vt_flag, unsigned int >::get< vt_flag::f5 >() const;
	template flag_set< vt_flag, unsigned int >& flag_set< vt_flag, unsigned int >::set< vt_flag::f5 >( bool );
	template flag_set< vt_flag, unsigned int >& flag_set< vt_flag, unsigned int >::set< vt_flag::f5 >();
	template flag_set< vt_flag, unsigned int >& flag_set< vt_flag, unsigned int >::clear< vt_flag::f5 >();
	template struct flag_set< vt_flag, unsigned char >;
	template bool flag_set< vt_flag, unsigned char >::get< vt_flag::f5 >() const;
	template flag_set< vt_flag, unsigned char >& flag_set< vt_flag, unsigned char >::set< vt_flag::f5 >( bool );
	template flag_set< vt_flag, unsigned char >& flag_set< vt_flag, unsigned char >::set< vt_flag::f5 >();
	template flag_set< vt_flag, unsigned char >& flag_set< vt_flag, unsigned char >::clear< vt_flag::f5 >();
}
