// verified text: flut/math/optional.hpp and the char_stream it reads from, included verbatim and instantiated
#include "flut/string_tools.cpp"
#undef p
#include "flut/char_stream.cpp"
#include "flut/math/math.hpp"
#include "flut/math/optional.hpp"
// constants of the standard library, whose declarations are not part of the extracted text: their values are settled by the compiler
static_assert( std::numeric_limits< int >::is_signed && !std::numeric_limits< size_t >::is_signed, "" );
namespace flut
{
	inline bool vt_true_1() { return std::numeric_limits< int >::is_signed; }
	inline bool vt_false_1() { return std::numeric_limits< size_t >::is_signed; }
	template struct optional< int >;
	template struct optional< size_t >;
	template struct optional< std::string >;
	template char_stream& operator>>( char_stream&, optional< int >& );
	template char_stream& operator>>( char_stream&, optional< size_t >& );
	template char_stream& operator>>( char_stream&, optional< std::string >& );
}
