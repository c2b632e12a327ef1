// verified text: flut/math/polynomial.hpp, flut/filter.hpp, flut/buffer/interpolation.hpp (with buffer_access.hpp), included verbatim and instantiated for double
#include "flut/system/types.hpp"
#include "flut/math/math.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/filter.hpp"
#include "flut/buffer/interpolation.hpp"
namespace flut
{
	template struct polynomial< double, 1 >;
	template struct polynomial< double, 2 >;
	template struct polynomial< double, 3 >;
	template double intersect_y< double >( const linear_function< double >&, double );
	template polynomial< double, 1 >::polynomial( double&&, double&& );
	template polynomial< double, 2 >::polynomial( double&&, double&&, double&& );
	template polynomial< double, 3 >::polynomial( double&&, double&&, double&&, double&& );
	namespace math { template struct regular_piecewise_linear_function< double >; }
	template struct iir_filter< double, 2 >;
	template struct iir_filter< double, 4 >;
	template iir_filter< double, 2 > make_lowpass_butterworth_2nd_order< double >( double );
	template double interpolated_value< std::vector< std::pair< double, double > > >( const std::vector< std::pair< double, double > >&, double );
	template double interpolated_value< double, double >( const std::vector< double >&, double, void* );
}
