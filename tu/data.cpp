// verified text: data container headers of /repo, included verbatim and instantiated
#include <algorithm>
#include <numeric>
#include <vector>
#include <string>
#include <iostream>
#include <unordered_map>
namespace vt
{
	struct K { K(); K( const K& ); K& operator=( const K& ); int d; };
	struct V { V(); V( const V& ); V& operator=( const V& ); int d; };
	bool operator==( const K&, const K& ); bool operator!=( const K&, const K& );
	std::ostream& operator<<( std::ostream&, const K& );
}
namespace std { template<> struct hash< vt::K > { size_t operator()( const vt::K& ) const; }; }
#include "flut/string_tools.hpp"
#include "flut/buffer/data_header.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
#include "flut/buffer/data_algorithms.hpp"
namespace flut
{
	template struct data_header< vt::K >;
	template class storage< double, vt::K >;
	template class table< vt::V, vt::K >;
	template class circular_frame_buffer< double, vt::K >;
	template vector< double > compute_channel_means( const storage< double, string >& );
	template table< double > compute_covariance( const storage< double, string >& );
}
