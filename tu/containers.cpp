// verified text: container headers of /repo, included verbatim and instantiated with opaque element types
#include <algorithm>
#include <numeric>
#include <vector>
#include <string>
#include <iostream>
#include <unordered_map>
// element types without structure: nothing but equality, an order and a default value is known about them
namespace vt
{
	struct K { K(); K( const K& ); K& operator=( const K& ); int d; };
	struct V { V(); V( const V& ); V& operator=( const V& ); int d; };
	struct P { bool operator()( const K& ) const; };
	bool operator==( const K&, const K& ); bool operator!=( const K&, const K& ); bool operator<( const K&, const K& );
	bool operator==( const V&, const V& ); bool operator!=( const V&, const V& ); bool operator<( const V&, const V& );
	std::ostream& operator<<( std::ostream&, const K& );
}
namespace std { template<> struct hash< vt::K > { size_t operator()( const vt::K& ) const; }; }
#include "flut/string_tools.hpp"
#include "flut/container_tools.hpp"
#include "flut/flat_map.hpp"
#include "flut/sorted_vector.hpp"
#include "flut/dictionary.hpp"
#include "flut/dynarray.hpp"
#include "flut/circular_deque.hpp"
#include "flut/memoize.hpp"
namespace flut
{
	template class flat_map< vt::K, vt::V >;
	template class sorted_vector< vt::K >;
	template class dictionary< vt::K >;
	template class circular_deque< vt::V >;
	template class dynarray< vt::V >;
	template struct memoize< vt::V( vt::K ) >;
	template struct memoize< vt::V( vt::K, int ) >;
	template index_t find_index( const vector< vt::K >& vec, const vt::K& val );
	template index_t back_index( const vector< vt::K >& vec );
	template vector< index_t > sort_indices( const vector< vt::K >& );
	template vector< vt::K > sorted_copy( const vector< vt::K >& );
	template vt::K lookup( const string&, std::initializer_list< std::pair< const char*, vt::K > > );
	template dictionary< vt::K > make_dictionary( std::initializer_list< std::pair< vt::K, string > > );
	template double median( const vector< double >& );
	template double average( const vector< double >& );
	template double top_average( const vector< double >&, size_t );
	template vector< vt::K >::iterator min_element( vector< vt::K >& );
	template vector< vt::K >::const_iterator min_element( const vector< vt::K >& );
	template vector< vt::K >::iterator max_element( vector< vt::K >& );
	template vector< vt::K >::const_iterator max_element( const vector< vt::K >& );
	template struct circular_deque< vt::V >::iterator_impl< vt::V >;
	template struct circular_deque< vt::V >::iterator_impl< const vt::V >;
	template struct view_if< vector< vt::K >::iterator, vt::P >;
}
