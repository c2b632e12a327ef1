// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include ctime -include cxxabi.h
#include "flut/string_tools.cpp"
#include "flut/system/path.cpp"
#include "flut/system/log.cpp"
#include "flut/system_tools.cpp"
#include "common.hpp"
using namespace flut;
namespace vt { struct thing {}; namespace inner { struct deep_thing {}; struct t1 { struct t2 {}; }; } }
struct global_thing {};
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random names of up to 10 characters rich in colons, underscores and m: the tidied name is compared with an independent account of what is decoration; names of six types without their namespaces" );
	auto& r = run.r;
	while ( run.more() )
	{
		static const char al[] = "____::mmab_x9 .";
		std::string s; for ( size_t n = r.below( 11 ); n > 0; --n ) s += al[ r.below( sizeof( al ) - 1 ) ];
		H::begin( H::esc( s ) );
		size_t b = 0, e = s.size(); bool q = false;
		for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == ':' ) { b = i + 1; q = true; }
		if ( !q && s.size() >= 2 && s[ 0 ] == 'm' && s[ 1 ] == '_' ) b = 2;
		else while ( b < e && s[ b ] == '_' ) ++b;
		while ( e > b && s[ e - 1 ] == '_' ) --e;
		H::eqs( tidy_identifier( s ), s.substr( b, e - b ), "tidy_identifier" );
		H::eqs( clean_type_name< vt::thing >(), "thing", "clean_type_name" );
		H::eqs( clean_type_name< vt::inner::deep_thing >(), "deep_thing", "clean_type_name" );
		H::eqs( clean_type_name< vt::inner::t1::t2 >(), "t2", "clean_type_name" );
		H::eqs( clean_type_name< global_thing >(), "global_thing", "clean_type_name" );
		H::eqs( clean_type_name< unsigned int >(), "int", "clean_type_name" );
		H::eqs( clean_type_name< double >(), "double", "clean_type_name" );
	}
	return run.done();
}
