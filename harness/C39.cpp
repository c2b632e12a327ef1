// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include sstream
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "flut/char_stream.cpp"
#include "flut/math/math.hpp"
#include "flut/math/optional.hpp"
#include "common.hpp"
namespace flut { string load_string( const path&, error_code* ) { return string(); } }
using namespace flut;
template< typename T, typename G > void run_one( H::Rng& r, const char* what, G gen, T bad )
{
	std::string h = what; H::begin( h );
	optional< T > o; bool has = false; T val{};
	for ( size_t n = r.below( 9 ); n > 0; --n )
	{
		T v = gen();
		switch ( r.below( 7 ) )
		{
		case 0: h += " construct"; H::begin( h ); { optional< T > q( v ); o = q; has = true; val = v; } break;
		case 1: h += " move construct"; H::begin( h ); { T w = v; optional< T > q( std::move( w ) ); o = q; has = true; val = v; } break;
		case 2: h += " assign"; H::begin( h ); if ( r.below( 2 ) ) o = v; else { T w = v; o = std::move( w ); } has = true; val = v; break;
		case 3: h += " clear"; H::begin( h ); o = optional< T >(); has = false; break;
		case 4: { std::ostringstream s; s << v; h += " read " + H::esc( s.str() ); H::begin( h ); char_stream cs( s.str() + " x" ); T raw{}; char_stream( s.str() + " x" ) >> raw; cs >> o; if ( !cs.fail() ) { has = true; val = raw; } break; }
		case 5: { h += " read nothing"; H::begin( h ); char_stream cs( r.below( 2 ) ? "" : "   " ); cs >> o; T raw{}; char_stream c2( "" ); c2 >> raw; H::check( cs.fail() == c2.fail(), "end of text" ); if ( !cs.fail() ) { has = bool( o ); val = *o; } break; }
		case 6: { h += " read with istream"; H::begin( h ); std::istringstream s( r.below( 2 ) ? "" : "   " ); s >> o; break; }
		}
		H::eq( bool( o ), has && !( val == bad ), "has a value" );
		if ( has ) H::check( *o == val, "value" );
		optional< T > c( o ); H::eq( bool( c ), bool( o ), "a copy has a value" ); if ( has ) H::check( *c == *o, "value of a copy" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random sequences of construction, assignment, clearing and reading of optional int, size_t, double and string, compared with a separate flag and value" );
	auto& r = run.r;
	while ( run.more() )
	{
		run_one< int >( r, "int", [&]() { int c[] = { 0, 1, -1, 2147483647, -2147483647, (int)r.below( 1000 ) }; return c[ r.below( 6 ) ]; }, constants< int >::sentinel() );
		run_one< size_t >( r, "size_t", [&]() { size_t c[] = { 0, 1, 18446744073709551614ull, r.below( 1000 ) }; return c[ r.below( 4 ) ]; }, constants< size_t >::sentinel() );
		run_one< double >( r, "double", [&]() { double c[] = { 0, -0.0, 1.5, -1e300, 1e-300, (double)r.below( 1000 ) }; return c[ r.below( 6 ) ]; }, std::numeric_limits< double >::quiet_NaN() );
		run_one< std::string >( r, "string", [&]() { return std::string( 1 + r.below( 4 ), char( 'a' + r.below( 3 ) ) ); }, std::string( "\1" ) );
	}
	return run.done();
}
