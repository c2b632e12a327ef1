// flags: -Dp=pattern -include map -include functional -include limits -include vector -include iomanip -include algorithm -include numeric
#include "flut/math/math.hpp"
#include "flut/string_tools.hpp"
#include "flut/container_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/angle.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/bounds.hpp"
#include "flut/system/path.cpp"
#include "propmodel.hpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
#undef p
#include "common.hpp"
using namespace flut;
static size_t widest( const N& n, size_t d ) { size_t w = 0; for ( auto& e : n.c ) w = std::max( { w, 2 * d + e.first.size(), widest( e.second, d + 1 ) } ); return w; }
static std::string lines( const N& n, size_t d, size_t w ) {
	std::string s;
	for ( auto& e : n.c ) { std::string k = std::string( 2 * d, ' ' ) + e.first; k.resize( std::max( k.size(), w ), ' ' ); s += k; if ( e.second.v != "" || e.second.c.empty() ) s += " = " + e.second.v; s += "\n" + lines( e.second, d + 1, w ); }
	return s; }
static std::string num( double v ) { char b[ 64 ]; snprintf( b, 64, "%g", v ); return b; }
template< typename T > std::string text( const T& v, const std::string& before ) { std::ostringstream o; o << before; o << v; return o.str(); }
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random vectors, storages and tables with up to 6 rows and 6 columns, random property trees of depth up to 4, and random 3-vectors, quaternions, bounds, angles and paths, written to a stream that already holds text; compared with a reference text" );
	auto& r = run.r;
	auto val = [&]() { return r.below( 3 ) ? double( r.below( 20 ) ) - 10 : r.real( -1e6, 1e6 ); };
	while ( run.more() )
	{
		std::string pre = H::str( r, 3, "ab\n" ), want = pre; size_t n = r.below( 7 ), m = r.below( 7 ), kind = r.below( 9 );
		auto lab = [&]( size_t i ) { return std::string( 1, char( 'a' + i ) ) + H::str( r, 3, "xy z." ); };
		if ( kind == 0 ) { std::vector< double > v; std::string c = "vector"; for ( size_t i = 0; i < n; ++i ) { v.push_back( val() ); want += ( i ? "\t" : "" ) + num( v[ i ] ); c += " " + num( v[ i ] ); } H::begin( c ); H::eqs( text( v, pre ), want + "\n", "text of a vector" ); }
		else if ( kind == 1 ) {
			storage< double, string > s; std::string c = "storage of " + std::to_string( n ) + " frames:"; for ( size_t i = 0; i < m; ++i ) { auto l = lab( i ); s.add_channel( l ); want += l + ( i + 1 == m ? "\n" : "\t" ); c += " " + l; }
			for ( size_t f = 0; f < n; ++f ) { std::vector< double > row; for ( size_t i = 0; i < m; ++i ) { row.push_back( val() ); want += num( row[ i ] ) + ( i + 1 == m ? "\n" : "\t" ); c += " " + num( row[ i ] ); } H::begin( c ); s.add_frame( row ); }
			H::begin( c ); H::eqs( text( s, pre ), want, "text of a storage" ); }
		else if ( kind == 2 ) {
			table< double > t; std::string c = "table"; want += "Row"; for ( size_t i = 0; i < m; ++i ) { auto l = lab( i ); t.add_column( l ); want += "\t" + l; c += " " + l; } want += "\n";
			for ( size_t f = 0; f < n; ++f ) { auto l = lab( f ); H::begin( c ); t.add_row( l ); want += l; c += " / " + l; for ( size_t i = 0; i < m; ++i ) { double x = val(); t( f, i ) = x; want += "\t" + num( x ); c += " " + num( x ); } want += "\n"; }
			H::begin( c ); H::eqs( text( t, pre ), want, "text of a table" ); }
		else if ( kind == 8 ) { N t = tree( r, 1 + r.below( 4 ) ); H::begin( "tree " + show( t ) ); H::eqs( text( make( t ), pre ), pre + lines( t, 0, widest( t, 0 ) ), "text of a property tree" ); }
		else {
			double a = val(), b = val(), c = val(), d = val(); std::string ca = " " + num( a ) + " " + num( b ) + " " + num( c ) + " " + num( d );
			if ( kind == 3 ) { H::begin( "vec3" + ca ); H::eqs( text( math::vec3_< double >( a, b, c ), pre ), pre + num( a ) + " " + num( b ) + " " + num( c ), "text of a vec3" ); }
			if ( kind == 4 ) { H::begin( "quat" + ca ); H::eqs( text( math::quat_< double >( a, b, c, d ), pre ), pre + ca.substr( 1 ), "text of a quaternion" ); }
			if ( kind == 5 ) { H::begin( "bounds" + ca ); H::eqs( text( bounds< double >( a, b ), pre ), pre + num( a ) + " " + num( b ), "text of bounds" ); }
			if ( kind == 6 ) { H::begin( "angle" + ca ); H::eqs( text( math::angle_< math::angle_unit::degrees, double >( a ), pre ), pre + num( a ), "text of an angle" ); }
			if ( kind == 7 ) { std::string f = H::str( r, 10, "ab/. " ); H::begin( "path " + H::esc( f ) ); H::eqs( text( path( f ), pre ), pre + path( f ).str(), "text of a path" ); }
		}
	}
	return run.done();
}
