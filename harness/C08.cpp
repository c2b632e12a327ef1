// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "common.hpp"
using namespace flut;
typedef std::string S;
static bool sep( char c ) { return c == '/' || c == '\\'; }
static void one( const S& s )
{
	H::begin( "file name " + H::esc( s ) );
	long l = -1, d = -1; for ( size_t i = 0; i < s.size(); ++i ) { if ( sep( s[ i ] ) ) { l = i; d = -1; } else if ( s[ i ] == '.' ) d = i; }
	H::eqs( get_filename_folder( s ), s.substr( 0, l + 1 ), "get_filename_folder" );
	H::eqs( get_filename_without_folder( s ), s.substr( l + 1 ), "get_filename_without_folder" );
	H::eqs( get_filename_folder( s ) + get_filename_without_folder( s ), s, "folder + name" );
	S e = d >= 0 ? s.substr( d + 1 ) : S();
	H::eqs( get_filename_ext( s ), e, "get_filename_ext" );
	H::eqs( get_filename_without_ext( s ), e.empty() ? s : s.substr( 0, d ), "get_filename_without_ext" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all names up to length 8 over {a,/,backslash,.}, then random; a case is one name" );
	H::all( "a/\\.", 7, one );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) { one( H::bytes( run.r, 20 ) ); one( H::str( run.r, 40, "abcdef/\\..  :" ) ); }
	return run.done();
}
