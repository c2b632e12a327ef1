// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "common.hpp"
using namespace flut;
static void one( const std::string& s, const std::string& q )
{
	H::begin( "split_str( " + H::esc( s ) + ", " + H::esc( q ) + " )" );
	std::vector< std::string > w; std::string t; bool in = false;
	std::string qq( q.c_str() );
	for ( char c : s ) { if ( qq.find( c ) != std::string::npos ) { if ( in ) w.push_back( t ); t.clear(); in = false; } else { t += c; in = true; } }
	if ( in ) w.push_back( t );
	auto r = split_str( s, q );
	H::eq( r.size(), w.size(), "number of tokens" );
	for ( size_t i = 0; i < w.size(); ++i ) H::eqs( r[ i ], w[ i ], "token" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all (string, separators) with string up to length 7 over {a,b,',',' ',;} and seven separator sets, then random" );
	for ( auto q : { ",", "", ", ", "a", "ab", ";, ", "abc,; " } ) H::all( "ab, ;", 6, [&]( const std::string& s ) { one( s, q ); } );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) { one( H::bytes( run.r, 30 ), H::bytes( run.r, 5 ) ); one( H::str( run.r, 80, "abcdefg,,, ;;\t" ), H::str( run.r, 4, "abcd, ;\t" ) ); }
	return run.done();
}
