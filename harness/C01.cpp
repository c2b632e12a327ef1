// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "common.hpp"
using namespace flut;
static void one( const std::string& s )
{
	H::begin( "string " + H::esc( s ) );
	auto q = quoted( s );
	H::check( q.size() >= 2 && q.front() == '"' && q.back() == '"', "quoted text is not enclosed in quotes" );
	for ( size_t i = 0; i < q.size(); ++i ) H::check( (unsigned char)q[ i ] >= 32, "quoted text contains a control character" );
	// inner quotes are escaped
	for ( size_t i = 1; i + 1 < q.size(); ++i ) { if ( q[ i ] == '\\' ) ++i; else H::check( q[ i ] != '"', "unescaped quote inside quoted text" ); }
	H::eqs( try_unquoted( q ), s, "try_unquoted( quoted( s ) )" );
	bool nq = false; for ( unsigned char c : s ) if ( c < 33 || c == '"' || c == '\\' ) nq = true;
	H::eq( needs_quotes( s ), nq, "needs_quotes" );
	auto tq = try_quoted( s );
	H::eqs( tq, nq ? q : s, "try_quoted" );
	H::eqs( try_unquoted( tq ), s, "try_unquoted( try_quoted( s ) )" );
	// concatenation of encoded characters
	std::string e = "\""; for ( char c : s ) e += encode_char( c ); e += "\"";
	H::eqs( e, q, "concatenated encode_char" );
	size_t pos = 0; std::string body = q.substr( 1, q.size() - 2 ), back;
	while ( pos < body.size() ) { int len = -7; char c = decode_char( body.c_str() + pos, body.size() - pos, &len ); H::check( len >= 1 && size_t( len ) <= body.size() - pos, "decode_char length" ); back += c; pos += len; }
	H::eqs( back, s, "decode_char over encoded text" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all strings up to length 2 over all bytes, up to length 5 over special characters, then random byte strings; every case is a distinct string" );
	std::string ab; for ( int i = 0; i < 256; ++i ) ab += char( i );
	H::all( ab, 2, one );
	H::all( std::string( "\"\\\0\n\r\t0719a \x1f\x7f\x80\xff", 16 ), 4, one );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) { one( H::bytes( run.r, 40 ) ); one( H::str( run.r, 60, std::string( "\"\\\0\n\r\t0123456789abnrt \x01\x1f\x80\xff", 24 ) ) ); }
	return run.done();
}
