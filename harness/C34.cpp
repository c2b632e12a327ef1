// flags: -Dp=pattern -include cstring -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
#include "flut/char_stream.cpp"
#include "flut/system/path.cpp"
#include "flut/prop_node_tools.cpp"
// file access and logging are not exercised
namespace flut {
	string load_string( const path&, error_code* ) { return string(); }
	namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} }
}
using namespace flut;
// independent reader of property text
struct Bad {};
struct Ref {
	std::string s; size_t i = 0;
	static bool sep( char c ) { return c && std::strchr( "\n\r\t\v;", c ); }
	static bool op( char c ) { return c && std::strchr( "={}%", c ); }
	void skip() { while ( i < s.size() && sep( s[ i ] ) ) ++i; }
	bool more() const { return i < s.size(); }
	static std::string trim( const std::string& t ) { const char* w = " \t\r\n\v\f"; size_t a = t.find_first_not_of( w ); return a == std::string::npos ? "" : t.substr( a, t.find_last_not_of( w ) - a + 1 ); }
	std::string token() {
		while ( more() && s[ i ] == '%' ) { while ( more() && s[ i ] != '\n' && s[ i ] != '\r' ) ++i; skip(); }
		std::string t;  // the quoted parts so far; unquoted text counts only behind the last quoted part
		size_t b = i;
		while ( true ) {
			if ( !more() || sep( s[ i ] ) ) { t += s.substr( b, i - b ); break; }
			char c = s[ i ];
			if ( c == '"' || c == '\'' ) {
				for ( ++i; more() && s[ i ] != c; ) t += s[ i ] == '\\' ? escape() : s[ i++ ];
				if ( more() ) ++i;
				b = i;
				if ( !more() ) break;
			}
			else if ( op( c ) ) { if ( i == b && t.empty() ) { t = c; ++i; } else t += s.substr( b, i - b ); break; }
			else ++i;
		}
		skip();
		return trim( t );
	}
	char escape() {
		size_t k = i + 1;
		if ( k >= s.size() ) { ++i; return '\\'; }
		char e = s[ k ];
		if ( e == '\\' || e == '"' ) { i += 2; return e; }
		if ( e == 'n' || e == 't' || e == 'r' ) { i += 2; return e == 'n' ? '\n' : e == 't' ? '\t' : '\r'; }
		int v = 0; for ( ; k < s.size() && k < i + 4 && s[ k ] >= '0' && s[ k ] <= '7'; ++k ) v = v * 8 + s[ k ] - '0';
		bool any = k > i + 1; i = k; return any && v < 32 ? char( v ) : '?';
	}
	static bool label( const std::string& t ) { return !t.empty() && ( ( t[ 0 ] >= 'a' && t[ 0 ] <= 'z' ) || ( t[ 0 ] >= 'A' && t[ 0 ] <= 'Z' ) ); }
	N node() {
		N n; std::string t = token();
		if ( t == "=" ) { n.v = token(); if ( more() && s[ i ] == '{' ) t = token(); }
		if ( t == "{" )
			while ( more() ) {
				t = token();
				if ( t == "}" ) break;
				if ( !label( t ) ) throw Bad();
				n.c.push_back( { t, N() } ); N k = node(); n.c.back().second = k;
			}
		return n;
	}
	N all() { N n; skip(); for ( std::string t = token(); label( t ); t = token() ) { N k = node(); n.c.push_back( { t, k } ); } return n; }
};
static std::string word( H::Rng& r )
{
	static const char* W[] = { "a", "bc", "key", "=", "=", "{", "}", "{", "}", "%", "\n", "\n", ";", " ", "\t", "\"", "'", "\"q r\"", "'x'", "\"a\\\"b\"", "1", "2.5", "% note\n", "%\n", "a = 1\n", "a = 1 {\nb = 2\n}\n", "a { b = c }\n", "\"\"", "\\n", "\\", "\"\\011\"", "\"\\q\"", "\xe9", "\r\n", "\v", "\f", "-", "\"50%\"", "k = \"{\"\n", "\" pad \"" };
	return W[ r.below( sizeof( W ) / sizeof( *W ) ) ];
}
static void one( H::Rng& r )
{
	std::string s;
	for ( size_t k = r.below( r.below( 4 ) == 0 ? 40 : 10 ); k > 0; --k ) s += word( r );
	H::begin( "parse: " + s );
	Ref f; f.s = s; N n; bool bad = false;
	try { n = f.all(); } catch ( Bad& ) { bad = true; }
	std::unique_ptr< char[] > buf( new char[ s.size() + 1 ] ); // exact size, so that reads behind the end are seen
	std::memcpy( buf.get(), s.c_str(), s.size() + 1 );
	bool got = false; prop_node q;
	try { q = parse_prop( buf.get() ); } catch ( std::exception& ) { got = true; }
	if ( got != bad ) H::fail( got ? "rejected a text that denotes " + show( n ) : "accepted a malformed text as " + show( model( q ) ) );
	if ( !bad ) is( q, n, "parse" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random property texts of labels, values, quotes, braces, comments and separators against an independent reader" );
	while ( run.more() ) one( run.r );
	return run.done();
}
