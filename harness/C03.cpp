// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/char_stream.cpp"
#include "common.hpp"
#include <memory>
#include <cmath>
#ifndef TOKENS
#define TOKENS 0
#endif
using namespace flut;
typedef std::string S;
// the file based constructor is not exercised
namespace flut { string load_string( const path&, error_code* ) { return string(); } }
static bool has( const S& q, char c ) { return c == 0 || q.find( c ) != S::npos; }
static std::pair< char, size_t > dec( const S& b )
{
	size_t n = b.size();
	if ( b[ 0 ] != '\\' || n == 1 ) return { b[ 0 ], 1 };
	switch ( b[ 1 ] ) { case 0: return { '?', 2 }; case '\\': return { '\\', 2 }; case '"': return { '"', 2 }; case 'r': return { '\r', 2 }; case 'n': return { '\n', 2 }; case 't': return { '\t', 2 }; }
	size_t k = 0; int v = 0;
	while ( k < 3 && 1 + k < n && b[ 1 + k ] >= '0' && b[ 1 + k ] <= '7' ) v = v * 8 + b[ 1 + k++ ] - '0';
	return { k > 0 && v < 32 ? char( v ) : '?', 1 + k };
}
struct Model {
	S b, d; size_t pos = 0; bool failed = false;
	void skip() { while ( pos < b.size() && has( d, b[ pos ] ) ) ++pos; }
	bool good() { return !failed && pos < b.size(); }
	void read( size_t k ) { if ( k == pos ) failed = true; else { pos = k; skip(); } }
	S word() { size_t k = pos; while ( k < b.size() && !has( d, b[ k ] ) ) ++k; S s = b.substr( pos, k - pos ); read( k ); return s; }
	S line() { size_t k = pos; while ( k < b.size() && b[ k ] != 0 && b[ k ] != '\r' && b[ k ] != '\n' ) ++k; S s = b.substr( pos, k - pos ); read( k ); return s; }
	template< typename T, typename F > T num( F f ) { char* e; T v = T( f( b.c_str() + pos, &e ) ); read( e - b.c_str() ); return v; }
	char get() { if ( pos >= b.size() ) return 0; return b[ pos++ ]; }
	S token( const S& ops, const S& qs ) {
		S s; size_t e = pos;
		if ( good() ) for ( ;; ) {
			if ( e >= b.size() || has( d, b[ e ] ) ) { s += b.substr( pos, e - pos ); pos = e; break; }
			if ( qs.find( b[ e ] ) != S::npos ) { // quoted part
				char q = b[ e++ ];
				while ( e < b.size() && b[ e ] != q ) if ( b[ e ] == '\\' ) { auto c = dec( b.substr( e ) ); s += c.first; e += c.second; } else s += b[ e++ ];
				if ( e < b.size() ) ++e;
				pos = e;
			}
			else if ( ops.find( b[ e ] ) != S::npos ) { if ( pos == e && s.empty() ) s = b[ e++ ]; else s += b.substr( pos, e - pos ); pos = e; break; }
			else ++e;
		}
		skip();
		return s;
	}
};
static void one( H::Rng& r, const S& text, const S& delim, bool owned )
{
	S dd( delim.c_str() );
	S desc = S( owned ? "owned " : "buffer " ) + H::esc( text ) + " delimiters " + H::esc( dd ) + " ops";
	H::begin( desc );
	Model m; m.b = owned ? text : S( text.c_str() ); m.d = dd; m.skip();
	std::unique_ptr< char[] > buf( new char[ text.size() + 1 ] ); memcpy( buf.get(), text.c_str(), text.size() + 1 );
	std::unique_ptr< char_stream > st( owned ? new char_stream( S( text ), dd.c_str() ) : new char_stream( buf.get(), dd.c_str() ) );
	char_stream& s = *st;
	std::string ops[] = { "", "=", "={}%", "a,", "\"" }, qs[] = { "\"", "", "\"'", "a", "'" };
	size_t steps = 0;
	for ( int k = 0; k < 24; ++k ) {
		size_t before = m.pos; bool wasgood = m.good();
		int op = TOKENS ? ( r.below( 8 ) ? 3 : int( r.below( 14 ) ) ) : int( r.below( 14 ) );
		desc += " " + std::to_string( op ); snprintf( H::cur(), 8000, "%s", desc.c_str() );
		switch ( op ) {
		case 0: { S x = "?"; s >> x; H::eqs( x, m.word(), "read string" ); break; }
		case 1: H::eqs( s.get_line(), m.line(), "get_line" ); break;
		case 2: { char w = m.get(); H::eq( int( s.getc() ), int( w ), "getc" ); break; }
		case 3: { size_t i = r.below( 5 ), j = r.below( 5 ); desc += ":" + ops[ i ] + ":" + qs[ j ]; snprintf( H::cur(), 8000, "%s", desc.c_str() ); S w = m.token( ops[ i ], qs[ j ] ); H::eqs( s.get_token( ops[ i ].c_str(), qs[ j ].c_str() ), w, "get_token" ); break; }
#define NUM( T, F, CALL ) { typedef T NT; NT v = NT( 7 ); s >> v; NT w = m.num< T >( [&]( const char* p, char** e ) { return CALL; } ); H::check( memcmp( &v, &w, sizeof( NT ) ) == 0 || v == w || ( v != v && w != w ), "number read as " #T ); break; }
		case 4: NUM( int, , strtol( p, e, 10 ) )
		case 5: NUM( double, , strtod( p, e ) )
		case 6: NUM( float, , strtof( p, e ) )
		case 7: NUM( long, , strtol( p, e, 10 ) )
		case 8: NUM( unsigned int, , strtoul( p, e, 10 ) )
		case 9: NUM( short, , strtol( p, e, 10 ) )
		case 10: NUM( unsigned long long, , strtoull( p, e, 10 ) )
		case 11: NUM( unsigned short, , strtoul( p, e, 10 ) )
		case 12: NUM( long long, , strtoll( p, e, 10 ) )
		case 13: NUM( unsigned long, , strtoul( p, e, 10 ) )
		}
		H::eq( s.good(), m.good(), "good" );
		H::eq( s.eof(), m.pos == m.b.size(), "eof" );
		H::eq( s.fail(), m.failed, "fail" );
		H::eq( int( s.peekc() ), int( m.pos < m.b.size() ? m.b[ m.pos ] : 0 ), "next character" );
		if ( wasgood ) H::check( m.pos > before || m.failed, "a read on a good stream must consume text or fail" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random texts over tokens, numbers, quotes, escapes, operators and delimiters, random delimiter sets, random sequences of 24 reads; a case is one text with its operation sequence" );
	H::all( S( "a \"=\\\n", 6 ), 4, [&]( const S& t ) { one( run.r, t, " \t\r\n\f\v", true ); one( run.r, t, "\n\r\t\v;", false ); } );
	const char* pieces[] = { "a", "bc", " ", "  ", "\n", "\r\n", "\"", "'", "\\", "\\n", "\\\"", "\\17", "=", "{", "}", "%", ",", "12", "-3.5e2", "0x1F", ";", "nan", "+", ".", "\t", "\"x y\"", "'q'", "99999999999999999999", "40000", "\xe9", "{1}" };
	const char* ds[] = { " \t\r\n\f\v", "\n\r\t\v;", ",", "", ", ", "a", "=\n", "\"" };
	while ( run.more() ) for ( int i = 0; i < 50; ++i ) {
		S t; size_t n = run.r.below( 14 ); for ( size_t k = 0; k < n; ++k ) { if ( run.r.below( 25 ) == 0 ) t += '\0'; else t += pieces[ run.r.below( sizeof( pieces ) / sizeof( *pieces ) ) ]; }
		one( run.r, t, ds[ run.r.below( 3 ) == 0 ? run.r.below( 8 ) : run.r.below( 2 ) ], run.r.below( 2 ) );
		one( run.r, H::bytes( run.r, 20 ), ds[ run.r.below( 8 ) ], run.r.below( 2 ) );
	}
	return run.done();
}
