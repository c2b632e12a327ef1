// flags: -Dp=pattern
#include "flut/string_tools.cpp"
#undef p
#include "flut/system/path.cpp"
#include "common.hpp"
using namespace flut;
typedef std::string S;
static bool in( char c, const S& q ) { for ( char d : q ) if ( c == d ) return true; return false; }
static S trimr( const S& s, const S& q ) { size_t n = s.size(); while ( n > 0 && in( s[ n - 1 ], q ) ) --n; return S( s.begin(), s.begin() + n ); }
static S trim( const S& s, const S& q ) { S r = trimr( s, q ); size_t i = 0; while ( i < r.size() && in( r[ i ], q ) ) ++i; return S( r.begin() + i, r.end() ); }
static const S ws = " \t\r\n\f\v";
static bool matches( const S& s, const S& t, size_t at ) { if ( at + t.size() > s.size() ) return false; for ( size_t i = 0; i < t.size(); ++i ) if ( s[ at + i ] != t[ i ] ) return false; return true; }
static void one( const S& s, const S& q0, int n, size_t pos )
{
	S q( q0.c_str() );
	H::begin( "s=" + H::esc( s ) + " t=" + H::esc( q0 ) + " n=" + std::to_string( n ) + " pos=" + std::to_string( pos ) );
	long long L = s.size(), nn = n;
	{ long long k = nn >= 0 ? std::min( nn, L ) : std::max( 0ll, L + nn ); H::eqs( left_str( s, n ), S( s.begin(), s.begin() + k ), "left_str" ); }
	{ long long k = nn >= 0 ? L - std::min( nn, L ) : std::min( L, -nn ); H::eqs( right_str( s, n ), S( s.begin() + k, s.end() ), "right_str" ); }
	for ( size_t cnt : { size_t( 0 ), size_t( 1 ), size_t( 2 ), size_t( n < 0 ? -n : n ), std::string::npos } ) {
		bool thrown = false; S r; try { r = mid_str( s, pos, cnt ); } catch ( std::exception& ) { thrown = true; }
		H::eq( thrown, pos > s.size(), "mid_str throws exactly when the start lies past the end" );
		if ( !thrown ) { S w; for ( size_t i = pos; i < s.size() && i - pos < cnt; ++i ) w += s[ i ]; H::eqs( r, w, "mid_str" ); }
	}
	{ size_t w = no_index; for ( size_t i = pos; i + q0.size() <= s.size(); ++i ) if ( matches( s, q0, i ) ) { w = i; break; } H::eq( in_str( s, q0, pos ), w, "in_str" ); }
	H::eq( str_begins_with( s, q0 ), matches( s, q0, 0 ), "str_begins_with" );
	H::eq( str_ends_with( s, q0 ), s.size() >= q0.size() && matches( s, q0, s.size() - q0.size() ), "str_ends_with" );
	H::eqs( trim_str( s, q.c_str() ), trim( s, q ), "trim_str" );
	H::eqs( trim_right_str( s, q.c_str() ), trimr( s, q ), "trim_right_str" );
	H::eqs( trim_str( s ), trim( s, ws ), "trim_str (default)" );
	H::eqs( trim_right_str( s ), trimr( s, ws ), "trim_right_str (default)" );
	size_t f = s.size(), l = s.size(); for ( size_t i = 0; i < s.size(); ++i ) if ( in( s[ i ], q ) ) { if ( f == s.size() ) f = i; l = i; }
	H::eqs( left_of_str( s, q0 ), S( s.begin(), s.begin() + f ), "left_of_str" );
	H::eqs( right_of_str( s, q0 ), l == s.size() ? s : S( s.begin() + l + 1, s.end() ), "right_of_str" );
	auto kv = make_key_value_str( s, q0 );
	H::eqs( kv.first, f == s.size() ? s : trim( S( s.begin(), s.begin() + f ), ws ), "make_key_value_str key" );
	H::eqs( kv.second, f == s.size() ? S() : trim( S( s.begin() + f + 1, s.end() ), ws ), "make_key_value_str value" );
	if ( q0 == "=" ) { auto kd = make_key_value_str( s ); H::eqs( kd.first, kv.first, "make_key_value_str default key" ); H::eqs( kd.second, kv.second, "make_key_value_str default value" ); }
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all strings up to length 5 over {a,=,space,tab,b} with small second arguments, counts -6..6 and positions 0..6, then random; a case is one argument tuple" );
	std::vector< S > qs; H::all( "a= b", 2, [&]( const S& q ) { qs.push_back( q ); } );
	H::all( S( "a= \tb" ), 4, [&]( const S& s ) { int k = 0; for ( auto& q : qs ) { int n = int( ( s.size() * 7 + k * 5 ) % 13 ) - 6; one( s, q, n, size_t( k % 7 ) ); ++k; } } );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) {
		S s = H::bytes( run.r, 20 ); one( s, H::bytes( run.r, 3 ), int( run.r.below( 60 ) ) - 30, run.r.below( 30 ) );
		s = H::str( run.r, 40, "aab==  \t\r\n\f\vxyz" ); S q = H::str( run.r, 3, "ab= \tx" ); if ( run.r.below( 3 ) == 0 && !s.empty() ) q = s.substr( run.r.below( s.size() ) ); one( s, q, int( run.r.below( 100 ) ) - 50, run.r.below( 50 ) ); }
	one( "abc", "c", 2147483647, 1 ); one( "abc", "c", -2147483647, 1 );
	return run.done();
}
