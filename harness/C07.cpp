#include "flut/system/path.cpp"
#include "common.hpp"
using flut::path;
typedef std::string S;
static bool sep( char c ) { return c == '/' || c == '\\'; }
static long lsp( const S& s ) { for ( long i = long( s.size() ) - 1; i >= 0; --i ) if ( sep( s[ i ] ) ) return i; return -1; }
static long dot( const S& s ) { for ( long i = long( s.size() ) - 1; i > lsp( s ); --i ) if ( s[ i ] == '.' ) return i; return -1; }
static S par( const S& s ) { return lsp( s ) >= 0 ? s.substr( 0, lsp( s ) ) : S(); }
static S fn( const S& s ) { return s.substr( lsp( s ) + 1 ); }
static S ext( const S& s ) { return dot( s ) >= 0 ? s.substr( dot( s ) + 1 ) : S(); }
static S join( const S& a, const S& b ) { bool has = !a.empty() && !sep( a.back() ); return has ? a + "/" + b : a + b; }
static void one( const S& a, const S& b )
{
	H::begin( "path " + H::esc( a ) + " with " + H::esc( b ) );
	const path p( a ); const path q( b );
	H::eqs( p.str(), a, "str" ); H::eqs( p.string(), a, "string" ); H::eq( S( p.c_str() ), S( a.c_str() ), "c_str" ); H::eq( p.empty(), a.empty(), "empty" );
	H::eqs( p.parent_path().str(), par( a ), "parent_path" );
	H::eqs( p.filename().str(), fn( a ), "filename" );
	H::eqs( p.extension().str(), ext( a ), "extension" );
	H::eqs( p.stem().str(), dot( a ) >= 0 ? fn( a ).substr( 0, fn( a ).size() - ext( a ).size() - 1 ) : fn( a ), "stem" );
	H::eq( p.has_filename(), !a.empty() && !sep( a.back() ), "has_filename" );
	H::eq( p.has_parent_path(), lsp( a ) >= 0, "has_parent_path" );
	{ path x( a ); H::check( &x.remove_filename() == &x, "chaining" ); H::eqs( x.str(), par( a ), "remove_filename" ); }
	{ path x( a ); H::check( &x.replace_filename( q ) == &x, "chaining" ); H::eqs( x.str(), join( par( a ), b ), "replace_filename" ); }
	{ path x( a ); H::check( &x.replace_extension( q ) == &x, "chaining" ); S base = dot( a ) >= 0 ? a.substr( 0, dot( a ) ) : a; H::eqs( x.str(), b.empty() ? base : base + "." + b, "replace_extension" ); }
	{ path x( a ); x.replace_extension(); H::eqs( x.str(), dot( a ) >= 0 ? a.substr( 0, dot( a ) ) : a, "replace_extension()" ); }
	{ path x( a ); H::check( &x.make_preferred() == &x, "chaining" ); S w = a; for ( auto& c : w ) if ( c == '\\' ) c = '/'; H::eqs( x.str(), w, "make_preferred" ); }
	{ path x( a ); H::check( &( x /= q ) == &x, "chaining" ); H::eqs( x.str(), join( a, b ), "/= path" ); }
	{ path x( a ); x /= b; H::eqs( x.str(), join( a, b ), "/= string" ); }
	{ path x( a ); x /= x; H::eqs( x.str(), join( a, a ), "/= itself" ); }
	H::eqs( ( p / q ).str(), join( a, b ), "path / path" );
	H::eqs( ( p / b ).str(), join( a, b ), "path / string" );
	H::eqs( ( p / b.c_str() ).str(), join( a, S( b.c_str() ) ), "path / char*" );
	H::eqs( ( p + b ).str(), a + b, "path + string" ); H::eqs( ( b + p ).str(), b + a, "string + path" );
	H::eq( p == q, a == b, "==" ); H::eq( p != q, a != b, "!=" ); H::check( p == path( a ) && !( p != path( a ) ), "reflexive ==" );
	path cp( p ); H::check( cp == p, "copy" ); path mv( std::move( cp ) ); H::check( mv == p, "move" ); cp = p; H::check( cp == p, "assign" ); mv = b; H::eqs( mv.str(), b, "assign string" ); mv = path( a ); H::eqs( mv.str(), a, "move assign" );
	H::eqs( flut::string_cast< path >::from( a ).str(), a, "string_cast from" ); H::eqs( flut::string_cast< path >::to( p ), a, "string_cast to" );
	// laws
	if ( lsp( b ) < 0 ) H::eqs( ( p / q ).filename().str(), b, "filename of p / name" );
	if ( lsp( b ) < 0 && b.find( '.' ) == S::npos && !b.empty() ) { path x( a ); x.replace_extension( q ); H::eqs( x.extension().str(), b, "extension after replace_extension" ); }
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "all paths up to length 6 over {a,/,backslash,.} with a second operand from a small pool, all pairs up to length 3, then random; a case is a pair of paths" );
	std::vector< S > small; H::all( "a/\\.", 3, [&]( const S& s ) { small.push_back( s ); } );
	for ( auto& a : small ) for ( auto& b : small ) one( a, b );
	size_t k = 0; H::all( "a/\\.", 6, [&]( const S& s ) { one( s, small[ k++ % small.size() ] ); } );
	while ( run.more() ) for ( int i = 0; i < 200; ++i ) { one( H::bytes( run.r, 20 ), H::bytes( run.r, 5 ) ); one( H::str( run.r, 40, "abcdef/\\..  :" ), H::str( run.r, 10, "abc/\\.." ) ); }
	return run.done();
}
