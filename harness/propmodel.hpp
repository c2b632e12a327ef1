// plain model of a property tree, for comparison with flut::prop_node
#pragma once
#include "flut/string_tools.cpp"
#include "flut/prop_node.cpp"
#include "common.hpp"
struct N { std::string v; std::vector< std::pair< std::string, N > > c;
	size_t at( const std::string& k ) const { size_t i = 0; while ( i < c.size() && c[ i ].first != k ) ++i; return i; }
	bool has( const std::string& k ) const { return at( k ) < c.size(); }
	N& add( const std::string& k ) { size_t i = at( k ); if ( i == c.size() ) c.push_back( { k, N() } ); return c[ i ].second; }
	bool same( const N& o ) const { if ( v != o.v || c.size() != o.c.size() ) return false; for ( size_t i = 0; i < c.size(); ++i ) if ( c[ i ].first != o.c[ i ].first || !c[ i ].second.same( o.c[ i ].second ) ) return false; return true; }
};
inline std::string show( const N& n ) { std::string s = n.v.substr( 0, 8 ); s += "{"; for ( auto& e : n.c ) s += e.first + "=" + show( e.second ) + ","; return s + "}"; }
inline N model( const flut::prop_node& p ) { N n; n.v = p.get_value(); for ( size_t i = 0; i < p.size(); ++i ) n.c.push_back( { p.get_key( i ), model( p.get_child( i ) ) } ); return n; }
inline flut::prop_node make( const N& n ) { flut::prop_node p( n.v ); for ( auto& e : n.c ) p.push_back( e.first, make( e.second ) ); return p; }
inline void is( const flut::prop_node& p, const N& n, const char* what ) { N m = model( p ); if ( !m.same( n ) ) H::fail( std::string( what ) + ": got " + show( m ) + ", expected " + show( n ) ); }
inline std::string key( H::Rng& r ) { static const char* K[] = { "a", "b", "c", "", "item", "a b", "x.y" }; return K[ r.below( 7 ) ]; }
inline std::string val( H::Rng& r ) { static const char* K[] = { "", "1", "a value that is long enough to live on the heap", "z" }; return K[ r.below( 4 ) ]; }
inline N tree( H::Rng& r, int depth ) { N n; n.v = val( r ); if ( depth > 0 ) for ( size_t k = r.below( 4 ); k > 0; --k ) n.c.push_back( { key( r ), tree( r, depth - 1 ) } ); return n; }
template< typename F > bool throws( F f ) { try { f(); } catch ( std::exception& ) { return true; } return false; }
