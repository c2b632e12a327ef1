// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
using namespace flut;
static void one( N n, H::Rng& r )
{
	prop_node p = make( n );
	H::begin( show( n ) );
	is( p, n, "construction" );
	for ( int step = 0; step < 4; ++step ) {
		std::string k = key( r ), v = val( r ); size_t i = n.at( k ); bool h = i < n.c.size();
		const prop_node& cp = p;
		H::eq( cp.has_key( k ), h, "has_key" ); H::eq( size_t( cp.find( k ) - cp.begin() ), i, "find" ); H::eq( size_t( p.find( k ) - p.begin() ), i, "find" );
		H::eq( cp.size(), n.c.size(), "size" ); H::eq( cp.empty(), n.v.empty() && n.c.empty(), "empty" ); H::eq( cp.has_value(), !n.v.empty(), "has_value" );
		H::eq( cp.has_value( k ), h && !n.c[ i ].second.v.empty(), "has_value(key)" );
		H::eqs( cp.get< string >(), n.v, "get" ); H::eqs( cp.get< string >( k, "dflt" ), h ? n.c[ i ].second.v : "dflt", "get with default" );
		H::eq( throws( [&]() { cp.get< string >( k ); } ), !h, "get throws exactly when the key is absent" );
		H::eq( throws( [&]() { cp.get_child( k ); } ), !h, "get_child throws exactly when the key is absent" ); H::eq( throws( [&]() { p.get_child( k ); } ), !h, "get_child throws exactly when the key is absent" );
		H::eq( throws( [&]() { cp[ k ]; } ), !h, "const operator[] throws exactly when the key is absent" );
		H::eq( cp.try_get_child( k ) == nullptr, !h, "try_get_child" ); H::eq( p.try_get_child( k ) == nullptr, !h, "try_get_child" );
		prop_node dn; H::check( &cp.try_get_child( k, dn ) == ( h ? &cp.get_child( i ) : &dn ), "try_get_child with default" );
		if ( h ) { H::check( &cp.get_child( k ) == &cp.get_child( i ) && &p.get_child( k ) == &p.get_child( i ) && &cp[ k ] == &cp[ i ] && cp.try_get_child( k ) == &cp.get_child( i ) && p.try_get_child( k ) == &p.get_child( i ), "the first child with the key" ); H::eqs( cp.get< string >( k ), n.c[ i ].second.v, "get(key)" ); H::eqs( cp.get_key( i ), k, "get_key" ); }
		H::check( throws( [&]() { cp.get_child( n.c.size() ); } ) && throws( [&]() { p.get_child( n.c.size() + r.below( 3 ) ); } ) && throws( [&]() { cp.get_key( n.c.size() ); } ) && throws( [&]() { cp[ n.c.size() ]; } ), "a child index that does not exist is rejected" );
		{ std::vector< std::string > vs; for ( size_t q = r.below( 13 ); q > 0; --q ) vs.push_back( val( r ) ); prop_node pv; pv.set( k, v ); H::check( &pv.set( k, vs ) == &pv, "set returns the node" ); H::check( pv.size() == 1 && pv.get< std::vector< std::string > >( k ) == vs, "a stored vector is read back" ); for ( size_t q = 0; q < vs.size(); ++q ) { H::eqs( pv.get_child( k ).get_key( q ), "item" + std::to_string( q ), "key of a vector element" ); H::eqs( pv.get_child( k ).get< string >( "item" + std::to_string( q ) ), vs[ q ], "element of a stored vector" ); } }
		std::string k2 = key( r ); std::string want = n.has( k ) ? n.c[ n.at( k ) ].second.v : n.has( k2 ) ? n.c[ n.at( k2 ) ].second.v : "none";
		H::eqs( cp.get_any< string >( { k, k2 }, "none" ), want, "get_any" ); H::eq( throws( [&]() { cp.get_any< string >( { k, k2 } ); } ), !n.has( k ) && !n.has( k2 ), "get_any throws" );
		if ( n.has( k ) || n.has( k2 ) ) H::eqs( cp.get_any< string >( { k, k2 } ), want, "get_any" );
		std::vector< std::string > sel, ref; for ( auto& e : cp.select( k ) ) sel.push_back( e.second.get< string >() ); for ( auto& e : n.c ) if ( e.first == k ) ref.push_back( e.second.v ); H::check( sel == ref, "select" );
		is( p, n, "reading changes nothing" );
		N sub = tree( r, 1 ); prop_node ps = make( sub );
		switch ( r.below( 13 ) ) {
		case 0: p.set( k, v ); n.add( k ) = N{ v, {} }; break;
		case 1: p.set( k, ps ); n.add( k ) = sub; break;
		case 2: H::check( &p.push_back( k, v ) == &p.get_child( n.c.size() ), "push_back returns the new node" ); n.c.push_back( { k, N{ v, {} } } ); break;
		case 3: H::check( &p.push_back( k, ps ) == &p.get_child( n.c.size() ), "push_back returns the new node" ); n.c.push_back( { k, sub } ); break;
		case 4: H::check( &p.push_back( k ) == &p.get_child( n.c.size() ), "push_back returns the new node" ); n.c.push_back( { k, N() } ); break;
		case 5: p[ k ].set_value( v ); n.add( k ).v = v; break;
		case 6: p.set_value( string( v ) ); n.v = v; break;
		case 7: p.set( ps ); n = sub; break;
		case 8: p = v; n = N{ v, {} }; break;
		case 9: if ( n.c.size() ) { size_t j = r.below( n.c.size() ); auto it = p.erase( p.begin() + j ); H::eq( size_t( it - p.begin() ), j, "erase returns the next child" ); n.c.erase( n.c.begin() + j ); } break;
		case 10: { const prop_node& cs = ps; size_t j = r.below( n.c.size() + 1 ); auto it = p.insert( p.begin() + j, cs.begin(), cs.end() ); H::eq( size_t( it - p.begin() ), j, "insert returns the first inserted child" ); n.c.insert( n.c.begin() + j, sub.c.begin(), sub.c.end() ); } break;
		case 11: p.get_or_add_child( k ).push_back( k2, v ); n.add( k ).c.push_back( { k2, N{ v, {} } } ); break;
		case 12: if ( r.below( 8 ) == 0 ) { p.clear(); n = N(); } else { p.push_back( k, prop_node( ps ) ); n.c.push_back( { k, sub } ); } break;
		}
		is( p, n, "after an update" );
	}
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random trees up to depth 3 with repeated and empty keys; random sequences of lookups and updates" );
	while ( run.more() ) one( tree( run.r, 1 + int( run.r.below( 3 ) ) ), run.r );
	return run.done();
}
