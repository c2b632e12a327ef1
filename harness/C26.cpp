// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include iostream -include algorithm
#include "propmodel.hpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
using namespace flut;
static void tweak( N& n, H::Rng& r ) { if ( n.c.size() && r.below( 3 ) ) { tweak( n.c[ r.below( n.c.size() ) ].second, r ); return; } switch ( r.below( 4 ) ) { case 0: n.v += "x"; break; case 1: n.c.push_back( { "a", N() } ); break; case 2: if ( n.c.size() ) n.c.pop_back(); break; case 3: if ( n.c.size() ) n.c[ 0 ].first += "q"; break; } }
static prop_node* pick( prop_node& p, H::Rng& r ) { prop_node* q = &p; while ( q->size() && r.below( 3 ) ) q = &q->get_child( r.below( q->size() ) ); return q; }
static void one( N n, H::Rng& r )
{
	N m = r.below( 2 ) ? n : tree( r, 2 ); if ( r.below( 2 ) ) tweak( m, r );
	H::begin( show( n ) + " / " + show( m ) );
	prop_node p = make( n ), q = make( m );
	H::eq( p == q, n.same( m ), "==" ); H::eq( p != q, !n.same( m ), "!=" ); H::eq( q == p, n.same( m ), "==" ); H::check( p == p, "== itself" );
	prop_node c( p ); is( c, n, "copy" ); prop_node d( &p ); is( d, n, "copy" ); prop_node e( std::move( c ) ); is( e, n, "move" );
	q = p; is( q, n, "assignment" ); is( p, n, "assignment keeps its source" );
	q.push_back( "new", string( "1" ) ); if ( q.size() > 1 ) q.get_child( 0 ).set_value( string( "changed" ) ); is( p, n, "a copy is independent of its source" );
	q = p; q = q; is( q, n, "self assignment" ); q = std::move( e ); is( q, n, "move assignment" );
	prop_node* s = pick( q, r ); N sn = model( *s ); q = *s; is( q, sn, "assignment from a descendant" );
	q = p; s = pick( q, r ); sn = model( *s ); std::string k = key( r ); N want = n; want.add( k ) = sn; q.set( k, *s ); is( q, want, "set from a descendant" );
	q = p; s = pick( q, r ); sn = model( *s ); want = n; want.c.push_back( { k, sn } ); q.push_back( k, *s ); is( q, want, "push_back of a descendant" );
}
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random pairs of trees up to depth 3, half of them equal or differing in one place; copies, moves, assignments from descendants" );
	while ( run.more() ) one( tree( run.r, 1 + int( run.r.below( 3 ) ) ), run.r );
	return run.done();
}
