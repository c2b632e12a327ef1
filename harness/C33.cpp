// flags: -include map -include functional -include limits -include iomanip -include iostream -include cstring -Dp=pattern
#include "flut/string_tools.cpp"
#include "flut/prop_node.cpp"
#include "common.hpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
using namespace flut;
struct N { bool f; std::string k, v; std::vector< N > c; };
// child i without going through begin() (which marks the node)
static const prop_node& at( const prop_node& n, size_t i ) { return ( n.end() - n.size() + i )->second; }
static prop_node& at( prop_node& n, size_t i ) { return ( n.end() - n.size() + i )->second; }
static void grow( H::Rng& r, prop_node& n, N& m, int depth ) { static const char* ks[] = { "a", "b", "c", "a" }; m.f = false; for ( size_t i = r.below( 4 ); depth > 0 && i > 0; --i ) { std::string k = ks[ r.below( 4 ) ], v = std::string( r.below( 3 ), 'x' ); prop_node& c = n.push_back( k, prop_node( v ) ); m.c.push_back( N{ false, k, v, {} } ); grow( r, c, m.c.back(), depth - 1 ); } }
static void same( const prop_node& n, const N& m, const std::string& path ) { H::eq( n.is_accessed(), bool( m.f ), ( "mark of " + path ).c_str() ); H::check( n.size() == m.c.size(), "children of " + path ); for ( size_t i = 0; i < m.c.size(); ++i ) same( at( n, i ), m.c[ i ], path + "/" + m.c[ i ].k + "#" + std::to_string( i ) ); }
static size_t count( const N& m ) { size_t t = m.f ? 0 : 1; for ( auto& c : m.c ) t += count( c ); return t; }
static void unmark( N& m ) { m.f = false; for ( auto& c : m.c ) unmark( c ); }
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random trees up to depth 3 with repeated keys and random sequences of reads, lookups and resets: the mark of every node and the number of unmarked nodes against a model" );
	auto& r = run.r;
	while ( run.more() )
	{
		prop_node root; N model{ false, "", "", {} }; grow( r, root, model, 3 ); std::string h = "tree of " + std::to_string( count( model ) ) + " nodes:";
		H::begin( h ); same( root, model, "root" ); H::eq( root.count_unaccessed(), count( model ), "number of unread nodes in a new tree" );
		for ( size_t ops = 1 + r.below( 8 ); ops > 0; --ops )
		{
			prop_node* n = &root; N* m = &model; std::string where; while ( !m->c.empty() && r.below( 3 ) ) { size_t i = r.below( m->c.size() ); n = &at( *n, i ); m = &m->c[ i ]; where += "/" + std::to_string( i ); }
			static const char* ks[] = { "a", "b", "c", "d" }; std::string k = ks[ r.below( 4 ) ]; N* hit = nullptr; for ( auto& c : m->c ) if ( !hit && c.k == k ) hit = &c;
			const prop_node& cn = *n; size_t op = r.below( 17 ); h += " " + std::to_string( op ) + "(" + where + "," + k + ")"; H::begin( h );
			switch ( op )
			{
			case 0: H::eq( cn.get_value(), m->v, "get_value" ); m->f = true; break;
			case 1: H::eq( cn.get< std::string >(), m->v, "get" ); m->f = true; break;
			case 2: { bool t = false; try { H::eq( cn.get< std::string >( k ), hit ? hit->v : std::string(), "get key" ); } catch ( std::exception& ) { t = true; } H::eq( t, !hit, "get of a missing key throws" ); m->f = true; if ( hit ) hit->f = true; break; }
			case 3: H::eq( cn.get< std::string >( k, std::string( "dflt" ) ), hit ? hit->v : std::string( "dflt" ), "get with default" ); m->f = true; if ( hit ) hit->f = true; break;
			case 4: { bool t = false; try { cn.get_child( k ); } catch ( std::exception& ) { t = true; } H::eq( t, !hit, "get_child throws" ); m->f = true; break; }
			case 5: { bool t = false; try { n->get_child( k ); } catch ( std::exception& ) { t = true; } H::eq( t, !hit, "get_child throws" ); m->f = true; break; }
			case 6: if ( !m->c.empty() ) { cn.get_child( r.below( m->c.size() ) ); m->f = true; } break;
			case 7: if ( !m->c.empty() ) { n->get_child( r.below( m->c.size() ) ); m->f = true; } break;
			case 8: H::eq( cn.try_get_child( k ) != nullptr, hit != nullptr, "try_get_child" ); m->f = true; if ( hit ) hit->f = true; break;
			case 9: H::eq( n->try_get_child( k ) != nullptr, hit != nullptr, "try_get_child" ); m->f = true; if ( hit ) hit->f = true; break;
			case 10: { prop_node d; cn.try_get_child( k, d ); m->f = true; if ( hit ) hit->f = true; H::check( !d.is_accessed(), "the default node is not marked" ); break; }
			case 11: if ( !m->c.empty() ) { cn.get_key( r.below( m->c.size() ) ); m->f = true; } break;
			case 12: if ( hit ) { n->get_or_add_child( k ); m->f = true; hit->f = true; } break; // adding children copies their siblings, which resets marks
			case 13: n->clear_accessed_recursively(); unmark( *m ); break;
			case 14: H::eq( cn.count_unaccessed(), count( *m ), "number of unread nodes" ); break;
			case 15: { for ( auto& c : cn ) (void)c; m->f = true; break; }
			case 16: { prop_node copy( cn ); N z = *m; unmark( z ); same( copy, z, "copy" ); same( cn, *m, "copied node" ); break; }
			}
			same( root, model, "root" ); H::eq( root.count_unaccessed(), count( model ), "number of unread nodes" );
		}
	}
	return run.done();
}
