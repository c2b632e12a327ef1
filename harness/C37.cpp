// flags: -Dp=pattern -include map -include functional -include limits -include algorithm -include iomanip
#include "flut/string_tools.hpp"
#include "flut/flat_map.hpp"
#include "flut/system_tools.hpp"
#include "flut/factory.hpp"
#include "common.hpp"
namespace flut { string clean_type_name( const char* name ) { return name; } }
using namespace flut;
struct B { virtual ~B() {} virtual int kind() const { return 0; } int a = 0; B() {} B( int v ) : a( v ) {} };
struct D1 : public B { D1( int v ) : B( v ) {} int kind() const override { return 1; } };
struct D2 : public B { D2( int v ) : B( 2 * v ) {} int kind() const override { return 2; } };
struct D3 : public B { D3( int v ) : B( v - 7 ) {} int kind() const override { return 3; } };
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random sequences of registrations (of three types, names repeated) and creations through create, try_create, operator() and operator[]; the type and the argument of every created object and every refusal are compared with an independent table" );
	auto& r = run.r;
	static const char* names[] = { "", "a", "A", "ab", "b", "a b", "type", "Type" };
	while ( run.more() )
	{
		factory< B, int > f; std::vector< std::pair< std::string, int > > ref; std::string h;
		size_t ops = 1 + r.below( 30 );
		for ( size_t o = 0; o < ops; ++o )
		{
			std::string k = names[ r.below( 8 ) ]; int v = int( r.below( 2001 ) ) - 1000, t = 0;
			for ( auto& e : ref ) if ( e.first == k ) t = e.second;
			auto same = [&]( const std::unique_ptr< B >& p, const char* how ) {
				H::check( !!p, std::string( how ) + " gives no object" );
				H::eq( p->kind(), t, ( std::string( how ) + ": type" ).c_str() ); H::eq( p->a, t == 1 ? v : t == 2 ? 2 * v : v - 7, ( std::string( how ) + ": argument" ).c_str() ); };
			switch ( r.below( 6 ) )
			{
			case 0: { int n = 1 + int( r.below( 3 ) ); h += " register " + std::to_string( n ) + " as " + H::esc( k ); H::begin( h );
				if ( n == 1 ) f.register_class< D1 >( k ); else if ( n == 2 ) f.register_class< D2 >( k ); else f.register_class< D3 >( k );
				if ( t ) { for ( auto& e : ref ) if ( e.first == k ) e.second = n; } else ref.push_back( { k, n } ); break; }
			case 1: { h += " create " + H::esc( k ); H::begin( h ); std::unique_ptr< B > p; bool thrown = false;
				try { p = f.create( k, v ); } catch ( std::exception& ) { thrown = true; }
				H::eq( thrown, t == 0, "create refuses" ); if ( t ) same( p, "create" ); break; }
			case 2: { h += " try_create " + H::esc( k ); H::begin( h ); auto p = f.try_create( k, v ); if ( t ) same( p, "try_create" ); else H::check( !p, "try_create gives an object of an unregistered type" ); break; }
			case 3: { h += " () " + H::esc( k ); H::begin( h ); std::unique_ptr< B > p; bool thrown = false;
				try { p = f( k, v ); } catch ( std::exception& ) { thrown = true; }
				H::eq( thrown, t == 0, "operator() refuses" ); if ( t ) same( p, "operator()" ); break; }
			case 4: { h += " [] " + H::esc( k ); H::begin( h ); std::unique_ptr< B > p; bool thrown = false;
				try { p = f[ k ]( v ); } catch ( std::exception& ) { thrown = true; }
				H::eq( thrown, t == 0, "operator[] refuses" ); if ( t ) same( p, "operator[]" ); break; }
			case 5: break;
			}
			for ( auto n : names ) { bool in = false; for ( auto& e : ref ) in = in || e.first == n; H::eq( f.has_type( n ), in, ( "has_type " + H::esc( n ) ).c_str() ); }
			H::eq( f.empty(), ref.empty(), "empty" );
		}
	}
	return run.done();
}
