// flags: -Dp=pattern -include map -include functional -include limits -include vector -include iomanip -include algorithm
#include "flut/string_tools.hpp"
#include "flut/system/log.cpp"
#include "flut/system/path.cpp"
#undef p
#include "common.hpp"
#include <memory>
using namespace flut;
struct test_sink : log::sink
{
	test_sink( log::level l ) : log::sink( l ) {}
	void send_log_message( log::level l, const string& msg ) override { got.emplace_back( int( l ), msg ); }
	std::vector< std::pair< int, std::string > > got;
};
struct model { std::unique_ptr< log::sink > s; test_sink* t; std::ostringstream* out; int level; bool registered; std::vector< std::pair< int, std::string > > expect; std::string text; };
static std::vector< std::unique_ptr< std::ostringstream > > outs;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random histories of up to 30 operations on up to 6 sinks: construction, destruction, (un)registration, level changes of one or all sinks, and messages of every form (streamed, formatted, with numbers, up to 3000 characters); every sink's record is compared after every operation" );
	auto& r = run.r;
	while ( run.more() )
	{
		std::vector< std::unique_ptr< model > > ms; std::string hist; outs.clear();
		size_t n = 1 + r.below( 30 );
		for ( size_t i = 0; i < n; ++i )
		{
			auto lev = [&]() { return log::level( 1 + r.below( 7 ) ); };
			size_t op = r.below( 12 ), k = r.below( ms.size() ? ms.size() : 1 );
			if ( op == 0 || ms.empty() ) {
				if ( ms.size() >= 6 ) continue;
				auto m = std::make_unique< model >(); log::level l = lev(); m->level = l; m->registered = true; m->t = nullptr; m->out = nullptr;
				hist += " new(" + std::to_string( l ) + ")"; H::begin( hist );
				if ( r.below( 4 ) ) { m->t = new test_sink( l ); m->s.reset( m->t ); }
				else { outs.push_back( std::make_unique< std::ostringstream >() ); m->out = outs.back().get(); m->s.reset( new log::stream_sink( l, *m->out ) ); }
				ms.push_back( std::move( m ) );
			}
			else if ( op == 1 ) { hist += " delete" + std::to_string( k ); H::begin( hist ); ms.erase( ms.begin() + k ); }
			else if ( op == 2 ) { hist += " remove" + std::to_string( k ); H::begin( hist ); log::remove_sink( ms[ k ]->s.get() ); ms[ k ]->registered = false; }
			else if ( op == 3 ) { hist += " add" + std::to_string( k ); H::begin( hist ); log::add_sink( ms[ k ]->s.get() ); ms[ k ]->registered = true; }
			else if ( op == 4 ) { auto l = lev(); hist += " level" + std::to_string( k ) + "=" + std::to_string( l ); H::begin( hist ); ms[ k ]->s->set_log_level( l ); ms[ k ]->level = l; }
			else if ( op == 5 && r.below( 2 ) ) { auto l = lev(); hist += " all=" + std::to_string( l ); H::begin( hist ); log::set_global_log_level( l ); for ( auto& m : ms ) if ( m->registered ) m->level = l; }
			else if ( op == 6 ) { hist += " get"; H::begin( hist ); auto g = log::get_global_log_level(); for ( auto& m : ms ) if ( m->registered ) H::check( g <= m->level, "global level above the level of a sink" ); }
			else {
				int l = 1 + int( r.below( 6 ) ); size_t form = r.below( 5 ); std::string a = H::str( r, r.below( 20 ) ? 12 : 3000, "ab %s{}\"\\\t" ), b = H::str( r, 5, "xyz " ); int v = int( r.below( 2000 ) ) - 1000; std::string want;
				hist += " log" + std::to_string( l ) + "." + std::to_string( form ) + H::esc( a.substr( 0, 15 ) ); H::begin( hist );
				const log::level L = log::level( l );
				if ( form == 0 ) { want = a; switch ( l ) { case 1: log::trace( a ); break; case 2: log::debug( a ); break; case 3: log::info( a ); break; case 4: log::warning( a ); break; case 5: log::error( a ); break; default: log::critical( a ); } }
				else if ( form == 1 ) { want = a + b + std::to_string( v ) + "!"; switch ( l ) { case 1: log::trace( a, b, v, "!" ); break; case 2: log::debug( a, b, v, "!" ); break; case 3: log::info( a, b, v, "!" ); break; case 4: log::warning( a, b, v, "!" ); break; case 5: log::error( a, b, v, "!" ); break; default: log::critical( a, b, v, "!" ); } }
				else if ( form == 2 ) { want = b + "=" + std::to_string( v ); log::message( L, b, '=', v ); }
				else if ( form == 3 ) { want = a + "|" + std::to_string( v ); switch ( l ) { case 1: log::tracef( "%s|%d", a.c_str(), v ); break; case 2: log::debugf( "%s|%d", a.c_str(), v ); break; case 3: log::infof( "%s|%d", a.c_str(), v ); break; case 4: log::warningf( "%s|%d", a.c_str(), v ); break; case 5: log::errorf( "%s|%d", a.c_str(), v ); break; default: log::criticalf( "%s|%d", a.c_str(), v ); } }
				else { want = a + b; log::messagef( L, "%s%s", a.c_str(), b.c_str() ); }
				for ( auto& m : ms ) if ( m->registered && l >= m->level ) { m->expect.emplace_back( l, want ); m->text += want + "\n"; }
			}
			for ( size_t j = 0; j < ms.size(); ++j ) {
				auto& m = *ms[ j ]; std::string who = "sink " + std::to_string( j ); H::eq( int( m.s->get_log_level() ), m.level, "level of a sink" );
				if ( m.out ) H::eqs( m.out->str(), m.text, ( "text written by stream " + who ).c_str() );
				else if ( m.t->got != m.expect ) {
					H::eq( m.t->got.size(), m.expect.size(), ( "number of messages received by " + who ).c_str() );
					for ( size_t q = 0; q < m.expect.size(); ++q ) { H::eq( m.t->got[ q ].first, m.expect[ q ].first, "level of a received message" ); H::eqs( m.t->got[ q ].second, m.expect[ q ].second, "text of a received message" ); }
				}
			}
		}
		ms.clear();
	}
	return run.done();
}
