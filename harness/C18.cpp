// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
#include "common.hpp"
#include <deque>
using namespace flut;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences on circular_frame_buffer<double,string> with 1..5 buffered frames and 0..3 channels: add_frame, add_channel, find_or_add_channel, set_label, resize_buffer, writes to the current frame; every buffered frame is compared with the full history" );
	auto& r = run.r; const std::vector< std::string > names{ "a", "b", "c", "d" };
	while ( run.more() )
	{
		size_t nb = 1 + r.below( 5 ), nc = r.below( 4 ); std::string hist = "buffer(" + std::to_string( nc ) + " channels," + std::to_string( nb ) + " frames)"; H::begin( hist );
		circular_frame_buffer< double, std::string > s( nc, nb ); std::vector< std::string > lab( nc );
		// slot contents: value of (frame modulo nb, channel)
		std::vector< std::vector< double > > slot( nb, std::vector< double >( nc, 0. ) ); size_t frames = 0; double v = 0;
		auto find = [&]( const std::string& n ) -> size_t { for ( size_t i = 0; i < lab.size(); ++i ) if ( lab[ i ] == n ) return i; return no_index; };
		auto reset = [&]( double x ) { slot.assign( nb, std::vector< double >( nc, x ) ); };
		size_t ops = 1 + r.below( 25 );
		for ( size_t o = 0; o < ops; ++o )
		{
			v += 1; auto n = names[ r.below( names.size() ) ]; bool t = false;
			switch ( r.below( 14 ) )
			{
			default: { hist += " add_frame"; H::begin( hist ); H::eq( s.add_frame(), frames + 1, "add_frame" ); ++frames; break; }
			case 0: if ( r.below( 3 ) == 0 && find( n ) == no_index ) { hist += " add_channel(" + n + ")"; H::begin( hist ); H::eq( s.add_channel( n ), nc, "index of the added channel" ); ++nc; lab.push_back( n ); reset( 0 ); } break;
			case 1: if ( r.below( 3 ) == 0 ) { hist += " find_or_add_channel(" + n + ")"; H::begin( hist ); size_t e = find( n ), res = s.find_or_add_channel( n ); H::eq( res, e == no_index ? nc : e, "find_or_add_channel" ); if ( e == no_index ) { ++nc; lab.push_back( n ); reset( 0 ); } } break;
			case 2: { size_t c = r.below( nc + 1 ); hist += " set_label(" + std::to_string( c ) + "," + n + ")"; H::begin( hist ); bool bad = c >= nc || find( n ) != no_index; try { s.set_label( c, n ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "set_label" ); if ( !t ) lab[ c ] = n; break; }
			case 3: if ( r.below( 4 ) == 0 ) { nb = 1 + r.below( 5 ); size_t c = nc + r.below( 2 ); hist += " resize_buffer(" + std::to_string( nb ) + "," + std::to_string( c ) + ")"; H::begin( hist ); s.resize_buffer( nb, c, v ); nc = c; lab.resize( nc ); reset( v ); } break;
			case 4: case 5: case 6: case 7: case 8: if ( frames && nc ) { size_t c = r.below( nc ); size_t back = r.below( std::min( frames, nb ) ); size_t f = frames - 1 - back; hist += " write(frame " + std::to_string( f ) + "," + std::to_string( c ) + ")"; H::begin( hist );
				switch ( r.below( 4 ) ) { case 0: s( f, c ) = v; break; case 1: s.at( f, c ) = v; break; case 2: s.reverse( back, c ) = v; break; default: if ( back == 0 ) s[ c ] = v; else s( f, c ) = v; } slot[ f % nb ][ c ] = v; } break;
			}
			const auto& cs = s; H::eq( cs.frame_size(), frames, "frame_size" ); H::eq( cs.channel_size(), nc, "channel_size" ); H::eq( cs.empty(), nc == 0, "empty" );
			for ( size_t c = 0; c < nc; ++c ) H::eqs( cs.get_label( c ), lab[ c ], "label" );
			for ( auto& q : names ) H::eq( cs.find_channel( q ), find( q ), "find_channel" );
			for ( size_t f = 0; f < frames + 2; ++f ) for ( size_t c = 0; c < nc + 1; ++c ) {
				bool live = f < frames && f + nb >= frames && c < nc; int t2 = 0; double a = 0, b = 0;
				try { a = s.at( f, c ); } catch ( std::exception& ) { ++t2; } try { b = cs.at( f, c ); } catch ( std::exception& ) { ++t2; }
				H::eq( t2, live ? 0 : 2, "at() throws exactly outside the buffered frames" );
				if ( live ) { double e = slot[ f % nb ][ c ]; H::eq( a, e, "at" ); H::eq( b, e, "const at" ); H::eq( s( f, c ), e, "cell" ); H::eq( cs( f, c ), e, "const cell" ); H::eq( s.reverse( frames - 1 - f, c ), e, "reverse" ); H::eq( cs.reverse( frames - 1 - f, c ), e, "const reverse" ); if ( f + 1 == frames ) { H::eq( s[ c ], e, "last" ); H::eq( cs[ c ], e, "const last" ); }
					double w = double( r.below( 5 ) ) / 4; double g = s.get_interpolated_value( f, c, w ), x = ( 1 - w ) * e + w * slot[ ( f + 1 ) % nb ][ c ]; H::check( std::fabs( g - x ) < 1e-9 * ( 1 + std::fabs( x ) ), "interpolated value" ); }
				else { bool t3 = false; try { s.get_interpolated_value( f, c, 0.5 ); } catch ( std::exception& ) { t3 = true; } H::check( t3, "interpolation outside the buffered frames throws" ); } }
		}
	}
	return run.done();
}
