// flags: -include map -include functional -include limits -include algorithm -include numeric -include iomanip
#include "flut/string_tools.hpp"
#include "flut/system/assert.hpp"
#include "flut/storage.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include "common.hpp"
using namespace flut;
typedef std::vector< std::vector< double > > M;     // frames of channels
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random operation sequences on storage<double>: construction, add_channel (value and data), find_or_add_channel, add_frame (value and data), resize, set_label, writes by (frame,channel), [channel], [label], of vectors and quaternions, clear; all cells, labels, bounds checks, interpolated values and channel means compared with a matrix" );
	auto& r = run.r; const std::vector< std::string > names{ "a", "b", "c", "d", "e", "f.x", "time" };
	while ( run.more() )
	{
		M m; std::vector< std::string > lab; size_t nch = 0; std::string hist; storage< double > s; 
		if ( r.below( 2 ) ) { size_t f = r.below( 4 ), c = r.below( 4 ); hist = "storage(" + std::to_string( f ) + "," + std::to_string( c ) + ",7)"; H::begin( hist ); s = storage< double >( f, c, 7. ); m.assign( f, std::vector< double >( c, 7. ) ); nch = c; lab.assign( c, "" ); }
		size_t ops = 1 + r.below( 14 ); double v = 1;
		auto find = [&]( const std::string& n ) -> size_t { for ( size_t i = 0; i < lab.size(); ++i ) if ( lab[ i ] == n ) return i; return no_index; };
		for ( size_t o = 0; o < ops; ++o )
		{
			v += 1; auto n = names[ r.below( names.size() ) ]; bool t = false;
			switch ( r.below( 15 ) )
			{
			case 0: case 1: { hist += " add_channel(" + n + ")"; H::begin( hist ); if ( find( n ) != no_index ) break; size_t res = s.add_channel( n, v ); H::eq( res, nch, "index of the added channel" ); for ( auto& f : m ) f.push_back( v ); lab.push_back( n ); ++nch; break; }
			case 2: { size_t k = r.below( 6 ); hist += " add_channel(" + n + ", " + std::to_string( k ) + " values)"; H::begin( hist ); if ( find( n ) != no_index ) break; std::vector< double > d; for ( size_t i = 0; i < k; ++i ) d.push_back( v + i / 16. ); size_t res = s.add_channel( n, d ); H::eq( res, nch, "index of the added channel" ); while ( m.size() < k ) m.push_back( std::vector< double >( nch, 0. ) ); for ( size_t i = 0; i < m.size(); ++i ) m[ i ].push_back( i < k ? d[ i ] : 0. ); lab.push_back( n ); ++nch; break; }
			case 3: { hist += " find_or_add_channel(" + n + ")"; H::begin( hist ); size_t e = find( n ); size_t res = s.find_or_add_channel( n, v ); H::eq( res, e == no_index ? nch : e, "find_or_add_channel" ); if ( e == no_index ) { for ( auto& f : m ) f.push_back( v ); lab.push_back( n ); ++nch; } break; }
			case 4: hist += " add_frame(v)"; H::begin( hist ); s.add_frame( v ); m.push_back( std::vector< double >( nch, v ) ); break;
			case 5: hist += " add_frame()"; H::begin( hist ); s.add_frame(); m.push_back( std::vector< double >( nch, 0.0 ) ); break;
			case 6: { size_t k = r.below( 4 ) ? nch : r.below( 5 ); hist += " add_frame(" + std::to_string( k ) + " values)"; H::begin( hist ); std::vector< double > d; for ( size_t i = 0; i < k; ++i ) d.push_back( v + i / 16. ); try { s.add_frame( d ); } catch ( std::exception& ) { t = true; } H::eq( t, k != nch, "add_frame with a wrong number of values throws" ); if ( !t ) m.push_back( d ); break; }
			case 7: { size_t f = m.size() + r.below( 3 ), c = nch + r.below( 3 ); if ( r.below( 6 ) == 0 ) { f = r.below( 4 ); c = r.below( 4 ); } hist += " resize(" + std::to_string( f ) + "," + std::to_string( c ) + ")"; H::begin( hist ); bool bad = f < m.size() || c < nch; try { s.resize( f, c, v ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "shrinking throws" ); if ( !t ) { for ( auto& x : m ) x.resize( c, v ); m.resize( f, std::vector< double >( c, v ) ); nch = c; lab.resize( c ); } break; }
			case 8: { size_t c = r.below( nch + 1 ); hist += " set_label(" + std::to_string( c ) + "," + n + ")"; H::begin( hist ); bool bad = c >= nch || find( n ) != no_index; try { s.set_label( c, n ); } catch ( std::exception& ) { t = true; } H::eq( t, bad, "set_label" ); if ( !t ) lab[ c ] = n; break; }
			case 9: if ( !m.empty() && nch ) { size_t f = r.below( m.size() ), c = r.below( nch ); hist += " write(" + std::to_string( f ) + "," + std::to_string( c ) + ")"; H::begin( hist ); if ( r.below( 2 ) ) s( f, c ) = v; else s.at( f, c ) = v; m[ f ][ c ] = v; } break;
			case 10: if ( !m.empty() && nch ) { size_t c = r.below( nch ); hist += " write[" + std::to_string( c ) + "]"; H::begin( hist ); s[ c ] = v; m.back()[ c ] = v; } break;
			case 11: if ( !m.empty() ) { hist += " write[" + n + "]"; H::begin( hist ); s[ n ] = v; if ( find( n ) == no_index ) { for ( auto& f : m ) f.push_back( 0. ); lab.push_back( n ); ++nch; } m.back()[ find( n ) ] = v; } break;
			case 13: case 14: if ( !m.empty() ) { bool q4 = r.below( 2 ); hist += q4 ? " write quaternion" : " write vector"; H::begin( hist ); if ( q4 ) write_storage( s, n, math::quat_< double >( v, v + .25, v + .5, v + .75 ) ); else write_storage( s, n, math::vec3_< double >( v + .25, v + .5, v + .75 ) );
				for ( int k = q4 ? 0 : 1; k < 4; ++k ) { std::string l = n + "." + "wxyz"[ k ]; if ( find( l ) == no_index ) { for ( auto& f : m ) f.push_back( 0. ); lab.push_back( l ); ++nch; } m.back()[ find( l ) ] = v + k * .25; } } break;
			case 12: if ( r.below( 6 ) == 0 ) { hist += " clear"; H::begin( hist ); s.clear(); m.clear(); lab.clear(); nch = 0; } break;
			}
			const auto& cs = s;
			H::eq( s.frame_size(), m.size(), "frame_size" ); H::eq( s.channel_size(), nch, "channel_size" ); H::eq( s.empty(), m.empty() || nch == 0, "empty" );
			for ( size_t f = 0; f < m.size(); ++f ) for ( size_t c = 0; c < nch; ++c ) { H::eq( s( f, c ), m[ f ][ c ], "cell" ); H::eq( cs( f, c ), m[ f ][ c ], "const cell" ); H::eq( s.at( f, c ), m[ f ][ c ], "at" ); H::eq( cs.at( f, c ), m[ f ][ c ], "const at" ); }
			for ( size_t c = 0; c < nch; ++c ) { H::eqs( cs.get_label( c ), lab[ c ], "label" ); if ( !m.empty() ) { H::eq( s[ c ], m.back()[ c ], "last frame" ); H::eq( cs[ c ], m.back()[ c ], "const last frame" ); } }
			for ( auto& q : names ) { H::eq( cs.find_channel( q ), find( q ), "find_channel" ); bool t2 = false; double got = 0; try { got = cs( q ); } catch ( std::exception& ) { t2 = true; } H::eq( t2, find( q ) == no_index || m.empty(), "const access by unknown label throws" ); if ( !t2 ) H::eq( got, m.back()[ find( q ) ], "const access by label" ); }
			for ( int q = 0; q < 2; ++q ) { size_t f = q ? m.size() : r.below( m.size() + 1 ), c = q ? r.below( nch + 1 ) : nch; int t2 = 0; try { s.at( f, c ); } catch ( std::exception& ) { ++t2; } try { cs.at( f, c ); } catch ( std::exception& ) { ++t2; } H::eq( t2, 2, "at() out of bounds throws" ); }
			if ( m.size() > 1 && nch ) { size_t f = r.below( m.size() - 1 ), c = r.below( nch ); double w = double( r.below( 8 ) ) / 8; double g = s.get_interpolated_value( f + w, c ); double e = m[ f ][ c ] * ( 1 - w ) + m[ f + 1 ][ c ] * w; H::check( std::fabs( g - e ) < 1e-9 * ( 1 + std::fabs( e ) ), "interpolated value" ); }
			if ( nch ) { size_t c = r.below( nch ); bool t2 = false; double last = m.empty() ? 0 : double( m.size() - 1 ); try { s.get_interpolated_value( last, c ); } catch ( std::exception& ) { t2 = true; } H::check( t2, "interpolation past the last frame throws" ); }
			if ( !m.empty() ) { auto means = compute_channel_means( s ); H::eq( means.size(), nch, "number of means" ); for ( size_t c = 0; c < nch; ++c ) { double e = 0; for ( auto& f : m ) e += f[ c ]; e /= m.size(); H::check( std::fabs( means[ c ] - e ) < 1e-9 * ( 1 + std::fabs( e ) ), "channel mean" ); }
				auto cv = compute_covariance( s ); H::eq( cv.row_size(), nch, "covariance rows" ); H::eq( cv.column_size(), nch, "covariance columns" );
				for ( size_t a = 0; a < nch; ++a ) for ( size_t b = 0; b < nch; ++b ) { double e = 0; for ( auto& f : m ) e += ( f[ a ] - means[ a ] ) * ( f[ b ] - means[ b ] ); e /= m.size(); H::check( std::fabs( cv( a, b ) - e ) < 1e-7 * ( 1 + std::fabs( e ) ), "covariance" ); } }
		}
	}
	return run.done();
}
