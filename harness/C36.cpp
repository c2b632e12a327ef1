// flags: -Dp=pattern -include map -include functional -include limits -include iomanip -include iostream -include algorithm -include cstring
// the real clock is replaced by one that the runs control
#include <chrono>
static long long g_now = 0, g_step = 0, g_last = 0;
struct vt_clock { typedef long long rep; typedef std::nano period; typedef std::chrono::duration< rep, period > duration; typedef std::chrono::time_point< vt_clock > time_point; static const bool is_steady = true;
	static time_point now() { g_last = g_now; g_now += g_step; return time_point( duration( g_last ) ); } };
namespace std { namespace chrono { typedef ::vt_clock vt_clock_t; } }
#define high_resolution_clock vt_clock_t
#define steady_clock vt_clock_t
#define system_clock vt_clock_t
#include "flut/timer.hpp"
#undef high_resolution_clock
#undef steady_clock
#undef system_clock
#include "propmodel.hpp"
#include "flut/stopwatch.cpp"
namespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }
using namespace flut;
int main( int argc, char** argv )
{
	H::Run run( argc, argv, "random sequences of up to 12 measures with 6 tags, restarts and reports under a controlled clock that advances between the calls, or by each reading as well; the report is compared with an independent account of the time per tag" );
	auto& r = run.r;
	while ( run.more() )
	{
		g_now = r.below( 1000 ) * 1000000LL; g_step = r.below( 2 ) ? 0 : 1000000LL; bool exact = g_step == 0;
		std::string c = exact ? "clock advances between calls:" : "clock advances with every reading:"; H::begin( c );
		stopwatch w; std::vector< std::pair< std::string, double > > want; double total = 0; long long from = g_last, slack = g_now - g_last;
		int prec = int( r.below( 9 ) ); set_to_str_precision( prec );
		size_t n = r.below( 13 );
		for ( size_t i = 0; i < n; ++i )
		{
			long long d = r.below( 4 ) ? r.below( 5000 ) * 1000000LL : 0; g_now += d;
			if ( r.below( 12 ) == 0 ) { c += " restart"; H::begin( c ); w.start_first_measure(); from = g_last; slack += g_now - g_last; continue; }
			std::string t = key( r ); c += " +" + std::to_string( d / 1000000 ) + "ms " + H::esc( t ); H::begin( c );
			w.add_measure( t ); slack += 4 * g_step;
			size_t k = 0; while ( k < want.size() && want[ k ].first != t ) ++k;
			if ( k == want.size() ) want.push_back( { t, 0 } );
			want[ k ].second += d * 1e-9; total += ( g_last - from ) * 1e-9; from = g_last;
			if ( r.below( 3 ) && i + 1 < n ) continue;
			int dec = int( r.below( 10 ) ); c += " report"; H::begin( c );
			prop_node rep = w.get_report( dec );
			H::check( to_str_precision() == prec, "the number format changed" );
			H::check( rep.get_value().empty() && rep.size() == want.size() + 1 && rep.get_key( want.size() ) == "internal", "wrong lines in the report" );
			double sum = 0;
			for ( size_t j = 0; j <= want.size(); ++j ) {
				double v = std::stod( rep.get_child( j ).get_value() ); sum += v;
				H::check( rep.get_child( j ).size() == 0 && v >= 0, "negative time" );
				if ( j == want.size() ) { H::check( !exact || v < 1e-5, "internal time although the clock stood still" ); break; }
				H::eqs( rep.get_key( j ), want[ j ].first, "tag" );
				H::check( v > want[ j ].second - 1e-5 && v < want[ j ].second + slack * 1e-9 + 1e-5, "time of tag " + H::esc( want[ j ].first ) + ": got " + std::to_string( v ) + ", expected " + std::to_string( want[ j ].second ) );
			}
			H::check( sum > total - 1e-4 && sum < total + 1e-4, "times add up to " + std::to_string( sum ) + " instead of " + std::to_string( total ) );
		}
	}
	return run.done();
}
