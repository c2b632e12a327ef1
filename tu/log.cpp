// verified text: flut/system/log.cpp with log.hpp and log_sink.hpp, included verbatim; messages instantiated for strings
#include "flut/string_tools.hpp"
#include "flut/system/log.cpp"
namespace flut
{
	namespace log
	{
		template void message< string >( level, const string& );
		template void message< string, string >( level, const string&, const string& );
		template void trace< string >( const string& );
		template void debug< string >( const string& );
		template void info< string >( const string& );
		template void warning< string >( const string& );
		template void error< string >( const string& );
		template void critical< string >( const string& );
	}
}
