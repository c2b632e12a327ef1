// verified text: /repo/flut/system_tools.cpp and string_tools.cpp, included verbatim
#include "flut/string_tools.cpp"
#include "flut/system_tools.cpp"
