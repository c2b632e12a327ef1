// verified text: /repo/flut/string_tools.cpp and path.cpp, included verbatim
#include "flut/string_tools.cpp"
#include "flut/system/path.cpp"
