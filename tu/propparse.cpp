// verified text: flut/string_tools.cpp, flut/char_stream.cpp, flut/prop_node.{hpp,cpp}, flut/prop_node_tools.cpp, included verbatim
#include "flut/string_tools.cpp"
#undef p
#include "flut/char_stream.cpp"
#include "flut/prop_node.cpp"
#include "flut/prop_node_tools.cpp"
