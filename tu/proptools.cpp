// verified text: flut/prop_node_tools.cpp (merging), with flut/prop_node.hpp, included verbatim
#include "flut/string_tools.cpp"
#include "flut/prop_node.cpp"
#include "flut/prop_node_tools.cpp"
