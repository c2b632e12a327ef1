// verified text: the real char_stream (templates and helpers it uses included)
#include "flut/string_tools.cpp"
#undef p
#include "flut/char_stream.cpp"
