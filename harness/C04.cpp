// flags: -Dp=pattern
#define TOKENS 1
#include "C03.cpp"
