#define MODE 10
#include "p09_parser.cc"
