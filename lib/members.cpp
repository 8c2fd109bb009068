// The library's full C++ interface, with the member functions of its class templates instantiated.
#define GEN_TIME
#include "gen.cpp"
template struct gen::Array<long>;
template struct gen::HashTable<long>;
