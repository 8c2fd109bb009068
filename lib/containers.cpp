// The growable containers, instantiated with an element type of a size unlike any scalar's.
#define GEN_TIME
#include "gen.cpp"
struct GxElement { long long a, b, c; };
template struct gen::Array<GxElement>;
