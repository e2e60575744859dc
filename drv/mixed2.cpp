#define PART 2
#include "mixed.cpp"
