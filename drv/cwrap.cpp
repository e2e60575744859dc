// the C / CBLAS library itself
#include "/repo/src/tlapack_cwrappers.cpp"
