#define EV3 0
#include "evec.hpp"
