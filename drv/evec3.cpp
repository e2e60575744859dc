#define EV3 1
#include "evec.hpp"
