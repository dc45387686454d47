#include "p15.hpp"
P15(char8_t)
