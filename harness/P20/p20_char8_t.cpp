#include "P20/p20.hpp"
P20(char8_t, char8_t)
