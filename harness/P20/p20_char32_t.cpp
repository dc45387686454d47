#include "P20/p20.hpp"
P20(char32_t, char32_t)
