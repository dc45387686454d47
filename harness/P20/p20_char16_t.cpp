#include "P20/p20.hpp"
P20(char16_t, char16_t)
