#include "p15.hpp"
P15(char32_t)
