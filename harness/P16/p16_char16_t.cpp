#include "p16.hpp"
P16(char16_t)
