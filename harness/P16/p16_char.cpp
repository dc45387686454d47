#include "p16.hpp"
P16(char)
