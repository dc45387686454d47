#include "P20/p20.hpp"
P20(char, char)
