#include "p26.hpp"
P26(char)
