#include "p15.hpp"
P15(wchar_t)
