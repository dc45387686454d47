#include "p16.hpp"
P16(wchar_t)
