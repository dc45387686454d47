#include "P20/p20.hpp"
P20(wchar_t, wchar_t)
