#include "p26.hpp"
P26(wchar_t)
