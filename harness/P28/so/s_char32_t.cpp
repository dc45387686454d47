#include "P28/so/scen.hpp"
SCEN(32, char32_t)
