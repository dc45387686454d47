#include "P28/so/scen.hpp"
SCEN(16, char16_t)
