#include "P28/so/scen.hpp"
SCEN(8, char)
