#include "P28/so/scen.hpp"
SCEN(w, wchar_t)
