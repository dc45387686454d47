#include "p03.hpp"
using namespace p03;
PBT_PROP(doubles_in_char, 6) { one<char, double>(s, cx); }
PBT_PROP(floats_in_char, 4) { one<char, float>(s, cx); }
PBT_PROP(neighbouring_doubles, 1) { neighbours<double>(s, cx); }
PBT_PROP(neighbouring_floats, 1) { neighbours<float>(s, cx); }
