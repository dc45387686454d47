#include "p03.hpp"
using namespace p03;
PBT_PROP(doubles_of_one_exponent, 8) { binade<double>(s, cx); }
PBT_PROP(floats_of_one_exponent, 1) { binade<float>(s, cx); }
PBT_PROP(slice_of_the_floats, 1) { float_slice(s, cx); }
