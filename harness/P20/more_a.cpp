// the static-format printers
#define ZOO_VISIT zoo::visit_more
#include "P20/p20.hpp"
P20(char, more_char)
