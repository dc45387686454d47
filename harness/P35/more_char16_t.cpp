#define ZOO_VISIT zoo::visit_more
#include "p35.hpp"
P35_JOBS(j_more_char16_t, p35::job<char16_t>)
