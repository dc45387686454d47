#define ZOO_VISIT zoo::visit_more
#include "p35.hpp"
P35_JOBS(j_more_char, p35::job<char>)
