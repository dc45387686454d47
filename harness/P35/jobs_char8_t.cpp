#include "p35.hpp"
P35_JOBS(j_char8_t, p35::job<char8_t>)
