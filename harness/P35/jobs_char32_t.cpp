#include "p35.hpp"
P35_JOBS(j_char32_t, p35::job<char32_t>)
