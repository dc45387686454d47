#include "p35.hpp"
P35_JOBS(j_char16_t, p35::job<char16_t>)
