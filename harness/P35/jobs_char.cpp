#include "p35.hpp"
P35_JOBS(j_char, p35::job<char>)
