#include "p35.hpp"
P35_JOBS(j_wchar_t, p35::job<wchar_t>)
