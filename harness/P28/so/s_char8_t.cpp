#include "P28/so/scen.hpp"
#ifdef __cpp_char8_t
SCEN(u8, char8_t)
#else
extern "C" __attribute__((visibility("default"))) size_t scen_u8(const uint64_t*, size_t, int, char* o, size_t) { memcpy(o, "SKIP", 4); return 4; }
#endif
