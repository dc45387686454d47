#ifndef P28_ABI
#define P28_ABI
#include <cstddef>
#include <cstdint>
typedef std::size_t (*scen_fn)(const uint64_t* v, std::size_t n, int hosted, char* out, std::size_t cap);
#endif
