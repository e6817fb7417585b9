// Pieces of the C++ runtime library that exist only as object code, for containers
// used by the library: a hash, the growth policy of hash tables, and failures.
#pragma once
#include "sym.hpp"
#include <unordered_map>
#include <string>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    size_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i];
    return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : 97; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t n, size_t) const { return {b < 13, 13}; }
}  // namespace __detail
void __throw_out_of_range(const char*)
{
    sym_assert(false, "a requested key is present");
    while (1) ;
}
}  // namespace std
