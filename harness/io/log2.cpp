// L01: the integer logarithm for every 32-bit argument.
#include "mcx.hpp"
#include "misc.hpp"
using namespace mcx;
int main(int argc, char **argv) {
    std::vector<Job> jobs;
    for (int q = 0; q < 64; q++) jobs.push_back({"block-" + std::to_string(q), [q](Ctx &c) {
        uint64_t bad = 0, first = 0;
        for (uint64_t v = (uint64_t)q << 26; v < (uint64_t)(q + 1) << 26; v++) {
            if (!v) continue;
            if (log2((uint32_t)v) != 31u - (unsigned)__builtin_clz((uint32_t)v)) { if (!bad++) first = v; }
            if (!(v & 0xffffff)) c.cur("arguments from %llu", (unsigned long long)v);
        }
        uint64_t n = (1ull << 26) - (q == 0);
        c.eval(n); c.state(n); c.trans(n); c.nontrivial(n);
        if (bad) c.viol("log2", "log2(%llu) is %u (%llu wrong arguments)", (unsigned long long)first, log2((uint32_t)first), (unsigned long long)bad);
        if (q % 21 == 0) c.sample("every argument from %llu to %llu", (unsigned long long)q << 26, ((unsigned long long)(q + 1) << 26) - 1);
    }});
    return run(argc, argv, jobs);
}
