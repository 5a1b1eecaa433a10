// N01: scalar recoding, between guard pages.
#define ZP_MAIN
#include "mcx.hpp"
#include "zp.hpp"
#include "naf.hpp"
using namespace mcx;

struct Chk {
    Ctx &c; GuardBuf in, out, in2; uint64_t n = 0;
    Chk(Ctx &c) : c(c), in(4096), out(8192), in2(4096) {}
    static std::string hex(const uint8_t *s, size_t w) { std::string h; char b[3]; for (size_t i = w; i-- > 0;) { snprintf(b, 3, "%02x", s[i]); h += b; } return h; }
    void one(const uint8_t *sc, size_t w, bool low = false) {
        uint8_t *s = low ? in2.begin() : in.end(w);
        memcpy(s, sc, w);
        size_t len = (w + 2) * 8;
        uint8_t *o = low ? out.begin() : out.end(len);
        memset(o, 0xEE, len);
        buildNaf(o, s, w);
        if (memcmp(s, sc, w)) c.viol("naf:operand", "0x%s: the scalar was changed", hex(sc, w).c_str());
        bool prev = false, nz = false;
        for (size_t i = 0; i < len; i++) {
            if (o[i] > 2) { c.viol(o[i] == 0xEE ? "naf:unwritten" : "naf:digit", "0x%s: digit %zu is %d", hex(sc, w).c_str(), i, o[i]); return; }
            if (prev && o[i]) c.viol("naf:adjacent", "0x%s: digits %zu and %zu are both non-zero", hex(sc, w).c_str(), i - 1, i);
            prev = o[i]; nz |= prev;
        }
        // weighted sum, from the low end: what is left of the scalar minus the digits so far
        if (w <= 7) {
            uint64_t v = 0; memcpy(&v, sc, w);
            __int128 t = 0;
            for (size_t i = 0; i < len; i++) if (o[i]) t += o[i] == 1 ? (__int128)1 << i : -((__int128)1 << i);
            if (t != (__int128)v) c.viol("naf:value", "0x%s: the digits sum to %s0x%llx", hex(sc, w).c_str(), t < 0 ? "-" : "", (unsigned long long)(t < 0 ? -t : t));
        } else {
            mpz_t a, p; mpz_init(a); mpz_init(p);
            mpz_import(a, w, -1, 1, 0, 0, sc);
            for (size_t i = 0; i < len; i++) if (o[i]) { mpz_set_ui(p, 1); mpz_mul_2exp(p, p, i); if (o[i] == 1) mpz_sub(a, a, p); else mpz_add(a, a, p); }
            if (mpz_sgn(a)) c.viol("naf:value", "0x%s: the digits do not sum to the scalar", hex(sc, w).c_str());
            mpz_clear(a); mpz_clear(p);
        }
        c.eval(); c.trans(w + 2); if (nz) c.nontrivial();
    }
    void all(size_t w, uint64_t from, uint64_t to) {
        for (uint64_t v = from; v < to; v++) {
            if (!(v & 0xffff)) { c.cur("scalars of %zu bytes from 0x%llx", w, (unsigned long long)v); c.state(); }
            one((uint8_t *)&v, w);
        }
    }
};

int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    jobs.push_back({"bytes-1-2", [](Ctx &c) { Chk k(c); k.all(1, 0, 256); k.all(2, 0, 65536); for (uint32_t v = 0; v < 65536; v++) k.one((uint8_t *)&v, 2, true); c.sample("every scalar of 1 and 2 bytes"); }});
    for (int q = 0; q < 16; q++) jobs.push_back({"bytes-3-" + std::to_string(q), [q](Ctx &c) { Chk k(c); k.all(3, (uint64_t)q << 20, (uint64_t)(q + 1) << 20); c.sample("every scalar of 3 bytes from 0x%x", q << 20); }});
    if (th) for (int q = 0; q < 256; q++) jobs.push_back({"bytes-4-" + std::to_string(q), [q](Ctx &c) { Chk k(c); k.all(4, (uint64_t)q << 24, (uint64_t)(q + 1) << 24); }});
    // longer scalars over a byte alphabet
    for (int w = 4; w <= (th ? 7 : 6); w++) jobs.push_back({"alphabet-" + std::to_string(w), [w](Ctx &c) {
        Chk k(c);
        std::vector<uint8_t> al = {0x00, 0x01, 0x02, 0x55, 0x7f, 0x80, 0xaa, 0xab, 0xfe, 0xff, 0xb6, 0x6d};
        if (w == 6) al.resize(10);
        if (w == 7) al.resize(9);
        std::vector<int> d(w, 0); uint8_t s[16];
        while (true) {
            for (int i = 0; i < w; i++) s[i] = al[d[i]];
            if (!d[0] && !d[1]) { c.cur("alphabet scalars of %d bytes, %s", w, Chk::hex(s, w).c_str()); c.state(); }
            k.one(s, w);
            int i = 0; while (i < w && ++d[i] == (int)al.size()) d[i++] = 0;
            if (i == w) break;
        }
        c.sample("every scalar of %d bytes over %zu byte values", w, al.size());
    }});
    jobs.push_back({"lengths", [th](Ctx &c) {
        Chk k(c);
        std::vector<size_t> ws; for (size_t w = 1; w <= (th ? 130u : 70u); w++) ws.push_back(w);
        ws.push_back(255); ws.push_back(256);
        for (size_t w : ws) {
            c.cur("scalars of %zu bytes", w); c.state();
            std::vector<uint8_t> s(w);
            // runs of ones 2^i - 2^j, their complements, and repeated bytes
            for (int v = 0; v < 256; v++) { std::fill(s.begin(), s.end(), v); k.one(s.data(), w); s[w - 1] ^= 0x80; k.one(s.data(), w, true); }
            size_t B = w * 8;
            for (size_t j = 0; j < B; j += (w > 10 ? 5 : 1)) for (size_t i = j; i <= B; i += (w > 20 ? 7 : 1)) {
                std::fill(s.begin(), s.end(), 0);
                for (size_t q = j; q < i; q++) s[q / 8] |= 1 << (q % 8);
                k.one(s.data(), w);
                for (auto &x : s) x = ~x;
                k.one(s.data(), w);
            }
        }
        c.sample("runs of ones, complements and repeated bytes for %zu lengths", ws.size());
    }});
    // inside every context: an arbitrary byte at every position between arbitrary neighbours
    jobs.push_back({"contexts", [](Ctx &c) {
        Chk k(c);
        for (size_t w : {8u, 32u}) for (size_t at = 0; at < w; at += (w > 8 ? 10 : 1)) for (int fill : {0x00, 0xff, 0x55, 0xaa}) for (int v = 0; v < 256; v++) {
            std::vector<uint8_t> s(w, fill); s[at] = v; k.one(s.data(), w);
            for (int n : {0x00, 0xff, 0x01, 0x80}) { if (at + 1 < w) { s[at + 1] = n; k.one(s.data(), w); } }
        }
        c.state(); c.sample("every byte at every position of 8-byte scalars over 4 surroundings");
    }});
    Options o; o.jobTimeout = th ? 3000 : 600;
    return run(argc, argv, jobs, o);
}
