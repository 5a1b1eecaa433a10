// T01: the transform against direct evaluation, over small prime fields and generated fields.
#include "mcx.hpp"
#include "mcrt.hpp"
#include <gmp.h>
#include <cassert>
#include <cstring>
#include <string>
#include <iostream>
#include <stdexcept>
#include <memory>
#define ZP_MAIN
#include "zp.hpp"
#include "misc.hpp"
#include "fft.hpp"
#ifdef WITH_FIELDS
#include "fr.hpp"
#include "gl.hpp"
#include "fq.hpp"
#endif
using namespace mcx;
typedef unsigned __int128 u128;

// ---- number side -----------------------------------------------------------------------
struct ZpN { // the harness' own arithmetic modulo a small prime
    typedef Zp F; typedef uint64_t N;
    static N of(uint64_t x) { return x % Zp::p; }
    static N mul(N a, N b) { return (u128)a * b % Zp::p; }
    static N add(N a, N b) { return (a + b) % Zp::p; }
    static N get(const Zp::Element &e) { return Zp::num(e); }
    static void put(Zp::Element &e, N n) { e = Zp::mk(n); }
    static bool good(const Zp::Element &e) { return Zp::good(e); }
    static int order2() { uint64_t q = Zp::p - 1; int k = 0; while (!(q & 1)) { q >>= 1; k++; } return k; }
    static std::string name() { return "F" + std::to_string(Zp::p); }
};
template<class RF> struct MpN {
    typedef RF F; struct N { mpz_t z; N() { mpz_init(z); } N(const N &o) { mpz_init_set(z, o.z); } N &operator=(const N &o) { mpz_set(z, o.z); return *this; } ~N() { mpz_clear(z); } bool operator==(const N &o) const { return !mpz_cmp(z, o.z); } bool operator!=(const N &o) const { return mpz_cmp(z, o.z); } };
    static mpz_t q; static bool q0;
    static void init() { if (q0) return; q0 = true; mpz_init(q); RF f; f.toMpz(q, f.negOne()); mpz_add_ui(q, q, 1); }
    static N of(uint64_t x) { N n; mpz_set_ui(n.z, x); mpz_mod(n.z, n.z, q); return n; }
    static N mul(const N &a, const N &b) { N r; mpz_mul(r.z, a.z, b.z); mpz_mod(r.z, r.z, q); return r; }
    static N add(const N &a, const N &b) { N r; mpz_add(r.z, a.z, b.z); mpz_mod(r.z, r.z, q); return r; }
    static N get(const typename RF::Element &e) { N r; RF f; typename RF::Element t; memcpy(&t, &e, sizeof t); f.toMpz(r.z, t); return r; }
    static void put(typename RF::Element &e, const N &n) { RF f; f.fromMpz(e, n.z); }
    static bool good(const typename RF::Element &) { return true; }
    static int order2() { mpz_t t; mpz_init(t); mpz_sub_ui(t, q, 1); int k = mpz_scan1(t, 0); mpz_clear(t); return k; }
    static std::string name() { char *s = mpz_get_str(0, 10, q); std::string r = "F" + std::string(s); free(s); return r; }
};
template<class RF> mpz_t MpN<RF>::q; template<class RF> bool MpN<RF>::q0 = false;

template<class C> struct Run {
    typedef typename C::N N; typedef typename C::F F; typedef typename F::Element E;
    Ctx &c; unsigned cpu;
    uint64_t maxDomain = 0;
    std::string ctx;
    FFT<F> *fft = 0;
    std::vector<std::vector<N>> rt;     // rt[k][i] = (primitive root of order 2^k)^i
    GuardBuf *gb;
    Run(Ctx &c, unsigned cpu) : c(c), cpu(cpu) { mcrt::ncpu = cpu; gb = new GuardBuf((1 << 21) * sizeof(E)); }

    // returns true if the transform exists
    bool create(uint64_t m) {
        maxDomain = m;
        int pow = 0; while ((2ull << pow) <= m) pow++;
        bool possible = pow <= C::order2(), threw = false;
        ctx = C::name() + " processors=" + std::to_string(cpu) + " created for " + std::to_string(m);
        c.cur("%s", ctx.c_str()); c.eval(); c.state();
        delete fft; fft = 0;
        auto r = mcrt::once([&] {
            try { fft = new FFT<F>(m, 0); } catch (const std::range_error &) { threw = true; } catch (...) { c.viol("create:other-error", "%s", ctx.c_str()); threw = true; }
            mcrt::makePermanent();
        });
        if (!r.key.empty()) { c.viol("create:" + r.key, "%s: %s", ctx.c_str(), r.text.c_str()); fft = 0; return false; }
        if (threw != !possible) c.viol(threw ? "create:refused" : "create:accepted", "%s (order of two in the field: %d)", ctx.c_str(), C::order2());
        if (threw || !possible) { fft = 0; return false; }
        // the roots: of the exact order, consistent with each other
        rt.assign(pow + 1, {});
        for (int k = 0; k <= pow; k++) {
            N w = C::of(1);
            if (k) w = C::get(fft->root(k, 1));
            N x = C::of(1);
            for (uint64_t i = 0; i < (1ull << k); i++) { rt[k].push_back(x); if (k && pow <= 12 && (C::get(fft->root(k, i)) != x || !C::good(fft->root(k, i)))) { c.viol("root:power", "%s root(%d,%llu)", ctx.c_str(), k, (unsigned long long)i); break; } x = C::mul(x, w); }
            if (x != C::of(1)) c.viol("root:order", "%s root(%d,1) is no root of that order", ctx.c_str(), k);
            if (k && (rt[k][rt[k].size() / 2] == C::of(1))) c.viol("root:primitive", "%s root(%d,1) is not primitive", ctx.c_str(), k);
            if (k && C::mul(rt[k][1 % rt[k].size()], rt[k][1 % rt[k].size()]) != (k == 1 ? C::of(1) : rt[k - 1][1])) c.viol("root:chain", "%s root(%d,1) squared is not root(%d,1)", ctx.c_str(), k, k - 1);
        }
        return true;
    }
    E *vec(size_t n) { return (E *)gb->end(n * sizeof(E)); }
    std::vector<N> result(E *a, size_t n, bool &ok) { std::vector<N> v; for (size_t i = 0; i < n; i++) { if (!C::good(a[i])) ok = false; v.push_back(C::get(a[i])); } return v; }
    std::string str(const std::vector<N> &in) { return "n=" + std::to_string(in.size()); }

    void call(E *a, size_t n, bool inv, const char *what, const std::string &txt, int dir) {
        auto r = mcrt::once([&] { if (inv) fft->ifft(a, n); else fft->fft(a, n); }, dir);
        c.trans(r.points + 1);
        if (!r.key.empty()) c.viol(std::string(what) + ":" + r.key, "%s %s: %s", ctx.c_str(), txt.c_str(), r.text.c_str());
    }
    // x: sparse input (index, value); dense if all indices given
    void check(size_t n, int k, const std::vector<std::pair<size_t, N>> &x, const std::string &txt, int dir = 1) {
        E *a = vec(n);
        c.eval(); c.state(); if (n > 1) c.nontrivial();
        c.cur("%s n=%zu %s", ctx.c_str(), n, txt.c_str());
        auto fill = [&] { N z = C::of(0); for (size_t i = 0; i < n; i++) C::put(a[i], z); for (auto &p : x) C::put(a[p.first], p.second); };
        std::vector<N> in(n, C::of(0)), want(n, C::of(0));
        for (auto &p : x) in[p.first] = p.second;
        for (auto &p : x) for (size_t j = 0; j < n; j++) want[j] = C::add(want[j], C::mul(p.second, rt[k][(uint64_t)p.first * j & (n - 1)]));
        fill();
        if (Zp::p) Zp::misuse = 0;
        call(a, n, false, "fft", txt, dir);
        bool ok = true;
        auto got = result(a, n, ok);
        if (got != want || !ok) { size_t i = 0; while (i < n && got[i] == want[i]) i++; c.viol("fft:value", "%s n=%zu %s: value %zu is wrong", ctx.c_str(), n, txt.c_str(), i); }
        call(a, n, true, "ifft", txt, -dir);
        ok = true;
        if (result(a, n, ok) != in || !ok) c.viol("ifft:inverse", "%s n=%zu %s: the inverse of the transform is not the input", ctx.c_str(), n, txt.c_str());
        fill();
        call(a, n, true, "ifft", txt, dir);
        call(a, n, false, "fft", txt, dir);
        ok = true;
        if (result(a, n, ok) != in || !ok) c.viol("fft:inverse", "%s n=%zu %s: the transform of the inverse is not the input", ctx.c_str(), n, txt.c_str());
        if (Zp::p && Zp::misuse) c.viol("fft:unwritten", "%s n=%zu %s: uses elements nobody wrote", ctx.c_str(), n, txt.c_str());
    }
    void basis(size_t n, int k, bool scaled) {
        for (size_t i = 0; i < n; i++) { check(n, k, {{i, C::of(1)}}, "unit " + std::to_string(i), i & 1 ? -1 : 1); if (scaled) check(n, k, {{i, C::of(~0ull / 3)}}, "scaled unit " + std::to_string(i)); }
        for (unsigned sd = 1; sd <= 3; sd++) {
            std::vector<std::pair<size_t, N>> x; uint64_t r = sd * 0x9E3779B97F4A7C15ull;
            for (size_t i = 0; i < n; i++) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; x.push_back({i, C::mul(C::of(r), C::of(r >> 3))}); }
            if (n <= 512) check(n, k, x, "dense " + std::to_string(sd));
        }
        std::vector<std::pair<size_t, N>> x; for (size_t i = 0; i < n && n <= 512; i++) x.push_back({i, C::of(1)});
        if (n <= 512) check(n, k, x, "all ones");
    }
    void all(size_t n, int k, uint64_t p) {
        std::vector<uint64_t> v(n, 0);
        for (;;) {
            std::vector<std::pair<size_t, N>> x; std::string t;
            for (size_t i = 0; i < n; i++) { x.push_back({i, C::of(v[i])}); t += std::to_string(v[i]) + " "; }
            check(n, k, x, t);
            size_t i = 0; while (i < n && v[i] == p - 1) v[i++] = 0;
            if (i == n) break;
            v[i]++;
        }
    }
};

static void smallField(Ctx &c, uint64_t p, unsigned cpu, uint64_t maxM, size_t basisTo, uint64_t allUpTo) {
    Zp::setPrime(p);
    Run<ZpN> R(c, cpu);
    for (uint64_t m = 1; m <= maxM; m = m < 9 ? m + 1 : m < 16 ? 16 : m % 2 ? m - 1 + (m - 1) : m & (m - 1) ? 2 * (m - 1) : m + 1) {
        if (!R.create(m)) continue;
        for (int k = 0; (1ull << k) <= m; k++) {
            size_t n = 1ull << k;
            uint64_t cnt = 1; for (size_t i = 0; i < n && cnt <= allUpTo; i++) cnt *= p;
            if (cnt <= allUpTo) R.all(n, k, p);
            else if (n <= basisTo) R.basis(n, k, p > 3);
        }
    }
    c.sample("field of %llu elements, %u processors: created for 1..%llu, every vector where there are at most %llu, else every unit vector and dense ones", (unsigned long long)p, cpu, (unsigned long long)maxM, (unsigned long long)allUpTo);
}
static void bigSize(Ctx &c, uint64_t p, unsigned cpu, int k) {
    Zp::setPrime(p);
    Run<ZpN> R(c, cpu);
    if (!R.create(1ull << k)) { c.viol("create:refused", "%s", R.ctx.c_str()); return; }
    size_t n = 1ull << k;
    for (int i = -1; i < k; i++) { size_t at = i < 0 ? 0 : 1ull << i; R.check(n, k, {{at, 1}}, "unit " + std::to_string(at)); }
    R.check(n, k, {{n - 1, 5}, {n / 2 + 1, 7}, {n / 3, 11}}, "three units");
    R.check(n / 2, k - 1, {{n / 2 - 1, 5}, {n / 4 + 1, 7}}, "two units in a smaller size");
    c.sample("field of %llu elements, %u processors, size 2^%d: units at every power of two", (unsigned long long)p, cpu, k);
}
// every sequence of three calls over two transform objects that are alive together (the field's largest domain and a
// smaller one), both directions and all sizes up to 16, on the same vector
static void histories(Ctx &c, uint64_t p, unsigned cpu) {
    Zp::setPrime(p);
    Run<ZpN> A(c, cpu), B(c, cpu);
    if (!A.create(16) || !B.create(8)) { c.viol("create:refused", "%s", A.ctx.c_str()); return; }
    struct Call { Run<ZpN> *r; int k; bool inv; };
    std::vector<Call> calls;
    for (auto r : {&A, &B}) for (int k = 0; k <= (r == &A ? 4 : 3); k++) for (int inv = 0; inv < 2; inv++) calls.push_back({r, k, inv == 1});
    uint64_t ninv[5] = {1};
    for (int k = 1; k <= 4; k++) for (uint64_t x = 1; x < p; x++) if ((x << k) % p == 1) ninv[k] = x;
    auto seq = [&](const std::vector<const Call *> &s) {
        auto a = A.vec(16);
        std::vector<uint64_t> m(16);
        for (size_t i = 0; i < 16; i++) { m[i] = (i * i + 3 * i + 1) % p; ZpN::put(a[i], m[i]); }
        std::string t;
        for (auto q : s) t += std::string(q->inv ? " ifft" : " fft") + std::to_string(1 << q->k) + (q->r == &A ? "a" : "b");
        c.cur("%s%s", A.ctx.c_str(), t.c_str());
        c.eval(); c.state(); c.nontrivial();
        Zp::misuse = 0;
        for (auto q : s) {
            size_t n = 1ull << q->k;
            q->r->call(a, n, q->inv, "history", t, 1);
            std::vector<uint64_t> w(n, 0);
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) w[j] = (w[j] + m[i] * q->r->rt[q->k][q->inv ? (n * n - i * j) % n : i * j % n]) % p;
            for (size_t i = 0; i < n; i++) m[i] = q->inv ? w[i] * ninv[q->k] % p : w[i];
            for (size_t i = 0; i < 16; i++) if (!ZpN::good(a[i]) || ZpN::get(a[i]) != m[i]) { c.viol("history:value", "%s%s: value %zu is wrong after %s", A.ctx.c_str(), t.c_str(), i, q->inv ? "ifft" : "fft"); return; }
        }
        if (Zp::misuse) c.viol("history:unwritten", "%s%s uses elements nobody wrote", A.ctx.c_str(), t.c_str());
    };
    size_t cnt = 0;
    for (auto &x : calls) for (auto &y : calls) for (auto &z : calls) { seq({&x, &y, &z}); cnt++; }
    c.sample("field of %llu elements, %u processors: %zu sequences of three calls over two objects", (unsigned long long)p, cpu, cnt);
}
#ifdef WITH_FIELDS
template<class RF> static void generated(Ctx &c, unsigned cpu, size_t maxM, size_t basisTo) {
    MpN<RF>::init();
    Run<MpN<RF>> R(c, cpu);
    for (uint64_t m = 1; m <= maxM; m *= 2) {
        if (!R.create(m)) continue;
        for (int k = 0; (1ull << k) <= m && (1ull << k) <= basisTo; k++) if ((1ull << k) == m || m == maxM) R.basis(1ull << k, k, true);
    }
    c.sample("%s, %u processors, sizes up to %zu: every unit vector and dense ones", MpN<RF>::name().c_str(), cpu, basisTo);
}
#endif

int main(int argc, char **argv) {
    bool th = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    auto nm = [](const char *f, unsigned long a, unsigned long b) { char s[80]; snprintf(s, sizeof s, f, a, b); return std::string(s); };
    std::vector<unsigned> cpus = {1, 2, 3, 4, 5, 7, 8, 16, 33};
    if (th) cpus = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 24, 31, 32, 33, 38};
    for (unsigned cpu : cpus)
        for (uint64_t p : {3, 5, 7, 11, 13, 17, 41, 97, 193, 257, 769, 12289, 65537})
            jobs.push_back({nm("F%lu-cpu%lu", p, cpu), [=](Ctx &c) { smallField(c, p, cpu, p < 97 ? 33 : p < 1000 ? 513 : 129, th ? 512 : p < 97 ? 64 : p > 1000 ? 64 : 128, th ? 90000 : 700); }});
    for (uint64_t p : {5, 17}) for (unsigned cpu : {1, 2, 3, 5}) jobs.push_back({nm("all-F%lu-cpu%lu", p, cpu), [=](Ctx &c) { smallField(c, p, cpu, 8, 4, th ? 400000 : 90000); }});
    for (unsigned cpu : {1, 3, 8}) for (int k : {14, 16, 17, 18, 20}) if (th || k < 18 || cpu == 3) jobs.push_back({nm("size%lu-cpu%lu", k, cpu), [=](Ctx &c) { bigSize(c, 998244353, cpu, k); }});
    for (unsigned cpu : {1, 3, 8}) for (uint64_t p : {17, 97}) jobs.push_back({nm("histories-F%lu-cpu%lu", p, cpu), [=](Ctx &c) { histories(c, p, cpu); }});
#ifdef WITH_FIELDS
    for (unsigned cpu : {1, 2, 3, 5, 8}) {
        jobs.push_back({nm("bn128r-cpu%lu", cpu, 0), [=](Ctx &c) { generated<RawFr>(c, cpu, 256, th ? 256 : 64); }});
        jobs.push_back({nm("goldilocks-cpu%lu", cpu, 0), [=](Ctx &c) { generated<RawGl>(c, cpu, 1024, th ? 512 : 128); }});
        jobs.push_back({nm("bn128q-cpu%lu", cpu, 0), [=](Ctx &c) { generated<RawFq>(c, cpu, 64, 2); }});
    }
#endif
    Options o; o.stall = 300; o.jobTimeout = th ? 6000 : 700;
    return run(argc, argv, jobs, o);
}
