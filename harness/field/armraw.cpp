// F08: every routine of the ARM64 text called directly, through every aliasing of its arguments, against GMP integers.
#include "fieldkit.hpp"
#include "arm64emu.hpp"
#include "armreg.hpp"
std::vector<const Impl *> &impls() { static std::vector<const Impl *> v; return v; }
std::vector<ArmReg *> &armRegs() { static std::vector<ArmReg *> v; return v; }
using namespace mcx;

struct A {
    Ctx &c; ArmReg &g; ArmImage *im; Mod m; int n; std::string who; std::vector<uint64_t> mem;
    std::map<std::string, int> ent;
    A(Ctx &c, ArmReg &g, const Z &q) : c(c), g(g), im(g.image()) { m.setPrime(q); n = m.n64; who = "arm64/q=" + m.q.hex(); mem.resize(3 * (n + 2) + 2); }
    uint64_t *slot(int i) { return &mem[2 + i * (n + 2)]; }
    int entry(const char *r) { auto it = ent.find(r); if (it != ent.end()) return it->second; return ent[r] = armEntry(im, (g.name + "_" + r).c_str()); }
    bool outside() { for (int i = 0; i <= 3; i++) for (int k = 0; k < 2; k++) if (mem[i * (n + 2) + k] != 0xC0DEC0DEC0DEC0DEull) return true; return false; }
    uint64_t call(const char *r, const char *sig, uint64_t a, uint64_t b = 0, uint64_t d = 0) { c.eval(); c.s->curN = c.s->curN + 1; return armCall(im, entry(r), r, sig, n, a, b, d); }
    void bad(const char *r, const char *what, int pat, const Z &x, const Z &y, const Z &w, uint64_t *d) { c.viol(std::string("arm64:") + r + ":" + what, "%s %s aliasing %d a=%s b=%s expected %s got %s", who.c_str(), r, pat, x.hex().c_str(), y.hex().c_str(), w.hex().c_str(), fromLimbs(d, n).hex().c_str()); }
    void ll(const char *r, const Z &x, const Z &y, const Z &w, bool same) {          // long, long
        for (int pat = 0; pat < (same ? 5 : 3); pat++) {
            for (auto &v : mem) v = 0xC0DEC0DEC0DEC0DEull;
            uint64_t *d = slot(0), *a = slot(1), *b = slot(2);
            if (pat == 1 || pat == 4) a = d;
            if (pat == 2 || pat == 4) b = d;
            if (pat == 3) b = a;
            toLimbs(a, x, n); toLimbs(b, y, n);
            call(r, "wrr", (uint64_t)d, (uint64_t)a, (uint64_t)b);
            if (!eqLimbs(d, w, n)) bad(r, pat ? "alias" : "value", pat, x, y, w, d);
            if ((a != d && !eqLimbs(a, x, n)) || (b != d && !eqLimbs(b, y, n)) || outside()) bad(r, "operand", pat, x, y, w, d);
        }
    }
    void lv(const char *r, const Z &x, uint64_t k, const Z &w) {                     // long, word
        for (int pat = 0; pat < 2; pat++) {
            for (auto &v : mem) v = 0xC0DEC0DEC0DEC0DEull;
            uint64_t *d = slot(0), *a = pat ? d : slot(1); toLimbs(a, x, n);
            call(r, "wrv", (uint64_t)d, (uint64_t)a, k);
            Z y; mpz_set_ui(y.v, k);
            if (!eqLimbs(d, w, n)) bad(r, pat ? "alias" : "value", pat, x, y, w, d);
            if ((!pat && !eqLimbs(a, x, n)) || outside()) bad(r, "operand", pat, x, y, w, d);
        }
    }
    void vl(const char *r, uint64_t k, const Z &x, const Z &w) {
        for (int pat = 0; pat < 2; pat++) {
            for (auto &v : mem) v = 0xC0DEC0DEC0DEC0DEull;
            uint64_t *d = slot(0), *a = pat ? d : slot(1); toLimbs(a, x, n);
            call(r, "wvr", (uint64_t)d, k, (uint64_t)a);
            Z y; mpz_set_ui(y.v, k);
            if (!eqLimbs(d, w, n)) bad(r, pat ? "alias" : "value", pat, x, y, w, d);
            if ((!pat && !eqLimbs(a, x, n)) || outside()) bad(r, "operand", pat, x, y, w, d);
        }
    }
    void l(const char *r, const Z &x, const Z &w) {
        for (int pat = 0; pat < 2; pat++) {
            for (auto &v : mem) v = 0xC0DEC0DEC0DEC0DEull;
            uint64_t *d = slot(0), *a = pat ? d : slot(1); toLimbs(a, x, n);
            call(r, "wr", (uint64_t)d, (uint64_t)a);
            if (!eqLimbs(d, w, n)) bad(r, pat ? "alias" : "value", pat, x, Z(0), w, d);
            if ((!pat && !eqLimbs(a, x, n)) || outside()) bad(r, "operand", pat, x, Z(0), w, d);
        }
    }
};

static void job(Ctx &c, ArmReg &g, const Z &q) {
    A t(c, g, q);
    const Mod &m = t.m;
    auto V = limbAlphabet(m, m.n64 > 4 ? 1 : 2);
    if (m.bits <= 9) { V.clear(); for (long i = 0; i < mpz_get_si(m.q.v); i++) V.push_back(Z(i)); }
    size_t cap = c.thorough ? 1200 : 160;
    std::vector<Z> X; if (V.size() > cap) { for (size_t i = 0; i < V.size(); i += (V.size() + cap - 1) / cap) X.push_back(V[i]); X.push_back(m.q - Z(1)); } else X = V;
    auto red = [&](Z v) { mpz_fdiv_r_2exp(v.v, v.v, m.bits); if (!(v < m.q)) v = v - m.q; return v; };
    Z full = Z(1) << (64 * m.n64);
    c.state(X.size()); c.sample("%s: every routine of the ARM64 text on %zu residues, all ordered pairs", t.who.c_str(), X.size());
    for (auto &x : X) {
        c.cur("%s pairs with a=%s", t.who.c_str(), x.hex().c_str());
        for (auto &y : X) {
            bool same = x == y;
            t.ll("rawAdd", x, y, (x + y) % m.q, same); t.ll("rawSub", x, y, (x - y) % m.q, same); t.ll("rawMMul", x, y, m.mmul(x, y), same);
            t.ll("rawSubRegular", x, y, (x - y) % full, same);
            Z a, o, e; mpz_and(a.v, x.v, y.v); mpz_ior(o.v, x.v, y.v); mpz_xor(e.v, x.v, y.v);
            t.ll("rawAnd", x, y, red(a), same); t.ll("rawOr", x, y, red(o), same); t.ll("rawXor", x, y, red(e), same);
            toLimbs(t.slot(0), x, t.n); toLimbs(t.slot(1), y, t.n);
            int cm = (int)t.call("rawCmp", "rr", (uint64_t)t.slot(0), (uint64_t)t.slot(1)), want = mpz_cmp(x.v, y.v);
            if ((cm < 0) != (want < 0) || (cm > 0) != (want > 0)) c.viol("arm64:rawCmp", "%s a=%s b=%s gives %d", t.who.c_str(), x.hex().c_str(), y.hex().c_str(), cm);
            int eq = (int)t.call("rawIsEq", "rr", (uint64_t)t.slot(0), (uint64_t)t.slot(1));
            if (!!eq != same) c.viol("arm64:rawIsEq", "%s a=%s b=%s gives %d", t.who.c_str(), x.hex().c_str(), y.hex().c_str(), eq);
            t.call("rawSwap", "xx", (uint64_t)t.slot(0), (uint64_t)t.slot(1));
            if (!eqLimbs(t.slot(0), y, t.n) || !eqLimbs(t.slot(1), x, t.n)) c.viol("arm64:rawSwap", "%s a=%s b=%s", t.who.c_str(), x.hex().c_str(), y.hex().c_str());
            c.trans(10); if (mpz_sgn(x.v) && mpz_sgn(y.v)) c.nontrivial();
        }
    }
    std::vector<uint64_t> K = {0, 1, 2, 3, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull};
    { std::vector<uint64_t> l(m.n64); toLimbs(l.data(), m.q, m.n64); K.push_back(l[0]); K.push_back(l[0] - 1); K.push_back(l[0] + 1); K.push_back(l[0] / 2); }
    for (auto &x : V) {
        c.cur("%s words with a=%s", t.who.c_str(), x.hex().c_str());
        t.l("rawNeg", x, Z(0) - x == Z(0) ? Z(0) : (m.q - x) % m.q); t.l("rawCopy", x, x); t.l("rawFromMontgomery", x, (x * m.Rinv) % m.q);
        t.l("rawNot", x, red((Z(1) << m.bits) - Z(1) - x));
        toLimbs(t.slot(0), x, t.n);
        int z = (int)t.call("rawIsZero", "r", (uint64_t)t.slot(0));
        if (!!z != !mpz_sgn(x.v)) c.viol("arm64:rawIsZero", "%s a=%s gives %d", t.who.c_str(), x.hex().c_str(), z);
        for (auto k : K) {
            Z kz; mpz_set_ui(kz.v, k);
            t.lv("rawMMul1", x, k, (x * kz * m.Rinv) % m.q);
            if (!(kz < m.q)) continue;
            t.lv("rawAddLS", x, k, (x + kz) % m.q); t.lv("rawSubLS", x, k, (x - kz) % m.q); t.vl("rawSubSL", k, x, (kz - x) % m.q); if (k) t.lv("rawNegLS", x, k, (Z(0) - x - kz) % m.q);   // called for a negative short value only
            c.trans(5);
        }
    }
    for (auto k : K) for (int sg = 0; sg < 2; sg++) {
        int64_t s = sg ? (int64_t)k : -(int64_t)(k >> 33);
        Z v; mpz_set_si(v.v, s); Z ab; mpz_abs(ab.v, v.v); if (!(ab < m.q) || s == INT64_MIN) continue;
        for (auto &w : t.mem) w = 0xC0DEC0DEC0DEC0DEull;
        t.call("rawCopyS2L", "wv", (uint64_t)t.slot(0), (uint64_t)s);
        if (!eqLimbs(t.slot(0), v % m.q, t.n) || t.outside()) c.viol("arm64:rawCopyS2L", "%s %lld gives %s", t.who.c_str(), (long long)s, fromLimbs(t.slot(0), t.n).hex().c_str());
    }
    std::vector<Z> S; for (size_t i = 0; i < X.size(); i += std::max<size_t>(1, X.size() / (c.thorough ? 200 : 40))) S.push_back(X[i]); S.push_back(m.q - Z(1)); S.push_back(m.half);
    for (auto &x : S) for (int k = 0; k < m.bits; k++) { if (!(k % 16)) c.cur("%s shifts of %s by %d", t.who.c_str(), x.hex().c_str(), k); t.lv("rawShr", x, k, x >> k); t.lv("rawShl", x, k, red(x << k)); c.trans(2); }
}

int main(int argc, char **argv) {
    std::vector<Job> jobs;
    std::vector<char *> rest(argv, argv + argc);
    std::map<std::string, std::string> primes;
    for (size_t i = 1; i < rest.size();) {
        std::string a = rest[i]; size_t e = a.find('=');
        if (a[0] != '-' && e != std::string::npos) { primes[a.substr(0, e)] = a.substr(e + 1); rest.erase(rest.begin() + i); } else i++;
    }
    for (auto *g : armRegs()) {
        if (!primes.count(g->name)) continue;
        Z q; mpz_set_str(q.v, primes[g->name].c_str(), 10);
        jobs.push_back({"raw-" + g->name, [g, q](Ctx &c) { job(c, *g, q); }});
    }
    return run((int)rest.size(), rest.data(), jobs);
}
