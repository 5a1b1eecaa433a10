// F01/F02: raw (Montgomery) field layer of every generated implementation against GMP integers.
//   group "arith": add sub neg mul square mul1 inv div exp copy swap eq isZero shl shr, all aliasing patterns
//   group "conv" : Montgomery conversion, ints, decimal/other radix strings, mpz, big-endian bytes
#include "fieldkit.hpp"
std::vector<const Impl *> &impls() { static std::vector<const Impl *> v; return v; }
using namespace mcx;

struct T {
    Ctx &c; const Impl &I; Mod m; Fenced A, L; struct Slot { uint64_t *p; uint64_t *data() { return p; } } la, lb; std::string who;
    T(Ctx &c, const Impl &I, const Z &q) : c(c), I(I), A(I.n64, 3), L(I.n64, 2), la{L.slot(0)}, lb{L.slot(1)} { m.setPrime(q); who = std::string(I.label) + "/q=" + m.q.hex(); }

    // pattern: 0 distinct, 1 r=a, 2 r=b, 3 a=b, 4 r=a=b
    template <class FN> void bin(const char *op, FN fn, const Z &x, const Z &y, const Z &want, int pat) {
        A.reset();
        uint64_t *r = A.slot(0), *a = A.slot(1), *b = A.slot(2);
        if (pat == 1 || pat == 4) a = r;
        if (pat == 2 || pat == 4) b = r;
        if (pat == 3) b = a;
        toLimbs(a, x, I.n64); toLimbs(b, y, I.n64);
        c.s->curN = c.s->curN + 1;
        fn(r, a, b);
        c.eval();
        bool ok = eqLimbs(r, want, I.n64);
        bool opsOk = (a == r || eqLimbs(a, x, I.n64)) && (b == r || eqLimbs(b, y, I.n64));
        if (!ok || !opsOk || !A.guardsOk())
            c.viol(std::string(I.label) + ":" + op + (ok ? opsOk ? ":guard" : ":operand" : pat ? ":alias" : ":value"),
                   "%s %s alias-pattern %d a=%s b=%s expected %s got %s%s%s", who.c_str(), op, pat, x.hex().c_str(), y.hex().c_str(), want.hex().c_str(),
                   fromLimbs(r, I.n64).hex().c_str(), opsOk ? "" : " (operand modified)", A.guardsOk() ? "" : " (wrote outside its result)");
    }
    template <class FN> void un(const char *op, FN fn, const Z &x, const Z &want, int pat) {
        A.reset();
        uint64_t *r = A.slot(0), *a = A.slot(1);
        if (pat) a = r;
        toLimbs(a, x, I.n64);
        fn(r, a);
        c.eval();
        bool ok = eqLimbs(r, want, I.n64), opsOk = a == r || eqLimbs(a, x, I.n64);
        if (!ok || !opsOk || !A.guardsOk())
            c.viol(std::string(I.label) + ":" + op + (ok ? opsOk ? ":guard" : ":operand" : pat ? ":alias" : ":value"),
                   "%s %s alias %d a=%s expected %s got %s%s", who.c_str(), op, pat, x.hex().c_str(), want.hex().c_str(), fromLimbs(r, I.n64).hex().c_str(), A.guardsOk() ? "" : " (wrote outside its result)");
    }
    void check(bool ok, const char *op, const char *fmt, ...) __attribute__((format(printf, 4, 5))) {
        c.eval();
        if (ok) return;
        char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        c.viol(std::string(I.label) + ":" + op, "%s %s %s", who.c_str(), op, b);
    }
};

static std::vector<Z> alphabet(const Mod &m, bool thorough) {
    if (m.bits <= (thorough ? 9 : 6)) { std::vector<Z> v; for (long i = 0; Z(i) < m.q; i++) v.push_back(Z(i)); return v; }
    int sw, cl;
    if (thorough) { sw = m.n64 <= 4 ? 3 : m.n64 <= 6 ? 2 : 1; cl = m.n64 <= 4 ? 5 : m.n64 <= 6 ? 4 : 6; }
    else { sw = m.n64 <= 2 ? 2 : m.n64 <= 4 ? 2 : 1; cl = m.n64 <= 2 ? 7 : m.n64 <= 4 ? 4 : 4; }
    return limbAlphabet(m, sw, cl, m.n64 <= 8);
}

// a loop whose iterations leave memory blocks behind, one after the other
struct Leak {
    T &t; const char *what; long prev = -1, sum = 0;
    void tick() {
        long l = Mem::live();
        if (prev >= 0 && l != prev) { sum += l - prev; t.check(sum < 24, "memory", "%s leave more and more memory blocks behind (%ld by now)", what, sum); }
        prev = l;
    }
};

static void arith(Ctx &c, const Impl &I, const Z &q) {
    T t(c, I, q); const Mod &m = t.m;
    Leak l1{t, "division"}, l2{t, "unary operations"};
    auto A = alphabet(m, c.thorough);
    auto S = thin(A, c.thorough ? 120 : 48);
    // make sure the boundary values survive thinning
    for (long k = 0; k <= 2; k++) { S.push_back(Z(k) % m.q); S.push_back((m.q - Z(1 + k)) % m.q); }
    S.push_back(m.R); S.push_back(m.half);
    c.state(A.size());
    c.sample("%s: alphabet of %zu residues, e.g. %s, %s; every ordered pair through add/sub/mul", t.who.c_str(), A.size(), A[A.size() / 2].hex().c_str(), A.back().hex().c_str());
    c.cur("%s all pairs", t.who.c_str());
    for (auto &x : A) {
        c.cur("%s binary ops with a=%s", t.who.c_str(), x.hex().c_str());
        for (auto &y : A) {
            Z s = x + y; if (!(s < m.q)) s = s - m.q;
            t.bin("add", I.rAdd, x, y, s, 0);
            Z d = x - y; if (mpz_sgn(d.v) < 0) d = d + m.q;
            t.bin("sub", I.rSub, x, y, d, 0);
            t.bin("mul", I.rMul, x, y, m.mmul(x, y), 0);
            c.trans(3);
            if (mpz_sgn(x.v) && mpz_sgn(y.v)) c.nontrivial();
        }
    }
    for (auto &x : S) for (auto &y : S) {
        l1.tick();
        c.cur("%s aliasing/class ops a=%s b=%s", t.who.c_str(), x.hex().c_str(), y.hex().c_str());
        Z s = (x + y) % m.q, d = (x - y) % m.q, p = m.mmul(x, y);
        for (int pat = 1; pat <= 4; pat++) {
            if (pat >= 3 && x != y) continue;
            t.bin("add", I.rAdd, x, y, s, pat); t.bin("sub", I.rSub, x, y, d, pat); t.bin("mul", I.rMul, x, y, p, pat);
        }
        t.bin("class-add", I.cAdd, x, y, s, 0); t.bin("class-sub", I.cSub, x, y, d, 0); t.bin("class-mul", I.cMul, x, y, p, 0);
        t.bin("class-addV", I.cAddV, x, y, s, 0); t.bin("class-subV", I.cSubV, x, y, d, 0); t.bin("class-mulV", I.cMulV, x, y, p, 0);
        t.bin("class-mul", I.cMul, x, y, p, 1); t.bin("class-add", I.cAdd, x, y, s, 2);
        c.trans(12);
        // eq, swap
        toLimbs(t.la.data(), x, I.n64); toLimbs(t.lb.data(), y, I.n64);
        t.check(!!I.cEq(t.la.data(), t.lb.data()) == (x == y), "eq", "a=%s b=%s", x.hex().c_str(), y.hex().c_str());
        t.check(!!I.rIsEq(t.la.data(), t.lb.data()) == (x == y), "rawIsEq", "a=%s b=%s", x.hex().c_str(), y.hex().c_str());
        I.cSwap(t.la.data(), t.lb.data());
        t.check(eqLimbs(t.la.data(), y, I.n64) && eqLimbs(t.lb.data(), x, I.n64), "swap", "a=%s b=%s gave %s,%s", x.hex().c_str(), y.hex().c_str(), fromLimbs(t.la.data(), I.n64).hex().c_str(), fromLimbs(t.lb.data(), I.n64).hex().c_str());
        if (mpz_sgn(y.v)) {
            Z iy; mpz_invert(iy.v, y.v, m.q.v);   // a/b in Montgomery form: a*inv(b) * R
            Z want = (x * iy * m.R) % m.q;
            for (int pat = 0; pat < 3; pat++) t.bin("div", I.cDiv, x, y, want, pat);
        }
    }
    // results aimed at the boundaries: a * b = target for every target in the special set
    {
        auto X = thin(A, c.thorough ? 400 : 100);
        std::vector<Z> tg;
        for (long k = 0; k <= 3; k++) { tg.push_back(Z(k) % m.q); tg.push_back((m.q - Z(1 + k)) % m.q); tg.push_back((Z(1) << (64 * (m.n64 - 1))) % m.q); }
        tg.push_back(m.half); tg.push_back(m.R);
        for (auto &x : X) if (mpz_sgn(x.v)) for (auto &z : tg) {
            Z ix; mpz_invert(ix.v, x.v, m.q.v);
            Z y = (z * m.R * ix) % m.q;
            t.bin("mul", I.rMul, x, y, z, 0);
            t.bin("add", I.rAdd, x, (z - x) % m.q, z, 0);
            t.bin("sub", I.rSub, x, (x - z) % m.q, z, 0);
            c.trans(3);
        }
    }
    std::vector<uint64_t> ks = {0, 1, 2, 3, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 1ull << 62, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull, I.qLimbs[0], I.qLimbs[0] - 1, 0x5555555555555555ull};
    for (auto &x : A) {
        l2.tick();
        c.cur("%s unary ops a=%s", t.who.c_str(), x.hex().c_str());
        Z n = mpz_sgn(x.v) ? m.q - x : Z(0), sq = m.mmul(x, x);
        for (int pat = 0; pat < 2; pat++) {
            t.un("neg", I.rNeg, x, n, pat); t.un("square", I.rSquare, x, sq, pat);
            t.un("class-neg", I.cNeg, x, n, pat); t.un("class-square", I.cSquare, x, sq, pat);
            t.un("copy", I.rCopy, x, x, pat); t.un("class-copy", I.cCopy, x, x, pat);
            t.un("class-negV", I.cNegV, x, n, pat); t.un("class-squareV", I.cSquareV, x, sq, pat);
            c.trans(8);
            if (mpz_sgn(x.v)) { Z i; mpz_invert(i.v, x.v, m.q.v); t.un("inv", I.cInv, x, (i * m.R2) % m.q, pat); }
            for (auto k : ks) {
                Z kz; mpz_set_ui(kz.v, k);
                Z want = (x * kz * m.Rinv) % m.q;
                t.un("mul1", [&](void *r, void *a) { I.rMul1(r, a, k); }, x, want, pat);
                t.un("class-mul1", [&](void *r, void *a) { I.cMul1(r, a, k); }, x, want, pat);
            }
        }
        toLimbs(t.la.data(), x, I.n64);
        t.check(!!I.cIsZero(t.la.data()) == !mpz_sgn(x.v), "isZero", "a=%s", x.hex().c_str());
        t.check(!!I.rIsZero(t.la.data()) == !mpz_sgn(x.v), "rawIsZero", "a=%s", x.hex().c_str());
    }
    // eq on values that differ in exactly one bit / one limb
    for (auto &x : S) for (int b = 0; b < 64 * I.n64; b += c.thorough ? 1 : 5) {
        Z y = x; mpz_combit(y.v, b);
        if (!(y < m.q)) continue;
        toLimbs(t.la.data(), x, I.n64); toLimbs(t.lb.data(), y, I.n64);
        t.check(!I.cEq(t.la.data(), t.lb.data()), "eq", "a=%s b=%s differ in bit %d", x.hex().c_str(), y.hex().c_str(), b);
        Z w = Z(1) << b; if (w < m.q) { toLimbs(t.la.data(), w, I.n64); t.check(!I.cIsZero(t.la.data()), "isZero", "2^%d", b); }
    }
    // exponentiation: every exponent up to 2^10 (thorough 2^13) in 0..3 byte encodings, and boundary exponents
    {
        auto B = thin(S, 8);
        for (auto &x : B) {
            Z acc = m.R;
            int lim = c.thorough ? 8192 : 600;
            for (int e = 0; e < lim; e++) {
                c.cur("%s exp base %s exponent %d", t.who.c_str(), x.hex().c_str(), e);
                uint8_t s[4] = {(uint8_t)e, (uint8_t)(e >> 8), (uint8_t)(e >> 16), 0};
                unsigned sz = e == 0 ? 0 : e < 256 ? 1 : 2;
                t.un("exp", [&](void *r, void *a) { I.cExp(r, a, s, sz); }, x, acc, e & 1);
                if (e % 7 == 0) t.un("exp", [&](void *r, void *a) { I.cExp(r, a, s, 4); }, x, acc, 0);
                acc = m.mmul(acc, x);
            }
            std::vector<Z> big = {m.q - Z(2), m.q - Z(1), m.q, m.half, (Z(1) << (64 * m.n64)) - Z(1), Z(1) << (64 * m.n64 - 1), Z(1) << 8, Z(1) << 16, (Z(1) << 16) - Z(1)};
            for (auto &e : big) {
                std::vector<uint64_t> s(I.n64 + 1);
                Z ee = e % (Z(1) << (64 * m.n64));
                toLimbs(s.data(), ee, I.n64 + 1);
                Z base = m.mmul(x, Z(1)), w; mpz_powm(w.v, base.v, ee.v, m.q.v); w = (w * m.R) % m.q;
                for (int extra = 0; extra < 2; extra++)
                    t.un("exp", [&](void *r, void *a) { I.cExp(r, a, (uint8_t *)s.data(), I.n64 * 8 + extra * 8); }, x, w, extra);
            }
        }
    }
    // raw shifts on normal-form residues
    {
        auto B = thin(S, 30);
        for (auto &x : B) for (int b = 0; b < m.bits; b++) {
            if (!c.thorough && b > 6 && b % 64 > 2 && b % 64 < 61 && b < m.bits - 3 && b % 13) continue;
            c.cur("%s shift %s by %d", t.who.c_str(), x.hex().c_str(), b);
            Z l = (x << b) % (Z(1) << m.bits); if (!(l < m.q)) l = l - m.q;
            t.un("rawShl", [&](void *r, void *a) { I.rShl(r, a, b); }, x, l, 0);
            t.un("rawShr", [&](void *r, void *a) { I.rShr(r, a, b); }, x, x >> b, 0);
        }
    }
    // calling convention
    if (!strcmp(I.label, "x86")) {
        auto B = thin(S, 12);
        std::vector<uint64_t> r(I.n64 + 1);
        struct { const char *n; void *f; bool un; } fs[] = {{"add", (void *)I.rAdd, 0}, {"sub", (void *)I.rSub, 0}, {"mul", (void *)I.rMul, 0}, {"neg", (void *)I.rNeg, 1}, {"square", (void *)I.rSquare, 1}, {"toMontgomery", (void *)I.rToM, 1}, {"fromMontgomery", (void *)I.rFromM, 1}, {"copy", (void *)I.rCopy, 1}, {"swap", (void *)I.rSwap, 1}};
        for (auto &f : fs) for (auto &x : B) for (auto &y : B) {
            toLimbs(t.la.data(), x, I.n64); toLimbs(t.lb.data(), y, I.n64); toLimbs(r.data(), y, I.n64);
            int bad = abiCall(f.f, r.data(), t.la.data(), f.un ? 0 : t.lb.data());
            t.check(!bad, "abi", "%s destroys callee-saved registers (mask %d) a=%s b=%s", f.n, bad, x.hex().c_str(), y.hex().c_str());
        }
    }
}

static void conv(Ctx &c, const Impl &I, const Z &q) {
    T t(c, I, q); const Mod &m = t.m;
    Leak l1{t, "conversions"}, l2{t, "integer conversions"};
    auto A = alphabet(m, c.thorough);
    if (!c.thorough) A = thin(A, 260);
    for (long k = 0; k <= 2; k++) { A.push_back(Z(k) % m.q); A.push_back((m.q - Z(1 + k)) % m.q); }
    c.state(A.size());
    c.sample("%s: %zu residues through Montgomery/int/string/mpz/big-endian conversions and back", t.who.c_str(), A.size());
    int n = I.n64;
    std::vector<uint64_t> x1(n), x2(n);
    t.check(I.maxBits == m.bits, "MaxBits", "%d vs %d", I.maxBits, m.bits);
    t.check(I.cBytes() == 8 * n, "bytes", "%d", I.cBytes());
    t.check(n == m.n64, "N64", "%d vs %d", n, m.n64);
    t.check(eqLimbs(I.qLimbs, m.q, n), "q", "modulus constant %s", fromLimbs(I.qLimbs, n).hex().c_str());
    I.cZero(x1.data()); t.check(eqLimbs(x1.data(), Z(0), n), "zero", "%s", fromLimbs(x1.data(), n).hex().c_str());
    I.cOne(x1.data()); t.check(eqLimbs(x1.data(), m.R, n), "one", "%s", fromLimbs(x1.data(), n).hex().c_str());
    I.cNegOne(x1.data()); t.check(eqLimbs(x1.data(), m.q - m.R, n), "negOne", "%s", fromLimbs(x1.data(), n).hex().c_str());
    for (auto &v : A) {
        l1.tick();
        c.cur("%s conversions of %s", t.who.c_str(), v.hex().c_str());
        Z mont = (v * m.R) % m.q;
        for (int pat = 0; pat < 2; pat++) {
            t.un("toMontgomery", I.rToM, v, mont, pat); t.un("fromMontgomery", I.rFromM, mont, v, pat); t.un("fromMontgomery", I.rFromM, v, (v * m.Rinv) % m.q, pat);
            t.un("class-toMontgomery", I.cToM, v, mont, pat); t.un("class-fromMontgomery", I.cFromM, mont, v, pat);
            c.trans(5);
            if (mpz_sgn(v.v) && !pat) c.nontrivial();
        }
        for (int radix = 2; radix <= 36; radix++) {
            if (!c.thorough && radix != 10 && radix != 16 && radix != 2 && radix != 36 && radix % 7 != 3) continue;
            std::string s = v.dec(radix);
            memset(x1.data(), 0xAA, 8 * n);
            I.cFromString(x1.data(), s, radix);
            t.check(eqLimbs(x1.data(), mont, n), "fromString", "'%s' radix %d -> %s", s.c_str(), radix, fromLimbs(x1.data(), n).hex().c_str());
            std::string b = I.cToString(x1.data(), radix);
            t.check(b == s, "toString", "'%s' radix %d -> '%s'", s.c_str(), radix, b.c_str());
        }
        I.cFromString10(x1.data(), v.dec()); t.check(eqLimbs(x1.data(), mont, n), "fromString10", "%s", v.dec().c_str());
        t.check(I.cToString10(x1.data()) == v.dec(), "toString10", "%s -> %s", v.dec().c_str(), I.cToString10(x1.data()).c_str());
        // strings outside the canonical range are reduced
        Z over[] = {v + m.q, v + m.q + m.q, v - m.q, v - m.q - m.q, v + (m.q * m.q)};
        for (auto &o : over) { I.cFromString(x1.data(), o.dec(), 10); t.check(eqLimbs(x1.data(), mont, n), "fromString-reduce", "%s -> %s", o.dec().c_str(), fromLimbs(x1.data(), n).hex().c_str()); }
        memset(x1.data(), 0xAA, 8 * n);
        I.cFromMpz(x1.data(), v.v); t.check(eqLimbs(x1.data(), mont, n), "fromMpz", "%s", v.hex().c_str());
        Z back(12345); I.cToMpz(back.v, x1.data()); t.check(back == v, "toMpz", "%s -> %s", v.hex().c_str(), back.hex().c_str());
        // numbers of the field's width that are not below the modulus are reduced
        Z top = Z(1) << (64 * n), ks[] = {Z(1), Z(2), (top - v - Z(1)) / m.q, top};
        for (auto &k : ks) {
            Z o = k == top ? top - Z(1) - v : v + k * m.q;
            if (!(o < top)) continue;
            Z w = ((o % m.q) * m.R) % m.q;
            memset(x1.data(), 0xAA, 8 * n);
            I.cFromMpz(x1.data(), o.v); t.check(eqLimbs(x1.data(), w, n), "fromMpz-reduce", "%s -> %s", o.hex().c_str(), fromLimbs(x1.data(), n).hex().c_str());
            std::vector<uint8_t> d(8 * n);
            for (int i = 0; i < 8 * n; i++) { Z b = o >> (8 * (8 * n - 1 - i)); d[i] = mpz_get_ui(b.v) & 255; }
            memset(x1.data(), 0xAA, 8 * n);
            int rc = I.cFromRprBE(x1.data(), d.data(), 8 * n); t.check(rc == 8 * n && eqLimbs(x1.data(), w, n), "fromRprBE-reduce", "%s -> %s", o.hex().c_str(), fromLimbs(x1.data(), n).hex().c_str());
        }
        toLimbs(x1.data(), mont, n);
        // big-endian bytes
        for (int bytes = 8 * n; bytes <= 8 * n + 16; bytes += 8) {
            std::vector<uint8_t> d(bytes + 16, 0xEE);
            toLimbs(x1.data(), mont, n);
            int rc = I.cToRprBE(x1.data(), d.data(), bytes);
            bool guard = true; for (int i = bytes; i < bytes + 16; i++) if (d[i] != 0xEE) guard = false;
            t.check(rc == 8 * n && guard, "toRprBE-rc", "%s bytes=%d rc=%d guard=%d", v.hex().c_str(), bytes, rc, guard);
            memset(x2.data(), 0x77, 8 * n);
            int rc2 = I.cFromRprBE(x2.data(), d.data(), bytes);
            t.check(rc2 == 8 * n && eqLimbs(x2.data(), mont, n), bytes == 8 * n ? "RprBE-roundtrip" : "RprBE-roundtrip-larger-buffer", "%s bytes=%d rc=%d -> %s", v.hex().c_str(), bytes, rc2, fromLimbs(x2.data(), n).hex().c_str());
            if (bytes == 8 * n) {
                bool be = true; Z w = v;
                for (int i = 0; i < bytes; i++) { unsigned long byte = mpz_fdiv_q_ui(w.v, w.v, 256); if (d[bytes - 1 - i] != byte) be = false; }
                t.check(be, "toRprBE-bytes", "%s", v.hex().c_str());
                for (int i = 0; i < bytes; i++) d[i] = 0;
                w = v; for (int i = 0; i < bytes; i++) d[bytes - 1 - i] = mpz_fdiv_q_ui(w.v, w.v, 256);
                I.cFromRprBE(x2.data(), d.data(), bytes);
                t.check(eqLimbs(x2.data(), mont, n), "fromRprBE-bytes", "%s -> %s", v.hex().c_str(), fromLimbs(x2.data(), n).hex().c_str());
            }
        }
        for (int bytes = 0; bytes < 8 * n; bytes += (c.thorough ? 1 : 7)) {
            std::vector<uint8_t> d(8 * n, 0xEE), d0 = d;
            int rc = I.cToRprBE(x1.data(), d.data(), bytes);
            t.check(rc == -8 * n && d == d0, "toRprBE-short", "bytes=%d rc=%d", bytes, rc);
            std::vector<uint64_t> k(n, 0x1234), k0 = k;
            rc = I.cFromRprBE(k.data(), d.data(), bytes);
            t.check(rc == -8 * n && k == k0, "fromRprBE-short", "bytes=%d rc=%d", bytes, rc);
        }
    }
    // integers: every value of a contiguous range around zero and around the type limits
    std::vector<long> iv;
    long range = c.thorough ? 70000 : 3000;
    for (long k = -range; k <= range; k++) iv.push_back(k);
    for (int b = 12; b < 32; b++) for (int d = -2; d <= 2; d++) { iv.push_back((1l << b) + d); iv.push_back(-(1l << b) + d); }
    for (long k : iv) {
        if (k > 2147483647l || k < -2147483648l) continue;
        Z kz(k);
        l2.tick();
        c.cur("%s set(%ld)", t.who.c_str(), k);
        Z want = ((kz % m.q) * m.R) % m.q;
        memset(x1.data(), 0x55, 8 * n);
        I.cSet(x1.data(), (int)k); t.check(eqLimbs(x1.data(), want, n), "set", "%ld -> %s", k, fromLimbs(x1.data(), n).hex().c_str());
        memset(x1.data(), 0x55, 8 * n);
        I.cSetV(x1.data(), (int)k); t.check(eqLimbs(x1.data(), want, n), "setV", "%ld -> %s", k, fromLimbs(x1.data(), n).hex().c_str());
        if (k % 97 == 0 || (k > -20 && k < 20) || k > range || k < -range) {
            Z a = A[(size_t)(k < 0 ? -k : k) % A.size()];
            for (int op = 0; op < 3; op++) for (int first = 0; first < 2; first++) {
                toLimbs(x2.data(), a, n);
                memset(x1.data(), 0x55, 8 * n);
                I.cInt(x1.data(), op, first, (int)k, x2.data());
                Z w = op == 0 ? (a + want) % m.q : op == 1 ? (first ? want - a : a - want) % m.q : m.mmul(a, want);
                t.check(eqLimbs(x1.data(), w, n), "int-overload", "op %d first %d k=%ld a=%s -> %s want %s", op, first, k, a.hex().c_str(), fromLimbs(x1.data(), n).hex().c_str(), w.hex().c_str());
            }
        }
    }
    for (unsigned long v : {0ul, 1ul, 2ul, 255ul, 256ul, 65535ul, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 63) - 1, 1ul << 63, ~0ul - 1, ~0ul}) {
        Z z; mpz_set_ui(z.v, v);
        memset(x1.data(), 0x55, 8 * n);
        I.cFromUI(x1.data(), v);
        t.check(eqLimbs(x1.data(), (z * m.R) % m.q, n), "fromUI", "%lu -> %s", v, fromLimbs(x1.data(), n).hex().c_str());
    }
}

int main(int argc, char **argv) {
    std::vector<Job> jobs;
    std::string group = argv[1];
    std::vector<char *> rest(argv, argv + argc); rest.erase(rest.begin() + 1);
    // "Name=prime" arguments follow "--": the moduli are given by the driver, not read from the generated code
    std::map<std::string, std::string> primes;
    for (size_t i = 1; i < rest.size();) {
        std::string a = rest[i]; size_t e = a.find('=');
        if (a[0] != '-' && e != std::string::npos) { primes[a.substr(0, e)] = a.substr(e + 1); rest.erase(rest.begin() + i); } else i++;
    }
    for (auto *i : impls()) {
        if (!primes.count(i->name)) continue;
        Z q; mpz_set_str(q.v, primes[i->name].c_str(), 10);
        std::string nm = std::string(i->label) + "-" + i->name;
        if (group == "arith") jobs.push_back({nm, [i, q](Ctx &c) { arith(c, *i, q); }});
        else jobs.push_back({nm, [i, q](Ctx &c) { conv(c, *i, q); }});
    }
    // biggest first
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job &, const Job &) { return false; });
    return run((int)rest.size(), rest.data(), jobs);
}
