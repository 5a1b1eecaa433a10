// F03..F07: tagged field elements (short / short+Montgomery / long / long Montgomery) of every generated
// implementation against GMP integers, over all representation combinations, aliasing patterns and op sequences.
#include "fieldkit.hpp"
std::vector<const Impl *> &impls() { static std::vector<const Impl *> v; return v; }
using namespace mcx;

enum { SHORT = 0, SHORTM = 0x40000000, LONG = (int)0x80000000, LONGM = (int)0xC0000000 };
struct El { std::vector<uint64_t> w; };   // w[0] = shortVal | type << 32 ; w[1..n] limbs
static const char *tname(uint32_t t) { return t == 0 ? "short" : t == 0x40000000u ? "short+mont" : t == 0x80000000u ? "long" : t == 0xC0000000u ? "long-mont" : "BADTYPE"; }

struct Opnd { El e; Z v; uint32_t type; };

struct Ref {
    Mod m; int n;
    Z sgn(const Z &a) const { return m.half < a ? a - m.q : a; }
    Z red(const Z &a) const { return m.q < a || a == m.q ? a - m.q : a; }
    Z band(const Z &a, const Z &b) const { Z r; mpz_and(r.v, a.v, b.v); mpz_and(r.v, r.v, m.mask.v); return red(r); }
    Z bor(const Z &a, const Z &b) const { Z r; mpz_ior(r.v, a.v, b.v); mpz_and(r.v, r.v, m.mask.v); return red(r); }
    Z bxor(const Z &a, const Z &b) const { Z r; mpz_xor(r.v, a.v, b.v); mpz_and(r.v, r.v, m.mask.v); return red(r); }
    Z bnot(const Z &a) const { Z r; mpz_xor(r.v, a.v, m.mask.v); return red(r); }
    Z shl1(const Z &a, unsigned k) const { Z r = a << k; mpz_and(r.v, r.v, m.mask.v); return red(r); }
    Z shl(const Z &a, const Z &b) const {
        if (b < Z(m.bits)) return shl1(a, mpz_get_ui(b.v));
        Z nb = m.q - b; if (nb < Z(m.bits)) return a >> mpz_get_ui(nb.v);
        return Z(0);
    }
    Z shr(const Z &a, const Z &b) const {
        if (b < Z(m.bits)) return a >> mpz_get_ui(b.v);
        Z nb = m.q - b; if (nb < Z(m.bits)) return shl1(a, mpz_get_ui(nb.v));
        return Z(0);
    }
};

struct Op2 { const char *name; Fn2 Impl::*fn; std::function<bool(const Ref &, const Z &, const Z &, Z &)> ref; };
struct Op1 { const char *name; Fn1 Impl::*fn; std::function<bool(const Ref &, const Z &, Z &)> ref; };

static std::vector<Op2> ops2(const std::string &g) {
    std::vector<Op2> r;
    auto add = [&](const char *n, Fn2 Impl::*f, std::function<bool(const Ref &, const Z &, const Z &, Z &)> o) { r.push_back({n, f, o}); };
    if (g == "arith" || g == "seq") {
        add("add", &Impl::add, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = (a + b) % R.m.q; return true; });
        add("sub", &Impl::sub, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = (a - b) % R.m.q; return true; });
        add("mul", &Impl::mul, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = (a * b) % R.m.q; return true; });
        add("div", &Impl::div, [](const Ref &R, const Z &a, const Z &b, Z &o) { if (!mpz_sgn(b.v)) return false; Z i; mpz_invert(i.v, b.v, R.m.q.v); o = (a * i) % R.m.q; return true; });
        add("idiv", &Impl::idiv, [](const Ref &R, const Z &a, const Z &b, Z &o) { if (!mpz_sgn(b.v)) return false; o = a / b; return true; });
        add("mod", &Impl::mod, [](const Ref &R, const Z &a, const Z &b, Z &o) { if (!mpz_sgn(b.v)) return false; o = a % b; return true; });
    }
    if (g == "pow") add("pow", &Impl::pow, [](const Ref &R, const Z &a, const Z &b, Z &o) { mpz_powm(o.v, a.v, b.v, R.m.q.v); return true; });
    if (g == "cmp" || g == "seq") {
        add("eq", &Impl::eq, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(a == b); return true; });
        add("neq", &Impl::neq, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(a != b); return true; });
        add("lt", &Impl::lt, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(R.sgn(a) < R.sgn(b)); return true; });
        add("gt", &Impl::gt, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(R.sgn(b) < R.sgn(a)); return true; });
        add("leq", &Impl::leq, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(!(R.sgn(b) < R.sgn(a))); return true; });
        add("geq", &Impl::geq, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(!(R.sgn(a) < R.sgn(b))); return true; });
        add("land", &Impl::land, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(mpz_sgn(a.v) && mpz_sgn(b.v)); return true; });
        add("lor", &Impl::lor, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = Z(mpz_sgn(a.v) || mpz_sgn(b.v)); return true; });
    }
    if (g == "bits" || g == "seq") {
        add("band", &Impl::band, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = R.band(a, b); return true; });
        add("bor", &Impl::bor, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = R.bor(a, b); return true; });
        add("bxor", &Impl::bxor, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = R.bxor(a, b); return true; });
        add("shl", &Impl::shl, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = R.shl(a, b); return true; });
        add("shr", &Impl::shr, [](const Ref &R, const Z &a, const Z &b, Z &o) { o = R.shr(a, b); return true; });
    }
    return r;
}
static std::vector<Op1> ops1(const std::string &g) {
    std::vector<Op1> r;
    auto add = [&](const char *n, Fn1 Impl::*f, std::function<bool(const Ref &, const Z &, Z &)> o) { r.push_back({n, f, o}); };
    if (g == "arith" || g == "seq") {
        add("neg", &Impl::neg, [](const Ref &R, const Z &a, Z &o) { o = (Z(0) - a) % R.m.q; return true; });
        add("square", &Impl::square, [](const Ref &R, const Z &a, Z &o) { o = (a * a) % R.m.q; return true; });
        add("inv", &Impl::inv, [](const Ref &R, const Z &a, Z &o) { if (!mpz_sgn(a.v)) return false; mpz_invert(o.v, a.v, R.m.q.v); return true; });
    }
    if (g == "cmp" || g == "seq") add("lnot", &Impl::lnot, [](const Ref &R, const Z &a, Z &o) { o = Z(!mpz_sgn(a.v)); return true; });
    if (g == "bits" || g == "seq") add("bnot", &Impl::bnot, [](const Ref &R, const Z &a, Z &o) { o = R.bnot(a); return true; });
    if (g == "conv" || g == "seq") {
        auto id = [](const Ref &R, const Z &a, Z &o) { o = a; return true; };
        add("toNormal", &Impl::toNormal, id); add("toLongNormal", &Impl::toLongNormal, id); add("toMontgomery", &Impl::toMontgomery, id); add("copy", &Impl::copy, id);
    }
    return r;
}

struct T {
    Ctx &c; const Impl &I; Ref R; std::string who; int n;
    Fenced A;
    T(Ctx &c, const Impl &I, const Z &q) : c(c), I(I), n(I.n64), A(I.n64 + 1, 4) { R.m.setPrime(q); R.n = n; who = std::string(I.label) + "/q=" + R.m.q.hex(); }
    uint64_t *slot(int i) { return A.slot(i); }
    void reset() { A.reset(); }
    bool guards() { return A.guardsOk(); }

    // every representation of v. garbage fills the fields a representation does not define.
    void reps(const Z &v, std::vector<Opnd> &out) {
        Z s = R.sgn(v);
        bool isShort = mpz_fits_sint_p(s.v) && !(R.m.q < Z(1l << 32));
        // small moduli: a short is any int32 whose residue is v; keep the canonical signed one
        if (R.m.q < Z(1l << 32)) isShort = mpz_fits_sint_p(s.v);
        Z mont = (v * R.m.R) % R.m.q;
        auto mk = [&](uint32_t type, int32_t sv, const Z *lv, uint64_t garbage) {
            Opnd o; o.v = v; o.type = type; o.e.w.assign(n + 1, garbage);
            o.e.w[0] = (uint32_t)sv | ((uint64_t)type << 32);
            if (lv) toLimbs(&o.e.w[1], *lv, n);
            out.push_back(o);
        };
        if (isShort) { int sv = mpz_get_si(s.v); mk(SHORT, sv, 0, 0xA5A5A5A5A5A5A5A5ull); mk(SHORTM, sv, &mont, 0); }
        mk(LONG, 0x5A5A5A5A, &v, 0);
        mk(LONGM, -0x12345678, &mont, 0);
    }
    // decode a result; returns an error text or NULL
    const char *decode(const uint64_t *w, Z &v) {
        uint32_t type = w[0] >> 32; int32_t sv = (int32_t)w[0];
        Z l = fromLimbs(w + 1, n);
        switch (type) {
        case (uint32_t)SHORT: v = Z(sv) % R.m.q; return NULL;
        case (uint32_t)SHORTM: v = Z(sv) % R.m.q; if (l != (v * R.m.R) % R.m.q) return "short and Montgomery parts disagree"; return NULL;
        case (uint32_t)LONG: v = l; if (!(l < R.m.q)) return "long result not below the modulus"; return NULL;
        case (uint32_t)LONGM: if (!(l < R.m.q)) { v = l; return "Montgomery result not below the modulus"; } v = (l * R.m.Rinv) % R.m.q; return NULL;
        }
        return "undefined type tag";
    }
    std::string show(const uint64_t *w) {
        char b[64]; snprintf(b, sizeof b, "{short=%d type=%s long=", (int32_t)w[0], tname(w[0] >> 32));
        return b + fromLimbs(w + 1, n).hex() + "}";
    }
    // memory that calls leave behind; a few blocks may be kept for ever (caches), a growing number may not
    std::map<std::string, long> left;
    void grew(const char *name, long d) { long &l = left[name]; l += d; check(l < 24, "memory", "%s leaves more and more memory blocks behind (%ld by now)", name, l); }
    template <class FN> bool run2(const char *name, FN fn, const Opnd &a, const Opnd &b, const Z &want, int pat, std::vector<uint64_t> *res = NULL) {
        reset();
        uint64_t *r = slot(0), *pa = slot(1), *pb = slot(2);
        if (pat == 1 || pat == 4) pa = r;
        if (pat == 2 || pat == 4) pb = r;
        if (pat == 3) pb = pa;
        memcpy(pa, a.e.w.data(), 8 * (n + 1)); memcpy(pb, b.e.w.data(), 8 * (n + 1));
        long m0 = Mem::live();
        fn(r, pa, pb);
        if (Mem::live() != m0) grew(name, Mem::live() - m0);
        c.eval();
        Z got; const char *err = decode(r, got);
        bool opsOk = (pa == r || !memcmp(pa, a.e.w.data(), 8 * (n + 1))) && (pb == r || !memcmp(pb, b.e.w.data(), 8 * (n + 1)));
        bool g = guards();
        if (res) res->assign(r, r + n + 1);
        if (err || got != want || !opsOk || !g) {
            c.viol(std::string(I.label) + ":" + name + ((err || got != want) ? pat ? ":alias" : ":value" : g ? ":operand" : ":guard"), "%s %s alias-pattern %d a=%s %s b=%s %s expected %s got %s %s%s", who.c_str(), name, pat, tname(a.type), a.v.hex().c_str(), tname(b.type), b.v.hex().c_str(), want.hex().c_str(), show(r).c_str(), err ? err : "", g ? opsOk ? "" : " (operand modified)" : " (wrote outside its result)");
            return false;
        }
        return true;
    }
    template <class FN> bool run1(const char *name, FN fn, const Opnd &a, const Z &want, int pat, std::vector<uint64_t> *res = NULL) {
        reset();
        uint64_t *r = slot(0), *pa = pat ? r : slot(1);
        memcpy(pa, a.e.w.data(), 8 * (n + 1));
        long m0 = Mem::live();
        fn(r, pa);
        if (Mem::live() != m0) grew(name, Mem::live() - m0);
        c.eval();
        Z got; const char *err = decode(r, got);
        bool opsOk = pa == r || !memcmp(pa, a.e.w.data(), 8 * (n + 1)), g = guards();
        if (res) res->assign(r, r + n + 1);
        if (err || got != want || !opsOk || !g) {
            c.viol(std::string(I.label) + ":" + name + ((err || got != want) ? pat ? ":alias" : ":value" : g ? ":operand" : ":guard"), "%s %s alias %d a=%s %s expected %s got %s %s%s", who.c_str(), name, pat, tname(a.type), a.v.hex().c_str(), want.hex().c_str(), show(r).c_str(), err ? err : "", g ? opsOk ? "" : " (operand modified)" : " (wrote outside its result)");
            return false;
        }
        return true;
    }
    void check(bool ok, const char *op, const char *fmt, ...) __attribute__((format(printf, 4, 5))) {
        c.eval();
        if (ok) return;
        char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        c.viol(std::string(I.label) + ":" + op, "%s %s %s", who.c_str(), op, b);
    }
};

// critical values: shorts around 0 and the int32 limits, word boundaries, the sign boundary q/2, shift-count boundaries
static std::vector<Z> critical(const Mod &m, int width, bool extraShifts) {
    std::set<Z> s;
    auto around = [&](const Z &x, int w) { for (int k = -w; k <= w; k++) { s.insert((x + Z(k)) % m.q); } };
    around(Z(0), 3 + width);
    for (int b : {31, 32}) { around(Z(1) << b, width); around(Z(0) - (Z(1) << b), width); }
    for (int b = 63; b <= m.bits; b += 64) for (int k = 0; k < 2; k++) { around(Z(1) << (b + k), width > 1 ? 1 : width); if (width > 1) around(Z(0) - (Z(1) << (b + k)), 1); }
    around(m.half, width);
    around(Z(1) << (m.bits - 1), width);
    around(m.R, 0); around(Z(0xffff) * Z(0xffff), 0); around(Z(46340) * Z(46341), 0); s.insert(Z(46341) % m.q); s.insert(Z(46340) % m.q); s.insert(Z(-46341) % m.q); s.insert(Z(65535) % m.q); s.insert(Z(65536) % m.q);
    if (extraShifts) { for (int k : {31, 32, 63, 64, 65, 127, 128, 129, 191, 192, m.bits - 1, m.bits, m.bits + 1, 64 * m.n64 - 1, 64 * m.n64, 64 * m.n64 + 1}) { s.insert(Z(k) % m.q); s.insert(Z(-k) % m.q); } }
    { Z x = m.q / Z(3); s.insert(x); s.insert(m.q - x); Z y = (m.q * Z(5)) / Z(7); s.insert(y); }
    return std::vector<Z>(s.begin(), s.end());
}

static void pairs(Ctx &c, const Impl &I, const Z &q, const std::string &g) {
    T t(c, I, q);
    auto V = critical(t.R.m, c.thorough ? 3 : (t.n <= 6 ? 2 : 1), true);
    if (c.thorough && t.n <= 6) for (auto &z : thin(limbAlphabet(t.R.m, 1, 4), 200)) V.push_back(z);
    if (g == "pow") V = thin(V, c.thorough ? 60 : 24);
    std::vector<Opnd> O;
    for (auto &v : V) t.reps(v, O);
    c.state(O.size());
    c.sample("%s [%s]: %zu values in %zu tagged representations, all ordered pairs", t.who.c_str(), g.c_str(), V.size(), O.size());
    auto o2 = ops2(g); auto o1 = ops1(g);
    std::vector<bool> aliasVal;
    for (size_t i = 0; i < O.size(); i++) {
        const Opnd &a = O[i];
        for (auto &op : o1) {
            Z w; if (!op.ref(t.R, a.v, w)) continue;
            c.cur("%s %s a=%s %s", t.who.c_str(), op.name, tname(a.type), a.v.hex().c_str());
            t.run1(op.name, I.*(op.fn), a, w, 0); c.trans(); if (mpz_sgn(a.v.v)) c.nontrivial();
        }
    }
    for (auto &op : o2) {
        for (size_t i = 0; i < O.size(); i++) {
            const Opnd &a = O[i];
            c.cur("%s %s a=%s %s b=*", t.who.c_str(), op.name, tname(a.type), a.v.hex().c_str());
            for (size_t j = 0; j < O.size(); j++) {
                const Opnd &b = O[j];
                Z w; if (!op.ref(t.R, a.v, b.v, w)) continue;
                t.run2(op.name, I.*(op.fn), a, b, w, 0);
                if (i == j) t.run2(op.name, I.*(op.fn), a, b, w, 3);
                c.trans(); if (mpz_sgn(a.v.v) && mpz_sgn(b.v.v)) c.nontrivial();
            }
        }
    }
    if (g == "cmp") for (auto &a : O) {
        uint64_t *p = t.slot(1); t.reset(); memcpy(p, a.e.w.data(), 8 * (t.n + 1));
        c.cur("%s isTrue %s %s", t.who.c_str(), tname(a.type), a.v.hex().c_str());
        t.check(!!I.isTrue(p) == !!mpz_sgn(a.v.v), "isTrue", "%s %s", tname(a.type), a.v.hex().c_str());
        t.check(!memcmp(p, a.e.w.data(), 8 * (t.n + 1)) && t.guards(), "isTrue-operand", "%s %s", tname(a.type), a.v.hex().c_str());
    }
    if (g == "cmp") for (int bit = 0; bit < t.R.m.bits; bit++) {   // every single-bit value is true, and unequal to zero and to its neighbours
        Z v = Z(1) << bit; if (!(v < t.R.m.q)) break;
        std::vector<Opnd> r; t.reps(v, r); std::vector<Opnd> z; t.reps(Z(0), z);
        for (auto &a : r) {
            t.reset(); memcpy(t.slot(1), a.e.w.data(), 8 * (t.n + 1));
            c.cur("%s isTrue 2^%d", t.who.c_str(), bit);
            t.check(I.isTrue(t.slot(1)), "isTrue", "2^%d as %s", bit, tname(a.type));
            t.run1("lnot", I.lnot, a, Z(0), 0);
            for (auto &b : z) { t.run2("eq", I.eq, a, b, Z(0), 0); t.run2("land", I.land, a, b, Z(0), 0); t.run2("lor", I.lor, b, a, Z(1), 0); t.run2("lt", I.lt, b, a, Z(!(t.R.m.half < v)), 0); t.run2("gt", I.gt, a, b, Z(!(t.R.m.half < v)), 0); }
        }
    }
    if (g == "bits") {   // every shift count, both as positive and as negative (q-k) operand
        auto X = thin(V, c.thorough ? 24 : 8);
        X.push_back(t.R.m.q - Z(1)); X.push_back(t.R.m.half); X.push_back(Z(1));
        for (auto &x : X) {
            std::vector<Opnd> xs; t.reps(x, xs);
            for (int k = -(64 * t.n + 3); k <= 64 * t.n + 3; k++) {
                if (!c.thorough && t.n > 6 && k % 64 != 0 && k % 64 != 1 && k % 64 != -1 && k % 11) continue;
                Z kv = Z(k) % t.R.m.q; std::vector<Opnd> ks; t.reps(kv, ks);
                for (auto &a : xs) for (auto &b : ks) {
                    c.cur("%s shl/shr %s by %d (%s)", t.who.c_str(), a.v.hex().c_str(), k, tname(b.type));
                    t.run2("shl", I.shl, a, b, t.R.shl(x, kv), 0); t.run2("shr", I.shr, a, b, t.R.shr(x, kv), 0); c.trans(2);
                }
            }
        }
    }
    if (g == "conv") {
        std::set<Z> ints; for (auto &v : V) ints.insert(t.R.sgn(v));
        for (int b = 0; b < 31; b++) for (int k = -1; k <= 1; k++) { ints.insert((Z(1) << b) + Z(k)); ints.insert(Z(k) - (Z(1) << b)); }
        for (long k = -400; k <= 400; k++) ints.insert(Z(k));
        for (auto &s : ints) {
            if (!mpz_fits_sint_p(s.v)) continue;
            if (t.R.m.half < s || s < Z(0) - t.R.m.half) continue;
            Z v = s % t.R.m.q; std::vector<Opnd> r; t.reps(v, r);
            for (auto &a : r) {
                t.reset(); memcpy(t.slot(1), a.e.w.data(), 8 * (t.n + 1));
                c.cur("%s toInt %s as %s", t.who.c_str(), s.dec().c_str(), tname(a.type));
                int got = I.toInt(t.slot(1));
                t.check(got == mpz_get_si(s.v), "toInt", "%s as %s -> %d", s.dec().c_str(), tname(a.type), got);
                t.check(!memcmp(t.slot(1), a.e.w.data(), 8 * (t.n + 1)) && t.guards(), "toInt-operand", "%s as %s", s.dec().c_str(), tname(a.type));
            }
        }
        // the representation an operation is asked for is the one it delivers
        for (auto &a : O) {
            std::vector<uint64_t> r;
            c.cur("%s representation of conversions of %s %s", t.who.c_str(), tname(a.type), a.v.hex().c_str());
            t.run1("toLongNormal", I.toLongNormal, a, a.v, 0, &r); t.check((uint32_t)(r[0] >> 32) == (uint32_t)LONG, "toLongNormal-type", "%s", t.show(r.data()).c_str());
            t.run1("toMontgomery", I.toMontgomery, a, a.v, 0, &r); t.check((r[0] >> 32) & 0x40000000u, "toMontgomery-type", "%s", t.show(r.data()).c_str());
            t.run1("toNormal", I.toNormal, a, a.v, 0, &r); t.check((uint32_t)(r[0] >> 32) != (uint32_t)LONGM, "toNormal-type", "%s", t.show(r.data()).c_str());
            // strings
            t.reset(); memcpy(t.slot(1), a.e.w.data(), 8 * (t.n + 1));
            Mem::lastNew = 0; long m0 = Mem::live();
            char *s = I.element2str(t.slot(1));
            t.check(a.v.dec() == s, "element2str", "%s %s -> %s", tname(a.type), a.v.dec().c_str(), s);
            if (s == Mem::lastNew) { t.check(false, "element2str-free", "%s %s: the text is not memory that free() may release", tname(a.type), s); delete[] s; }
            else free(s);
            if (Mem::live() > m0) t.grew("element2str", Mem::live() - m0);
            for (int k = 0; k < 4; k++) {
                std::string in = k == 0 ? a.v.dec() : k == 1 ? (a.v + t.R.m.q).dec() : k == 2 ? (a.v - t.R.m.q).dec() : (a.v + t.R.m.q * t.R.m.q).dec();
                t.reset(); m0 = Mem::live(); I.str2element(t.slot(0), in.c_str());
                if (Mem::live() != m0) t.grew("str2element", Mem::live() - m0);
                Z got; const char *e = t.decode(t.slot(0), got);
                t.check(!e && got == a.v && t.guards(), "str2element", "'%s' -> %s %s", in.c_str(), t.show(t.slot(0)).c_str(), e ? e : "");
            }
        }
        // copyn: exactly n elements
        for (int k = 0; k <= 9; k++) {
            std::vector<uint64_t> src(12 * (t.n + 1)), dst(12 * (t.n + 1), 0x77);
            for (size_t i = 0; i < src.size(); i++) src[i] = i * 0x9E3779B97F4A7C15ull + 1;
            auto s0 = src;
            c.cur("%s copyn %d", t.who.c_str(), k);
            I.copyn(dst.data(), src.data(), k);
            bool ok = src == s0;
            for (size_t i = 0; i < dst.size(); i++) if (dst[i] != (i < (size_t)k * (t.n + 1) ? src[i] : 0x77)) ok = false;
            t.check(ok, "copyn", "n=%d", k);
        }
    }
    if (!strcmp(I.label, "x86")) {
        std::vector<uint64_t> r(t.n + 1);
        auto S = O; if (S.size() > 40) { S.clear(); for (size_t i = 0; i < 40; i++) S.push_back(O[i * (O.size() - 1) / 39]); }
        for (auto &op : o2) {
            std::string nm = op.name; if (nm == "idiv" || nm == "mod" || nm == "div" || nm == "pow") continue;
            for (auto &a : S) for (auto &b : S) {
                auto wa = a.e.w, wb = b.e.w;
                int bad = abiCall((void *)(I.*(op.fn)), r.data(), wa.data(), wb.data());
                t.check(!bad, "abi", "%s destroys callee-saved registers (mask %d) a=%s %s b=%s %s", op.name, bad, tname(a.type), a.v.hex().c_str(), tname(b.type), b.v.hex().c_str());
            }
        }
        for (auto &op : o1) {
            if (!strcmp(op.name, "inv")) continue;
            for (auto &a : O) { auto wa = a.e.w; int bad = abiCall((void *)(I.*(op.fn)), r.data(), wa.data(), 0); t.check(!bad, "abi", "%s destroys callee-saved registers (mask %d) a=%s %s", op.name, bad, tname(a.type), a.v.hex().c_str()); }
        }
    }
}

// breadth-first search over operation sequences: a state is the exact memory image of a tagged element (unspecified
// fields included); transitions apply every operation with every seed operand on either side, into fresh memory.
static void sequences(Ctx &c, const Impl &I, const Z &q) {
    T t(c, I, q);
    auto o2 = ops2("seq"); auto o1 = ops1("seq");
    std::vector<Z> seedV;
    for (long k : {0l, 1l, -1l, 2l, 0x7fffffffl, -0x7fffffffl - 1, 31l, 64l}) seedV.push_back(Z(k) % t.R.m.q);
    seedV.push_back(t.R.m.half); seedV.push_back(t.R.m.half + Z(1)); seedV.push_back((Z(1) << (t.R.m.bits - 1)) % t.R.m.q); seedV.push_back(Z(1) << 40);
    std::vector<Opnd> seeds; for (auto &v : seedV) if (v < t.R.m.q) t.reps(v, seeds);
    std::set<std::vector<uint64_t>> seen; std::vector<Opnd> front = seeds;
    for (auto &s : seeds) seen.insert(s.e.w);
    size_t cap = c.thorough ? 60000 : 2500;
    int depth = c.thorough ? 3 : 2;
    for (int d = 1; d <= depth; d++) {
        std::vector<Opnd> next;
        for (auto &a : front) {
            std::vector<uint64_t> r;
            auto push = [&](const Z &v) {
                c.trans(); if (mpz_sgn(v.v)) c.nontrivial();
                if (seen.size() >= cap) return;
                if (!seen.insert(r).second) return;
                Opnd o; o.e.w = r; o.v = v; o.type = r[0] >> 32; next.push_back(o); c.state();
            };
            c.cur("%s depth %d from %s %s", t.who.c_str(), d, tname(a.type), a.v.hex().c_str());
            for (auto &op : o1) { Z w; if (op.ref(t.R, a.v, w) && t.run1(op.name, I.*(op.fn), a, w, 0, &r)) push(w); }
            for (auto &b : seeds) for (auto &op : o2) {
                Z w;
                if (op.ref(t.R, a.v, b.v, w) && t.run2(op.name, I.*(op.fn), a, b, w, 0, &r)) push(w);
                if (d > 1 && op.ref(t.R, b.v, a.v, w) && t.run2(op.name, I.*(op.fn), b, a, w, 0, &r)) push(w);
            }
        }
        front = next;
    }
    c.sample("%s: %zu distinct element images reached by operation sequences, last frontier %zu", t.who.c_str(), seen.size(), front.size());
}

int main(int argc, char **argv) {
    std::vector<Job> jobs;
    std::string group = argv[1];
    std::vector<char *> rest(argv, argv + argc); rest.erase(rest.begin() + 1);
    std::map<std::string, std::string> primes;
    for (size_t i = 1; i < rest.size();) {
        std::string a = rest[i]; size_t e = a.find('=');
        if (a[0] != '-' && e != std::string::npos) { primes[a.substr(0, e)] = a.substr(e + 1); rest.erase(rest.begin() + i); } else i++;
    }
    for (auto *i : impls()) {
        if (!primes.count(i->name)) continue;
        Z q; mpz_set_str(q.v, primes[i->name].c_str(), 10);
        std::string nm = std::string(i->label) + "-" + i->name;
        std::string g = group;
        if (group == "seq") jobs.push_back({nm, [i, q](Ctx &c) { sequences(c, *i, q); }});
        else if (group == "arith") {
            jobs.push_back({nm, [i, q](Ctx &c) { pairs(c, *i, q, "arith"); }});
            jobs.push_back({nm + "-pow", [i, q](Ctx &c) { pairs(c, *i, q, "pow"); }});
        } else jobs.push_back({nm, [i, q, g](Ctx &c) { pairs(c, *i, q, g); }});
    }
    return run((int)rest.size(), rest.data(), jobs);
}
