// E02: F6Field and F12Field against schoolbook arithmetic; E03: Frobenius maps (group "frob").
#define ZP_MAIN
#define ZP_NEW
#include "mcx.hpp"
#include "num.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
#include "fq.hpp"
#include "tower.hpp"
using namespace mcx;

template<class B, class FF> struct TT {
    typedef TowerBridge<B> TB; typedef typename TB::R R; typedef typename TB::T T; typedef typename TB::E E; typedef typename TB::QE QE; typedef typename TB::Q Q;
    typedef typename FF::Element X;
    FF &f; Ctx &c; int D; std::string nm, ctx;
    TT(FF &f, Ctx &c, int D) : f(f), c(c), D(D), nm(D == 3 ? "f6:" : "f12:") {}
    static E get(const X &x) { E e; TB::get(x, e); return e; }
    void bad(const char *op, const char *al, const E &a, const E *b, const E &want, const E &got) {
        c.viol(nm + op, "%s %s %s a=%s%s%s expected %s got %s", ctx.c_str(), op, al, T::str(a).c_str(), b ? " b=" : "", b ? T::str(*b).c_str() : "", T::str(want).c_str(), T::str(got).c_str());
    }
    template<class Fn> void unary(const char *op, const E &a, const E &want, Fn fn) {
        X x, r; TB::put(x, a); memset((void *)&r, 0xFE, sizeof r);
        fn(r, x);
        c.eval(2); c.trans();
        if (get(r) != want) bad(op, "distinct", a, 0, want, get(r));
        if (get(x) != a) bad(op, "operand changed", a, 0, a, get(x));
        fn(x, x);
        if (get(x) != want) bad(op, "r=a", a, 0, want, get(x));
    }
    template<class Fn> void binary(const char *op, const E &a, const E &b, const E &want, Fn fn) {
        X x, y, r; TB::put(x, a); TB::put(y, b); memset((void *)&r, 0xFE, sizeof r);
        fn(r, x, y);
        c.eval(3); c.trans();
        if (get(r) != want) bad(op, "distinct", a, &b, want, get(r));
        if (get(x) != a || get(y) != b) bad(op, "operand changed", a, &b, a, get(x));
        r = x; fn(r, r, y); if (get(r) != want) bad(op, "r=a", a, &b, want, get(r));
        r = y; fn(r, x, r); if (get(r) != want) bad(op, "r=b", a, &b, want, get(r));
        if (a == b) {
            c.eval(2);
            memset((void *)&r, 0xFE, sizeof r);
            fn(r, x, x); if (get(r) != want) bad(op, "a=b", a, &b, want, get(r));
            fn(x, x, x); if (get(x) != want) bad(op, "r=a=b", a, &b, want, get(x));
        }
    }
    void extra(F6Field<F2Field<typename B::F>> &g, const E &a) {
        E t = T::zero(3); t[1] = T::q(1, 0);
        unary("mulTau", a, T::mul(a, t), [&](X &r, X &x) { g.mulTau(r, x); });
        unary("dbl", a, T::add(a, a), [&](X &r, X &x) { g.dbl(r, x); });
    }
    void extra(F12Field<F6Field<F2Field<typename B::F>>> &g, const E &a) {
        E w = a; for (int i = 1; i < 6; i += 2) w[i] = Q::sub(T::q(0, 0), a[i]);
        unary("conjugate", a, w, [&](X &r, X &x) { g.conjugate(r, x); });
    }
    void element(const E &a) {
        c.cur("%s element %s", ctx.c_str(), T::str(a).c_str());
        c.state(); if (a != T::zero(D)) c.nontrivial();
        unary("copy", a, a, [&](X &r, X &x) { f.copy(r, x); });
        unary("neg", a, T::sub(T::zero(D), a), [&](X &r, X &x) { f.neg(r, x); });
        unary("square", a, T::mul(a, a), [&](X &r, X &x) { f.square(r, x); });
        E i;
        if (T::inv(a, i)) unary("inv", a, i, [&](X &r, X &x) { f.inv(r, x); });
        extra(f, a);
        X x; TB::put(x, a);
        c.eval(2);
        if ((bool)f.isZero(x) != (a == T::zero(D))) c.viol(nm + "isZero", "%s isZero(%s)", ctx.c_str(), T::str(a).c_str());
        if ((bool)f.isOne(x) != (a == T::one(D))) c.viol(nm + "isOne", "%s isOne(%s)", ctx.c_str(), T::str(a).c_str());
    }
    void text(const E &a) {
        X x; TB::put(x, a);
        for (int radix : {10, 16}) {
            std::string s = f.toString(x, radix);
            c.eval();
            if (s != T::str(a, radix)) c.viol(nm + "toString", "%s radix %d: %s printed as %s", ctx.c_str(), radix, T::str(a, radix).c_str(), s.c_str());
        }
        std::string s = f.toString(x), in = s.substr(1, s.size() - 2), sp;
        for (char ch : s) { sp += ch; if (ch == ',' || ch == '(') sp += ' '; }
        for (const std::string &t : {s, in, sp, " ( " + in + ")\n"}) {
            X r; memset((void *)&r, 0xFE, sizeof r);
            f.fromString(r, t);
            c.eval();
            if (get(r) != a) c.viol(nm + "fromString", "%s '%s' read as %s", ctx.c_str(), t.c_str(), T::str(get(r)).c_str());
        }
    }
    void pair(const E &a, const E &b, bool dv) {
        binary("add", a, b, T::add(a, b), [&](X &r, X &x, X &y) { f.add(r, x, y); });
        binary("sub", a, b, T::sub(a, b), [&](X &r, X &x, X &y) { f.sub(r, x, y); });
        binary("mul", a, b, T::mul(a, b), [&](X &r, X &x, X &y) { f.mul(r, x, y); });
        E i;
        if (dv && T::inv(b, i)) binary("div", a, b, T::mul(a, i), [&](X &r, X &x, X &y) { f.div(r, x, y); });
        X x, y; TB::put(x, a); TB::put(y, b);
        c.eval();
        if ((bool)f.eq(x, y) != (a == b)) c.viol(nm + "eq", "%s eq(%s,%s)", ctx.c_str(), T::str(a).c_str(), T::str(b).c_str());
    }
    void scalar6(const E &a, const QE &k) { // F6 by an F2 element, and by a base element
        typename TB::F2::Element s; TB::put(s, k);
        unary("mulScalar", a, T::scale(a, k), [&](X &r, X &x) { f.mulScalar(r, x, s); });
    }
    void scalarBase(const E &a, const typename R::N &k) {
        typename B::F::Element s; B::put(s, k);
        unary("mulGFP", a, T::scale(a, Q::mk(k, R::of(0))), [&](X &r, X &x) { f.mulGFP(r, x, s); });
    }
    void scalar12(const E &a, const E &k6) {
        typename TB::F6::Element s; TB::put(s, k6);
        E k = {k6[0], T::q(0, 0), k6[1], T::q(0, 0), k6[2], T::q(0, 0)};
        unary("mulScalar", a, T::mul(a, k), [&](X &r, X &x) { f.mulScalar(r, x, s); });
    }
    void power(const E &a, const mpz_class &e, unsigned bytes) {
        GuardBuf g(bytes);
        uint8_t *s = g.end(bytes);
        memset(s, 0, bytes);
        mpz_export(s, NULL, -1, 1, -1, 0, e.get_mpz_t());
        c.cur("%s %s ^ %s (%u bytes)", ctx.c_str(), T::str(a).c_str(), e.get_str().c_str(), bytes);
        unary("exp", a, T::pow(a, e), [&](X &r, X &x) { f.exp(r, x, s, bytes); });
    }
    void constants() {
        struct { const char *n; X x; E w; } k[] = {{"zero", f.zero(), T::zero(D)}, {"one", f.one(), T::one(D)}, {"negOne", f.negOne(), T::sub(T::zero(D), T::one(D))}};
        for (auto &q : k) { c.eval(); if (get(q.x) != q.w) c.viol(nm + q.n, "%s %s is %s", ctx.c_str(), q.n, T::str(get(q.x)).c_str()); }
    }
};

// every vector of len entries over the alphabet, or only those with at most maxNz non-zero entries
template<class QE> static void vectors(std::vector<std::vector<QE>> &out, const std::vector<QE> &al, int len, int maxNz, const QE &zero) {
    std::vector<QE> cur(len, zero);
    std::function<void(int, int)> rec = [&](int i, int nz) {
        if (i == len) { out.push_back(cur); return; }
        for (auto &x : al) {
            int k = nz + (x != zero);
            if (k > maxNz) continue;
            cur[i] = x; rec(i + 1, k);
        }
        cur[i] = zero;
    };
    rec(0, 0);
}

template<class B> static void run6(Ctx &c, const std::string &ctx, const std::vector<typename TowerBridge<B>::QE> &al, bool allUnary, int nzPair, bool big) {
    typedef TowerBridge<B> TB; typedef typename TB::T T; typedef typename TB::E E;
    typename TB::F6 f;
    TT<B, typename TB::F6> t(f, c, 3);
    t.ctx = ctx;
    t.constants();
    std::vector<E> el, ps;
    vectors(el, al, 3, 3, T::q(0, 0));
    vectors(ps, al, 3, nzPair, T::q(0, 0));
    ps.push_back({T::q(1, 1), T::q(2, 1), T::q(1, 2)}); ps.push_back({T::q(-1, 5), T::q(7, -3), T::q(2, 4)});
    for (auto &a : el) { t.element(a); if (el.size() < 3000 || !big) t.text(a); }
    size_t k = 0;
    for (auto &a : ps) {
        c.cur("%s pairs of %s", ctx.c_str(), T::str(a).c_str());
        for (auto &b : ps) t.pair(a, b, (k++ % 7) == 0 || ps.size() < 300);
        for (auto &s : al) t.scalar6(a, s);
        for (long s : {0, 1, -1, 2, 7}) t.scalarBase(a, B::R::of(s));
    }
    c.sample("%s: %zu elements of degree 6, %zu squared pairs", ctx.c_str(), el.size(), ps.size());
}

template<class B> static void run12(Ctx &c, const std::string &ctx, const std::vector<typename TowerBridge<B>::QE> &al, int nzUnary, int nzPair) {
    typedef TowerBridge<B> TB; typedef typename TB::T T; typedef typename TB::E E;
    typename TB::F12 f;
    TT<B, typename TB::F12> t(f, c, 6);
    t.ctx = ctx;
    t.constants();
    std::vector<E> el, ps;
    vectors(el, al, 6, nzUnary, T::q(0, 0));
    vectors(ps, al, 6, nzPair, T::q(0, 0));
    E d1 = {T::q(1, 1), T::q(2, 1), T::q(1, 2), T::q(-1, 5), T::q(7, -3), T::q(2, 4)}, d2 = {T::q(0, 1), T::q(1, 0), T::q(3, 2), T::q(1, 1), T::q(2, 2), T::q(-1, -1)};
    for (auto &d : {d1, d2}) { el.push_back(d); ps.push_back(d); }
    for (auto &a : el) { t.element(a); if (el.size() < 20000) t.text(a); }
    size_t k = 0;
    for (auto &a : ps) {
        c.cur("%s pairs of %s", ctx.c_str(), T::str(a).c_str());
        for (auto &b : ps) t.pair(a, b, (k++ % 7) == 0);
        for (auto &b : {ps[1], ps.back(), ps[ps.size() / 2]}) t.scalar12(a, {b[0], b[2], b[5]});
    }
    std::vector<E> pw = {d1, d2, T::zero(6), T::one(6), el[1], el[el.size() / 2], el[el.size() / 3]};
    std::vector<std::pair<mpz_class, unsigned>> es;
    for (int e = 0; e < 256; e++) es.push_back({e, 1});
    for (int e : {0, 1, 2, 255, 256, 257, 32767, 32768, 65535}) for (unsigned b : {2u, 3u, 8u}) es.push_back({e, b});
    for (unsigned b : {1u, 2u, 7u, 8u, 9u, 32u}) { es.push_back({(mpz_class(1) << (8 * b)) - 1, b}); es.push_back({mpz_class(1) << (8 * b - 1), b}); es.push_back({1, b}); }
    for (auto &a : pw) for (auto &e : es) t.power(a, e.first, e.second);
    c.sample("%s: %zu elements of degree 12, %zu squared pairs, %zu powers", ctx.c_str(), el.size(), ps.size(), pw.size() * es.size());
}

typedef TowerBridge<ZpBridge> ZT; typedef ZT::QE ZQ;
static std::vector<ZQ> alpha(uint64_t p, int n) {
    std::vector<ZQ> all = {ZT::T::q(0, 0), ZT::T::q(1, 0), ZT::T::q(0, 1), ZT::T::q(-1, 2), ZT::T::q(2, 3), ZT::T::q(-1, -1), ZT::T::q(5, 0), ZT::T::q(0, -1), ZT::T::q(p / 2, p / 3)};
    all.resize(n);
    return all;
}
static void misuse(Ctx &c) { if (Zp::misuse) c.viol("tower:unwritten", "an operation used an element that was never written"); }
static void setupZ(uint64_t p) { ZpBridge::setup(p); Quad<SmallR>::nr = p - 1; }

// ---- E03 -------------------------------------------------------------------------------
typedef RawBridge<RawFq> BB; typedef TowerBridge<BB> BT; typedef BT::E BE; typedef BT::QE BQ; typedef BT::T BTT;
static void setupB() { BB::setup(); Quad<BigR>::nr = BigR::m - 1; }
static std::vector<BQ> bigAlpha() {
    const mpz_class &p = BigR::m;
    return {BTT::q(0, 0), BTT::q(1, 0), BTT::q(0, 1), BTT::q(-1, 2), Quad<BigR>::mk(p / 2, p / 3), Quad<BigR>::mk(mpz_class("7331557171098379083275087209838129837210938102938102938120938120938123"), p - 7)};
}
static void frob(Ctx &c, bool six, const std::vector<BE> &el) {
    mpz_class p = BigR::m;
    BT::F6 f6; BT::F12 f12;
    auto fr = [&](const BE &a, bool sq, bool alias) {
        BE r;
        if (six) { BT::F6::Element x, y; BT::put(x, a); memset((void *)&y, 0xFE, sizeof y); if (alias) y = x; auto &in = alias ? y : x; sq ? f6.FrobeniusP2(y, in) : f6.Frobenius(y, in); BT::get(y, r); BE z; BT::get(x, z); if (!(z == a)) c.viol("frob:operand", "the operand was changed"); }
        else { BT::F12::Element x, y; BT::put(x, a); memset((void *)&y, 0xFE, sizeof y); if (alias) y = x; auto &in = alias ? y : x; sq ? f12.FrobeniusP2(y, in) : f12.Frobenius(y, in); BT::get(y, r); BE z; BT::get(x, z); if (!(z == a)) c.viol("frob:operand", "the operand was changed"); }
        c.eval(); c.trans();
        return r;
    };
    const char *n = six ? "f6" : "f12";
    // the p-power map computed once per basis element by exponentiation; on others by additivity and by direct power
    for (size_t k = 0; k < el.size(); k++) {
        const BE &a = el[k];
        c.cur("%s frobenius of %s", n, BTT::str(a).c_str());
        c.state(); c.nontrivial();
        BE w = BTT::pow(a, p), w2 = BTT::pow(w, p);
        for (int al = 0; al < 2; al++) {
            if (fr(a, false, al) != w) c.viol(std::string("frob:") + n, "Frobenius(%s)%s is not the p-power", BTT::str(a).c_str(), al ? " in place" : "");
            if (fr(a, true, al) != w2) c.viol(std::string("frob2:") + n, "FrobeniusP2(%s)%s is not the p^2-power", BTT::str(a).c_str(), al ? " in place" : "");
        }
        BE x = a, y = a;
        for (int i = 0; i < (six ? 6 : 12); i++) x = fr(x, false, i & 1);
        for (int i = 0; i < (six ? 3 : 6); i++) y = fr(y, true, i & 1);
        if (x != a) c.viol(std::string("frob-order:") + n, "repeated Frobenius of %s is not the identity", BTT::str(a).c_str());
        if (y != a) c.viol(std::string("frob2-order:") + n, "repeated FrobeniusP2 of %s is not the identity", BTT::str(a).c_str());
        // multiplicative against the code's own product
        const BE &b = el[(k * 7 + 3) % el.size()];
        BE ab;
        if (six) { BT::F6::Element X, Y, Z; BT::put(X, a); BT::put(Y, b); f6.mul(Z, X, Y); BT::get(Z, ab); }
        else { BT::F12::Element X, Y, Z; BT::put(X, a); BT::put(Y, b); f12.mul(Z, X, Y); BT::get(Z, ab); }
        if (fr(ab, false, 0) != BTT::mul(fr(a, false, 0), fr(b, false, 0))) c.viol(std::string("frob-mul:") + n, "Frobenius(ab) != Frobenius(a)Frobenius(b) for a=%s b=%s", BTT::str(a).c_str(), BTT::str(b).c_str());
        // additive
        BE s = BTT::add(a, b);
        if (fr(s, false, 0) != BTT::add(fr(a, false, 0), fr(b, false, 0))) c.viol(std::string("frob-add:") + n, "Frobenius(a+b) for a=%s b=%s", BTT::str(a).c_str(), BTT::str(b).c_str());
    }
    c.sample("%s: Frobenius and its square on %zu elements against powers", n, el.size());
}

int main(int argc, char **argv) {
    bool th = false; std::string g = argc > 1 ? argv[1] : "";
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    if (g == "ring") {
        auto field = [](uint64_t p) { std::vector<ZQ> v; for (uint64_t i = 0; i < p; i++) for (uint64_t j = 0; j < p; j++) v.push_back(Quad<SmallR>::mk(i, j)); return v; };
        jobs.push_back({"f6-p3-all", [=](Ctx &c) { setupZ(3); run6<ZpBridge>(c, "p=3", field(3), true, 3, false); misuse(c); }});
        jobs.push_back({"f12-p3", [=](Ctx &c) { setupZ(3); run12<ZpBridge>(c, "p=3", field(3), th ? 6 : 3, th ? 2 : 2); misuse(c); }});
        jobs.push_back({"f6-p7", [=](Ctx &c) { setupZ(7); run6<ZpBridge>(c, "p=7", field(7), true, 1, true); misuse(c); }});
        for (uint64_t p : {7ull, 11ull, 19ull, 23ull, 2147483647ull, 2305843009213693951ull}) {
            jobs.push_back({"f6-alpha-" + std::to_string(p), [=](Ctx &c) { setupZ(p); run6<ZpBridge>(c, "p=" + std::to_string(p), alpha(p, th ? 9 : 7), true, 2, true); misuse(c); }});
            jobs.push_back({"f12-alpha-" + std::to_string(p), [=](Ctx &c) { setupZ(p); run12<ZpBridge>(c, "p=" + std::to_string(p), alpha(p, th ? 7 : 5), th ? 6 : 4, th ? 2 : 2); misuse(c); }});
        }
        jobs.push_back({"f6-bn128", [=](Ctx &c) { setupB(); auto al = bigAlpha(); if (!th) al.resize(5); run6<BB>(c, "bn128", al, true, th ? 3 : 2, true); }});
        jobs.push_back({"f12-bn128", [=](Ctx &c) { setupB(); auto al = bigAlpha(); if (!th) al.erase(al.begin() + 3); run12<BB>(c, "bn128", al, th ? 3 : 2, th ? 2 : 1); }});
    } else {
        for (int six = 0; six < 2; six++) {
            int D = six ? 3 : 6;
            const int parts = 8;
            for (int part = 0; part < parts; part++)
                jobs.push_back({std::string(six ? "f6" : "f12") + "-frobenius-" + std::to_string(part), [=](Ctx &c) {
                    setupB();
                    auto al = bigAlpha();
                    std::vector<BE> el, mine;
                    vectors(el, al, D, th ? 3 : six ? 3 : 2, BTT::q(0, 0));
                    BE d = BTT::zero(D), e = d;
                    for (int i = 0; i < D; i++) { d[i] = Quad<BigR>::mk(BigR::m / (i + 2), i * 77 + 5); e[i] = al[(i * 2 + 1) % al.size()]; }
                    el.push_back(d); el.push_back(e);
                    for (size_t i = part; i < el.size(); i += parts) mine.push_back(el[i]);
                    frob(c, six, mine);
                }});
        }
    }
    return run(argc, argv, jobs);
}
