// G01 (law), G02 (scalar), G03 (eq): the curve templates over small fields, every point and scaling.
#define ZP_MAIN
#define ZP_NEW
#include "mcx.hpp"
#include "num.hpp"
#include "f2field.hpp"
#include "curve.hpp"
#include "curvekit.hpp"
using namespace mcx;

template<class C> struct Run {
    typedef Group<C> G; typedef typename G::P P; typedef typename G::A A; typedef typename G::Cv Cv; typedef typename C::E E;
    G &g; Cv &cv; Ctx &c; std::string ctx;
    std::vector<P> ps; std::vector<int> pi; std::vector<A> as;
    Run(G &g, Cv &cv, Ctx &c, const std::vector<E> &scal) : g(g), cv(cv), c(c), ctx(g.str()) {
        ps = g.reps(scal, &pi);
        for (int i = 0; i < g.size(); i++) { A a; g.affine(a, i); as.push_back(a); }
    }
    template<class R> static void junk(R &r) { memset((void *)&r, 0xFE, sizeof r); }
    template<class X, class Y> static bool same(const X &x, const Y &y) { return sizeof(X) == sizeof(Y) && !memcmp((const void *)&x, (const void *)&y, sizeof x); }
    template<class R> bool check(const char *op, const char *al, const std::string &in, int want, const R &r) {
        int k = g.which(r);
        c.eval();
        if (k == want) return true;
        std::string got = k == -2 ? "a value with unwritten coordinates" : g.str(r);
        c.viol(std::string("curve:") + op, "%s: %s%s of %s gives %s, expected point %s", ctx.c_str(), op, al, in.c_str(), got.c_str(), want ? (C::str(g.pts[want].first) + "," + C::str(g.pts[want].second)).c_str() : "infinity");
        return false;
    }
    template<class X, class Y> std::string in(const X &x, const Y &y) { return g.str(x) + " and " + g.str(y); }
    // r <- op(x, y) for result types R, with every aliasing the types allow
    template<class R, class X, class Y, class Fn> void bin(const char *op, const X &x0, const Y &y0, int want, bool eqIdx, Fn fn) {
        X x = x0; Y y = y0; R r; junk(r);
        fn(r, x, y);
        check(op, "", in(x0, y0), want, r);
        if (!same(x, x0) || !same(y, y0)) c.viol(std::string("curve:operand:") + op, "%s: %s changed an operand of %s", ctx.c_str(), op, in(x0, y0).c_str());
        alias1<R, X, Y, Fn>(op, x0, y0, want, fn, (R *)0, (X *)0);
        alias2<R, X, Y, Fn>(op, x0, y0, want, fn, (R *)0, (Y *)0);
        same2<R, X, Y, Fn>(op, x0, y0, want, fn, (X *)0, (Y *)0);
    }
    template<class R, class X, class Y, class Fn> void alias1(const char *op, const X &x, const Y &y0, int want, Fn fn, X *, X *) { X r = x; Y y = y0; fn(r, r, y); check(op, " (result is the first operand)", in(x, y0), want, r); }
    template<class R, class X, class Y, class Fn> void alias1(const char *, const X &, const Y &, int, Fn, void *, void *) {}
    template<class R, class X, class Y, class Fn> void alias2(const char *op, const X &x0, const Y &y, int want, Fn fn, Y *, Y *) { Y r = y; X x = x0; fn(r, x, r); check(op, " (result is the second operand)", in(x0, y), want, r); }
    template<class R, class X, class Y, class Fn> void alias2(const char *, const X &, const Y &, int, Fn, void *, void *) {}
    template<class R, class X, class Y, class Fn> void same2(const char *op, const X &x, const Y &y, int want, Fn fn, X *, X *) {
        if (!same(x, y)) return;
        X z = x; R r; junk(r);
        fn(r, z, z);
        check(op, " (one object twice)", in(x, y), want, r);
        same3<R, X, Fn>(op, x, want, fn, (R *)0, (X *)0);
    }
    template<class R, class X, class Y, class Fn> void same2(const char *, const X &, const Y &, int, Fn, void *, void *) {}
    template<class R, class X, class Fn> void same3(const char *op, const X &x, int want, Fn fn, X *, X *) { X z = x; fn(z, z, z); check(op, " (one object three times)", in(x, x), want, z); }
    template<class R, class X, class Fn> void same3(const char *, const X &, int, Fn, void *, void *) {}
    template<class R, class X, class Fn> void un(const char *op, const X &x0, int want, Fn fn) {
        X x = x0; R r; junk(r);
        fn(r, x);
        check(op, "", g.str(x0), want, r);
        if (!same(x, x0)) c.viol(std::string("curve:operand:") + op, "%s: %s changed its operand %s", ctx.c_str(), op, g.str(x0).c_str());
        un1<R, X, Fn>(op, x0, want, fn, (R *)0, (X *)0);
    }
    template<class R, class X, class Fn> void un1(const char *op, const X &x, int want, Fn fn, X *, X *) { X z = x; fn(z, z); check(op, " (in place)", g.str(x), want, z); }
    template<class R, class X, class Fn> void un1(const char *, const X &, int, Fn, void *, void *) {}

    template<class X, class Y> void pair(const X &x, int i, const Y &y, int j, const char *n) {
        std::string ad = std::string("add-") + n, sb = std::string("sub-") + n;
        int s = g.sum[i][j], d = g.sum[i][g.opp[j]];
        auto add = [&](auto &r, auto &u, auto &v) { cv.add(r, u, v); };
        auto sub = [&](auto &r, auto &u, auto &v) { cv.sub(r, u, v); };
        bin<P>(ad.c_str(), x, y, s, i == j, add);
        bin<A>((ad + "-to-affine").c_str(), x, y, s, i == j, add);
        bin<P>(sb.c_str(), x, y, d, i == j, sub);
        bin<A>((sb + "-to-affine").c_str(), x, y, d, i == j, sub);
        c.trans(4);
    }
    template<class X> void single(const X &x, int i, const char *n) {
        int d = g.sum[i][i], m = g.opp[i];
        std::string s = std::string("-") + n;
        auto dbl = [&](auto &r, auto &u) { cv.dbl(r, u); };
        auto neg = [&](auto &r, auto &u) { cv.neg(r, u); };
        auto cpy = [&](auto &r, auto &u) { cv.copy(r, u); };
        un<P>(("dbl" + s).c_str(), x, d, dbl); un<A>(("dbl" + s + "-to-affine").c_str(), x, d, dbl);
        un<P>(("neg" + s).c_str(), x, m, neg); un<A>(("neg" + s + "-to-affine").c_str(), x, m, neg);
        un<P>(("copy" + s).c_str(), x, i, cpy); un<A>(("copy" + s + "-to-affine").c_str(), x, i, cpy);
        c.state(); if (i) c.nontrivial(); c.trans(6);
    }
    void law() {
        for (size_t u = 0; u < ps.size(); u++) {
            c.cur("%s: operations on %s", ctx.c_str(), g.str(ps[u]).c_str());
            single(ps[u], pi[u], "point");
            for (size_t v = 0; v < ps.size(); v++) pair(ps[u], pi[u], ps[v], pi[v], "point-point");
            for (int j = 0; j < g.size(); j++) { pair(ps[u], pi[u], as[j], j, "point-affine"); pair(as[j], j, ps[u], pi[u], "affine-point"); }
        }
        for (int i = 0; i < g.size(); i++) {
            single(as[i], i, "affine");
            for (int j = 0; j < g.size(); j++) pair(as[i], i, as[j], j, "affine-affine");
        }
        // constants
        c.eval(4);
        check("zero", "", "", 0, cv.zero()); check("zeroAffine", "", "", 0, cv.zeroAffine());
    }
    template<class X, class Y> void eq2(const X &x0, int i, const Y &y0, int j, const char *n) {
        X x = x0; Y y = y0;
        bool e = cv.eq(x, y);
        c.eval(); c.trans();
        if (e != (i == j)) c.viol(std::string("curve:eq-") + n, "%s: eq(%s, %s) is %d", ctx.c_str(), g.str(x0).c_str(), g.str(y0).c_str(), (int)e);
        if (!same(x, x0) || !same(y, y0)) c.viol("curve:operand:eq", "%s: eq changed an operand", ctx.c_str());
    }
    std::string text(int i, int radix) { return "(" + C::str(g.pts[i].first, radix) + "," + C::str(g.pts[i].second, radix) + ")"; }
    void equality() {
        for (size_t u = 0; u < ps.size(); u++) {
            c.cur("%s: comparisons of %s", ctx.c_str(), g.str(ps[u]).c_str());
            c.state(); if (pi[u]) c.nontrivial();
            for (size_t v = 0; v < ps.size(); v++) eq2(ps[u], pi[u], ps[v], pi[v], "point-point");
            for (int j = 0; j < g.size(); j++) { eq2(ps[u], pi[u], as[j], j, "point-affine"); eq2(as[j], j, ps[u], pi[u], "affine-point"); }
            P x = ps[u];
            c.eval();
            if ((bool)cv.isZero(x) != (pi[u] == 0)) c.viol("curve:isZero-point", "%s: isZero(%s)", ctx.c_str(), g.str(x).c_str());
            for (int radix : {10, 16, 2}) {
                c.eval();
                std::string s = radix == 10 ? cv.toString(x) : cv.toString(x, radix);
                if (s != text(pi[u], radix)) c.viol("curve:toString", "%s: %s prints as %s in radix %d, expected %s", ctx.c_str(), g.str(ps[u]).c_str(), s.c_str(), radix, text(pi[u], radix).c_str());
            }
            A a; junk(a); cv.copy(a, x); check("copy-point-to-affine", "", g.str(x), pi[u], a);
        }
        for (int i = 0; i < g.size(); i++) {
            A x = as[i];
            c.eval();
            if ((bool)cv.isZero(x) != (i == 0)) c.viol("curve:isZero-affine", "%s: isZero(%s)", ctx.c_str(), g.str(x).c_str());
            for (int j = 0; j < g.size(); j++) eq2(as[i], i, as[j], j, "affine-affine");
            P p; junk(p); cv.copy(p, x); check("copy-affine-to-point", "", g.str(x), i, p);
        }
        // equality of results the operations themselves produce (sums that meet at one point from different sides)
        for (int i = 0; i < g.size(); i++) for (int j = 0; j < g.size(); j++) {
            P s, t; junk(s); junk(t);
            A a = as[i], b = as[j];
            cv.add(s, a, b);
            P pb; g.scaled(pb, j, C::of(2)); if (!j) g.infinity(pb, C::one(), C::one());
            cv.add(t, pb, a);
            c.eval();
            if (!cv.eq(s, t)) c.viol("curve:eq-results", "%s: a+b != b+a for %s, %s", ctx.c_str(), g.str(a).c_str(), g.str(b).c_str());
            for (int k = 0; k < g.size(); k++) { A q = as[k]; c.eval(); if ((bool)cv.eq(s, q) != (g.sum[i][j] == k)) c.viol("curve:eq-results", "%s: eq(sum, affine) of %s+%s and %s", ctx.c_str(), g.str(a).c_str(), g.str(b).c_str(), g.str(q).c_str()); }
        }
    }

    // ---- scalars
    struct Sc { std::vector<uint8_t> b; };
    static uint64_t modOf(const std::vector<uint8_t> &b, uint64_t n) { uint64_t r = 0; for (int i = (int)b.size() - 1; i >= 0; i--) r = (r * 256 + b[i]) % n; return r; }
    GuardBuf buf{256};
    void mul(int i, const std::vector<uint8_t> &s, const std::vector<int> &mult, const P &p, bool all) {
        unsigned n = s.size();
        uint8_t *q = buf.end(n);
        memcpy(q, s.data(), n);
        int want = mult[modOf(s, g.ord[i])];
        auto hex = [&] { std::string h; for (int k = n - 1; k >= 0; k--) { char t[4]; snprintf(t, 4, "%02x", s[k]); h += t; } return h; };
        c.trans();
        P r, x = p;
        junk(r);
        cv.mulByScalar(r, x, q, n);
        int k = g.which(r); c.eval();
        if (k != want) c.viol("scalar:point", "%s: %s times 0x%s gives %s", ctx.c_str(), g.str(p).c_str(), hex().c_str(), k == -2 ? "unwritten coordinates" : g.str(r).c_str());
        if (!same(x, p)) c.viol("scalar:operand", "%s: the base was changed", ctx.c_str());
        if (memcmp(q, s.data(), n)) c.viol("scalar:operand", "%s: the scalar was changed", ctx.c_str());
        if (!all) return;
        cv.mulByScalar(x, x, q, n);
        k = g.which(x); c.eval();
        if (k != want) c.viol("scalar:alias", "%s: %s times 0x%s over itself gives %s", ctx.c_str(), g.str(p).c_str(), hex().c_str(), k == -2 ? "unwritten coordinates" : g.str(x).c_str());
        A a = as[i];
        junk(r);
        cv.mulByScalar(r, a, q, n);
        k = g.which(r); c.eval();
        if (k != want) c.viol("scalar:affine", "%s: affine %s times 0x%s gives %s", ctx.c_str(), g.str(as[i]).c_str(), hex().c_str(), k == -2 ? "unwritten coordinates" : g.str(r).c_str());
        if (!same(a, as[i])) c.viol("scalar:operand", "%s: the base was changed", ctx.c_str());
    }
    void scalars(bool two, bool deep) {
        std::vector<std::vector<uint8_t>> sc;
        for (int v = 0; v < 256; v++) sc.push_back({(uint8_t)v});
        std::vector<unsigned> ws = {2, 3, 4, 8, 9, 32, 33};
        if (deep) ws = {2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 48, 64};
        for (unsigned w : ws) {
            std::vector<uint8_t> z(w, 0);
            sc.push_back(z);
            for (int pat : {0xff, 0x55, 0xaa, 0x7f, 0x80, 0x01, 0xfe}) sc.push_back(std::vector<uint8_t>(w, pat));
            for (unsigned k = 0; k < w * 8; k++) { if (!deep && w > 4 && k % 8 && (k + 1) % 8) continue; if (w > 9 && k % 3 && k + 9 < w * 8 && k > 9) continue; auto t = z; t[k / 8] = 1 << (k % 8); sc.push_back(t); for (auto &x : t) x = ~x; sc.push_back(t); // 2^k - 1
                auto m = z; for (unsigned q = 0; q < k; q++) m[q / 8] |= 1 << (q % 8); sc.push_back(m); }
            // the group order and its neighbours
            for (int d = -2; d <= 2; d++) for (unsigned top : {0u, w - 1}) { uint64_t v = (uint64_t)(g.size() + d); auto t = z; for (unsigned q = 0; q < 8 && q + top < w; q++) t[q + top] = v >> (8 * q); sc.push_back(t); }
        }
        size_t seen[400]; memset(seen, 0, sizeof seen);
        for (size_t u = 0; u < ps.size(); u++) {
            int i = pi[u];
            if (!deep && i && (seen[i % 400]++ >= 1 || (g.size() > 12 && i % (g.size() / 10) && g.ord[i] > 3 && i != g.best()))) continue;
            c.cur("%s: multiples of %s", ctx.c_str(), g.str(ps[u]).c_str());
            c.state(); if (i) c.nontrivial();
            auto mult = g.multiples(i);
            for (auto &s : sc) mul(i, s, mult, ps[u], true);
        }
        if (two) {
            int i = g.best();
            auto mult = g.multiples(i);
            P p; g.scaled(p, i, C::of(2));
            for (int v = 0; v < 65536; v++) { if (!(v & 255)) c.cur("%s: two-byte scalars from %d", ctx.c_str(), v); mul(i, {(uint8_t)v, (uint8_t)(v >> 8)}, mult, p, false); }
        }
    }
};

template<class C> static void job(Ctx &c, const std::string &grp, int maxCurves, int nScal, bool two) {
    std::vector<typename C::E> el = C::all(), scal;
    for (auto &e : el) if (!(e == C::zero())) scal.push_back(e);
    if (nScal && (int)scal.size() > nScal) { // 1, -1, 2 and a few others
        std::vector<typename C::E> s = {C::one(), C::of(-1), C::of(2)};
        for (size_t k = 1; (int)s.size() < nScal; k++) s.push_back(scal[(k * 5 + 2) % scal.size()]);
        scal.clear();
        for (auto &e : s) if (!(e == C::zero())) scal.push_back(e);
    }
    int n = 0; uint64_t k = 0;
    typename C::F *f = C::make();
    std::vector<std::pair<typename C::E, typename C::E>> ab;
    for (auto &a : el) for (auto &b : el) ab.push_back({a, b});
    // the curves with a = 0, 1, -1 first, then the others spread out
    auto rank = [&](const typename C::E &a) { return a == C::zero() || a == C::one() || a == C::of(-1) ? 0 : 1; };
    if (maxCurves) {
        std::vector<std::pair<typename C::E, typename C::E>> sp;
        size_t step = 1; for (size_t q : {37, 41, 43, 7}) if (ab.size() % q) { step = q; break; }
        std::vector<char> used(ab.size(), 0);
        for (size_t i = 0, at = 5 % ab.size(); i < ab.size(); i++) { while (used[at]) at = (at + 1) % ab.size(); used[at] = 1; sp.push_back(ab[at]); at = (at + step) % ab.size(); }
        ab = sp;
        std::vector<std::pair<typename C::E, typename C::E>> z, o;
        for (auto &q : ab) (rank(q.first) ? o : z).push_back(q);
        ab.clear();
        for (size_t i = 0; i < std::max(z.size(), o.size()); i++) { if (i < z.size()) ab.push_back(z[i]); if (i < o.size()) ab.push_back(o[i]); }
    }
    for (auto &q : ab) {
        if (maxCurves && n >= maxCurves) break;
        Group<C> g(q.first, q.second);
        if (!g.ok) continue;
        n++;
        auto *cv = g.curve(*f, g.size() > 1 ? 1 : 0);
        Run<C> r(g, *cv, c, scal);
        if (grp == "law") r.law();
        else if (grp == "eq") r.equality();
        else r.scalars(two || n <= 2, c.thorough);
        delete cv;
        if (n == 1) c.sample("%s: %d points, %zu forms of projective points", g.str().c_str(), g.size(), r.ps.size());
    }
    if (Zp::misuse) c.viol("curve:unwritten", "%s: an operation used a coordinate that was never written", C::name().c_str());
    c.sample("%s: %d curves, %zu scalings", C::name().c_str(), n, scal.size());
}

// constructors: text and element form agree, generator and parameters are what was given
static void job_build(Ctx &c) {
    for (uint64_t p : {7ull, 11ull, 2147483647ull}) {
        ZpBridge::setup(p); Quad<SmallR>::nr = p - 1;
        Zp f; F2Field<Zp> f2("-1");
        Curve<Zp> k(f, "3", "-2", "5", "6");
        c.eval(8); c.state();
        if (Zp::num(k.a()) != 3 || Zp::num(k.b()) != p - 2 || Zp::num(k.one().x) != 5 || Zp::num(k.one().y) != 6 || Zp::num(k.one().zz) != 1 || Zp::num(k.one().zzz) != 1 || Zp::num(k.oneAffine().x) != 5 || Zp::num(k.oneAffine().y) != 6)
            c.viol("curve:parameters", "p=%llu: parameters given as text are not kept", (unsigned long long)p);
        Curve<F2Field<Zp>> k2(f2, "1,2", "(3,-1)", "( 4 , 5 )", "0,6");
        auto is = [&](F2Field<Zp>::Element &e, long a, long b) { c.eval(); return Zp::num(e.a) == SmallR::of(a) && Zp::num(e.b) == SmallR::of(b); };
        if (!is(k2.a(), 1, 2) || !is(k2.b(), 3, -1) || !is(k2.one().x, 4, 5) || !is(k2.one().y, 0, 6) || !is(k2.oneAffine().x, 4, 5) || !is(k2.oneAffine().y, 0, 6) || !is(k2.one().zz, 1, 0) || !is(k2.one().zzz, 1, 0))
            c.viol("curve:parameters", "p=%llu^2: parameters given as text are not kept", (unsigned long long)p);
    }
}

int main(int argc, char **argv) {
    bool th = false; std::string g = argc > 1 ? argv[1] : "";
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    bool sc = g == "scalar";
    auto z = [&](uint64_t p, int curves, int scal) { jobs.push_back({g + "-F" + std::to_string(p), [=](Ctx &c) { ZpBridge::setup(p); job<ZpC>(c, g, curves, scal, th); }}); };
    auto q = [&](uint64_t p, uint64_t nr, int curves, int scal) { jobs.push_back({g + "-F" + std::to_string(p) + "^2-" + std::to_string(nr), [=](Ctx &c) { ZpBridge::setup(p); Quad<SmallR>::nr = nr; job<F2C>(c, g, curves, scal, th); }}); };
    z(3, 0, 0); z(5, 0, 0); z(7, 0, sc ? 2 : 0); z(11, sc && !th ? 12 : 0, sc ? 2 : th ? 0 : 4); z(13, sc && !th ? 8 : 0, sc ? 2 : th ? 0 : 3);
    z(17, th ? 0 : sc ? 6 : 24, th && !sc ? 0 : 3); z(31, th ? 0 : 6, 3); z(101, th ? 40 : 4, 2); z(251, th ? 10 : sc ? 2 : 1, 2);
    q(3, 2, sc && !th ? 8 : 0, sc ? 2 : th ? 0 : 4); q(5, 2, th ? 0 : sc ? 4 : 24, 3); q(7, 6, th ? 200 : sc ? 3 : 10, 3); q(7, 3, th ? 100 : sc ? 2 : 6, 3); q(11, 10, th ? 20 : 2, 2);
    if (g == "law") jobs.push_back({"build", job_build});
    Options o; o.jobTimeout = th ? 6000 : 600;
    return run(argc, argv, jobs, o);
}
