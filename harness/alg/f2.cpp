// E01: F2Field over small primes (every element) and over production primes (an alphabet).
#define ZP_MAIN
#define ZP_NEW
#include "mcx.hpp"
#include "num.hpp"
#include "f2field.hpp"
#ifdef WITH_BN
#include "fq.hpp"
#endif
using namespace mcx;

template<class B> struct T {
    typedef typename B::F F; typedef typename B::R R; typedef typename R::N N;
    typedef Quad<R> Q; typedef typename Q::E E;
    typedef F2Field<F> FF; typedef typename FF::Element X;
    FF &f; Ctx &c; std::string ctx;
    T(FF &f, Ctx &c) : f(f), c(c) {}
    static void put(X &x, const E &e) { B::put(x.a, e.c[0]); B::put(x.b, e.c[1]); }
    static E get(const X &x) { return Q::mk(B::get(x.a), B::get(x.b)); }
    void bad(const char *op, const char *al, const E &a, const E *b, const E &want, const E &got) {
        c.viol(std::string("f2:") + op, "%s %s %s a=%s%s%s expected %s got %s", ctx.c_str(), op, al, Q::str(a).c_str(), b ? " b=" : "", b ? Q::str(*b).c_str() : "", Q::str(want).c_str(), Q::str(got).c_str());
    }
    template<class Fn> void unary(const char *op, const E &a, const E &want, Fn fn) {
        X x, r; put(x, a);
        memset((void *)&r, 0xFE, sizeof r);
        fn(r, x);
        c.eval(2); c.trans();
        if (get(r) != want) bad(op, "distinct", a, 0, want, get(r));
        if (get(x) != a) bad(op, "operand changed", a, 0, a, get(x));
        fn(x, x);
        if (get(x) != want) bad(op, "r=a", a, 0, want, get(x));
    }
    template<class Fn> void binary(const char *op, const E &a, const E &b, const E &want, Fn fn) {
        X x, y, r; put(x, a); put(y, b);
        memset((void *)&r, 0xFE, sizeof r);
        fn(r, x, y);
        c.eval(3); c.trans();
        if (get(r) != want) bad(op, "distinct", a, &b, want, get(r));
        if (get(x) != a || get(y) != b) bad(op, "operand changed", a, &b, a, get(x));
        r = x; fn(r, r, y); if (get(r) != want) bad(op, "r=a", a, &b, want, get(r));
        r = y; fn(r, x, r); if (get(r) != want) bad(op, "r=b", a, &b, want, get(r));
        if (a == b) {
            c.eval(2);
            memset((void *)&r, 0xFE, sizeof r);
            fn(r, x, x); if (get(r) != want) bad(op, "a=b", a, &b, want, get(r));
            fn(x, x, x); if (get(x) != want) bad(op, "r=a=b", a, &b, want, get(x));
        }
    }
    void element(const E &a, bool negone) {
        c.cur("%s element %s", ctx.c_str(), Q::str(a).c_str());
        E z = Q::mk(R::of(0), R::of(0)), one = Q::mk(R::of(1), R::of(0));
        c.state(); if (a != z) c.nontrivial();
        unary("copy", a, a, [&](X &r, X &x) { f.copy(r, x); });
        unary("neg", a, Q::sub(z, a), [&](X &r, X &x) { f.neg(r, x); });
        unary("conjugate", a, Q::mk(a.c[0], R::sub(R::of(0), a.c[1])), [&](X &r, X &x) { f.conjugate(r, x); });
        unary("dbl", a, Q::add(a, a), [&](X &r, X &x) { f.dbl(r, x); });
        unary("square", a, Q::mul(a, a), [&](X &r, X &x) { f.square(r, x); });
        if (a != z) unary("inv", a, Q::inv(a), [&](X &r, X &x) { f.inv(r, x); });
        if (negone) unary("mulXi", a, Q::mul(a, Q::mk(R::of(9), R::of(1))), [&](X &r, X &x) { f.mulXi(r, x); });
        X x; put(x, a);
        c.eval(2);
        if ((bool)f.isZero(x) != (a == z)) c.viol("f2:isZero", "%s isZero(%s)", ctx.c_str(), Q::str(a).c_str());
        if ((bool)f.isOne(x) != (a == one)) c.viol("f2:isOne", "%s isOne(%s)", ctx.c_str(), Q::str(a).c_str());
        for (int radix : {10, 2, 16, 36}) {
            std::string s = f.toString(x, radix);
            c.eval();
            if (s != Q::str(a, radix)) c.viol("f2:toString", "%s radix %d: %s printed as %s", ctx.c_str(), radix, Q::str(a, radix).c_str(), s.c_str());
        }
        std::string s = f.toString(x), in = s.substr(1, s.size() - 2);
        for (const std::string &t : {s, in, " " + s + " ", "( " + in + " )"}) {
            X r; memset((void *)&r, 0xFE, sizeof r);
            f.fromString(r, t);
            c.eval();
            if (get(r) != a) c.viol("f2:fromString", "%s '%s' read as %s", ctx.c_str(), t.c_str(), Q::str(get(r)).c_str());
        }
    }
    void pair(const E &a, const E &b) {
        E z = Q::mk(R::of(0), R::of(0));
        binary("add", a, b, Q::add(a, b), [&](X &r, X &x, X &y) { f.add(r, x, y); });
        binary("sub", a, b, Q::sub(a, b), [&](X &r, X &x, X &y) { f.sub(r, x, y); });
        binary("mul", a, b, Q::mul(a, b), [&](X &r, X &x, X &y) { f.mul(r, x, y); });
        if (b != z) binary("div", a, b, Q::mul(a, Q::inv(b)), [&](X &r, X &x, X &y) { f.div(r, x, y); });
        X x, y; put(x, a); put(y, b);
        c.eval();
        if ((bool)f.eq(x, y) != (a == b)) c.viol("f2:eq", "%s eq(%s,%s)", ctx.c_str(), Q::str(a).c_str(), Q::str(b).c_str());
    }
    void scalar(const E &a, const N &k) {
        typename F::Element s; B::put(s, k);
        char op[] = "mulScalar";
        unary(op, a, Q::mk(R::mul(a.c[0], k), R::mul(a.c[1], k)), [&](X &r, X &x) { f.mulScalar(r, x, s); });
    }
    void constants() {
        struct { const char *n; X x; E w; } k[] = {{"zero", f.zero(), Q::mk(R::of(0), R::of(0))}, {"one", f.one(), Q::mk(R::of(1), R::of(0))}, {"negOne", f.negOne(), Q::mk(R::of(-1), R::of(0))}};
        for (auto &q : k) { c.eval(); if (get(q.x) != q.w) c.viol(std::string("f2:") + q.n, "%s %s is %s", ctx.c_str(), q.n, Q::str(get(q.x)).c_str()); }
    }
};

static bool nonResidue(uint64_t p, uint64_t a) { return a && SmallR::pow(a, (p - 1) / 2) == p - 1; }

static void job_small(Ctx &c, uint64_t p, bool allPairs) {
    ZpBridge::setup(p);
    int k = 0;
    for (uint64_t nr = 2; nr < p; nr++) {
        if (p > 1000 && nr != p - 1 && k >= 3) { nr = p - 2; k = 0; continue; }
        if (!nonResidue(p, nr)) continue;
        k++;
        Quad<SmallR>::nr = nr;
        for (int how = 0; how < 3; how++) {
            Zp::Element e = Zp::mk(nr);
            F2Field<Zp> *f = how == 0 ? new F2Field<Zp>(e) : how == 1 ? new F2Field<Zp>(std::to_string(nr)) : new F2Field<Zp>("-" + std::to_string(p - nr));
            T<ZpBridge> t(*f, c);
            t.ctx = "p=" + std::to_string(p) + " nr=" + std::to_string(nr);
            t.constants();
            std::vector<uint64_t> v;
            if (p < 1000) for (uint64_t i = 0; i < p; i++) v.push_back(i);
            else v = {0, 1, 2, 3, p / 2, p / 2 + 1, p - 1, p - 2, nr, (p * 2ull / 3), p / 7};
            std::vector<T<ZpBridge>::E> el;
            for (auto a : v) for (auto b : v) el.push_back(Quad<SmallR>::mk(a, b));
            for (auto &a : el) t.element(a, nr == p - 1);
            if (how == 0) {
                for (auto &a : el) {
                    c.cur("%s pairs of %s", t.ctx.c_str(), Quad<SmallR>::str(a).c_str());
                    for (auto &b : el) t.pair(a, b);
                    for (auto s : v) t.scalar(a, s);
                }
                c.sample("F_%llu[x]/(x^2-%llu): all %zu elements, all pairs", (unsigned long long)p, (unsigned long long)nr, el.size());
            }
            delete f;
        }
    }
    if (Zp::misuse) c.viol("f2:unwritten", "p=%llu: an operation used an element that was never written", (unsigned long long)p);
}

#ifdef WITH_BN
typedef RawBridge<RawFq> BB;
static void job_bn(Ctx &c, int which) {
    BB::setup();
    mpz_class p = BigR::m;
    std::vector<mpz_class> nrs = {p - 1};
    for (long k = 2; nrs.size() < 3; k++) for (mpz_class x : {mpz_class(k), mpz_class(p - k)}) if (mpz_legendre(x.get_mpz_t(), p.get_mpz_t()) == -1 && nrs.size() < 3) nrs.push_back(x);
    mpz_class nr = nrs[which];
    Quad<BigR>::nr = nr;
    F2Field<RawFq> f(nr.get_str()), g(std::string("-") + mpz_class(p - nr).get_str());
    T<BB> t(f, c), u(g, c);
    t.ctx = u.ctx = "bn128 nr=" + (nr > p / 2 ? "-" + mpz_class(p - nr).get_str() : nr.get_str());
    t.constants(); u.constants();
    std::vector<mpz_class> v = {0, 1, p - 1, 2, (p - 1) / 2, (p + 1) / 2, nr, p - nr, (mpz_class(1) << 64) - 1, mpz_class(1) << 128, p - (mpz_class(1) << 64), p / 3, mpz_class("7331557171098379083275087209838129837210938102938102938120938120938123")};
    if (!c.thorough) v.resize(9);
    std::vector<T<BB>::E> el;
    for (auto &a : v) for (auto &b : v) el.push_back(Quad<BigR>::mk(a, b));
    for (auto &a : el) { t.element(a, nr == p - 1); u.element(a, nr == p - 1); }
    for (auto &a : el) { c.cur("%s pairs of %s", t.ctx.c_str(), Quad<BigR>::str(a).c_str()); for (auto &b : el) t.pair(a, b); for (auto &s : v) t.scalar(a, s); }
    c.sample("%s: %zu elements, all pairs", t.ctx.c_str(), el.size());
}
#endif

int main(int argc, char **argv) {
    bool thorough = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) thorough = true;
    std::vector<Job> jobs;
    std::vector<uint64_t> ps = {3, 5, 7, 11, 13, 17, 19, 23, 2147483647ull, 2305843009213693951ull, 1000003, 65537};
    if (thorough) { ps.push_back(29); ps.push_back(31); ps.push_back(37); ps.push_back(41); ps.push_back(43); ps.push_back(4611686018427387847ull); }
    for (auto p : ps) jobs.push_back({"p" + std::to_string(p), [p](Ctx &c) { job_small(c, p, true); }});
#ifdef WITH_BN
    for (int k = 0; k < 3; k++) jobs.push_back({"bn128-" + std::to_string(k), [k](Ctx &c) { job_bn(c, k); }});
#endif
    return run(argc, argv, jobs);
}
