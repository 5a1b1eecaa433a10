// K01: the ready-made curve engine against the curve's published definition.
#define ZP_MAIN
#include "mcx.hpp"
#include "num.hpp"
#include "alt_bn128.hpp"
using namespace mcx;
typedef AltBn128::Engine En;
typedef RawBridge<RawFq> BQ;
typedef Quad<BigR> Q;

static const mpz_class X("4965661367192848881");
static const mpz_class Pq = 36 * X * X * X * X + 36 * X * X * X + 24 * X * X + 6 * X + 1;
static const mpz_class Rr = 36 * X * X * X * X + 36 * X * X * X + 18 * X * X + 6 * X + 1;

// coefficient domains: the prime field and its quadratic extension
struct D1 {
    typedef mpz_class E; typedef RawFq F;
    static E add(const E &a, const E &b) { return BigR::add(a, b); }
    static E sub(const E &a, const E &b) { return BigR::sub(a, b); }
    static E mul(const E &a, const E &b) { return BigR::mul(a, b); }
    static E inv(const E &a) { return BigR::inv(a); }
    static E of(long v) { return BigR::of(v); }
    static E get(const RawFq::Element &e) { return BQ::get(e); }
    static void put(RawFq::Element &r, const E &e) { BQ::put(r, e); }
    static std::string str(const E &e) { return e.get_str(); }
};
struct D2 {
    typedef Q::E E; typedef F2Field<RawFq> F;
    static E add(const E &a, const E &b) { return Q::add(a, b); }
    static E sub(const E &a, const E &b) { return Q::sub(a, b); }
    static E mul(const E &a, const E &b) { return Q::mul(a, b); }
    static E inv(const E &a) { return Q::inv(a); }
    static E of(long v) { return Q::mk(BigR::of(v), 0); }
    static E get(const F::Element &e) { return Q::mk(BQ::get(e.a), BQ::get(e.b)); }
    static void put(F::Element &r, const E &e) { BQ::put(r.a, e.c[0]); BQ::put(r.b, e.c[1]); }
    static std::string str(const E &e) { return Q::str(e); }
};

// the oracle: textbook affine arithmetic
template<class D> struct Aff {
    typedef typename D::E E;
    bool inf; E x, y;
    bool operator==(const Aff &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    bool operator!=(const Aff &o) const { return !(*this == o); }
    static Aff zero() { Aff a; a.inf = true; a.x = a.y = D::of(0); return a; }
    static Aff mk(const E &x, const E &y) { Aff a; a.inf = false; a.x = x; a.y = y; return a; }
    Aff neg() const { Aff a = *this; a.y = D::sub(D::of(0), y); return a; }
    static Aff add(const Aff &a, const Aff &b) {
        if (a.inf) return b;
        if (b.inf) return a;
        E l;
        if (a.x == b.x) {
            if (!(a.y == b.y) || a.y == D::of(0)) return zero();
            l = D::mul(D::mul(D::of(3), D::mul(a.x, a.x)), D::inv(D::add(a.y, a.y)));
        } else l = D::mul(D::sub(b.y, a.y), D::inv(D::sub(b.x, a.x)));
        E x = D::sub(D::sub(D::mul(l, l), a.x), b.x);
        return mk(x, D::sub(D::mul(l, D::sub(a.x, x)), a.y));
    }
    static Aff times(const Aff &a, const mpz_class &k) {
        Aff r = zero();
        for (int i = (int)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, a); }
        return r;
    }
    std::string str() const { return inf ? "infinity" : "(" + D::str(x) + "," + D::str(y) + ")"; }
    std::string text() const { return inf ? "(" + D::str(D::of(0)) + "," + D::str(D::of(0)) + ")" : "(" + D::str(x) + "," + D::str(y) + ")"; }
};

template<class D, class Cv> struct Side {
    typedef Aff<D> A; typedef typename Cv::Point P; typedef typename Cv::PointAffine PA;
    Cv &g; Ctx &c; std::string n; A gen;
    Side(Cv &g, Ctx &c, const char *n, const A &gen) : g(g), c(c), n(n), gen(gen) {}
    static A get(P &p) {
        typename D::E zz = D::get(p.zz), zzz = D::get(p.zzz);
        if (zz == D::of(0)) return A::zero();
        return A::mk(D::mul(D::get(p.x), D::inv(zz)), D::mul(D::get(p.y), D::inv(zzz)));
    }
    static A get(PA &p) {
        typename D::E x = D::get(p.x), y = D::get(p.y);
        if (x == D::of(0) && y == D::of(0)) return A::zero();
        return A::mk(x, y);
    }
    void is(const char *what, const A &got, const A &want, const std::string &at) {
        c.eval();
        if (got != want) c.viol(std::string("engine:") + what, "%s %s gives %s, not %s", n.c_str(), at.c_str(), got.str().c_str(), want.str().c_str());
    }
    static std::vector<uint8_t> bytes(const mpz_class &k, size_t w) { std::vector<uint8_t> v(w, 0); size_t cnt; mpz_export(v.data(), &cnt, -1, 1, 0, 0, k.get_mpz_t()); return v; }

    void params(const typename D::E &a, const typename D::E &b) {
        c.eval(4); c.state();
        if (!(D::get(g.a()) == a)) c.viol("engine:a", "%s: linear coefficient is %s", n.c_str(), D::str(D::get(g.a())).c_str());
        if (!(D::get(g.b()) == b)) c.viol("engine:b", "%s: constant coefficient is %s", n.c_str(), D::str(D::get(g.b())).c_str());
        is("generator", get(g.one()), gen, "generator");
        is("generator", get(g.oneAffine()), gen, "affine generator");
        is("zero", get(g.zero()), A::zero(), "zero");
        is("zero", get(g.zeroAffine()), A::zero(), "affine zero");
        typename D::E x = gen.x, y = gen.y;
        if (!(D::mul(y, y) == D::add(D::mul(x, D::mul(x, x)), b))) c.viol("engine:off-curve", "%s: the generator is not on the curve", n.c_str());
        if (!A::times(gen, Rr).inf) c.viol("engine:order", "%s: the generator's order is not r", n.c_str());
    }
    void order() {
        for (size_t w : {32, 33, 40}) {
            for (int d = -3; d <= 3; d++) for (int m = 1; m <= 3; m++) {
                mpz_class k = m * Rr + d;
                if (mpz_sizeinbase(k.get_mpz_t(), 2) > 8 * w) continue;
                auto s = bytes(k, w);
                P r; PA a;
                A want = A::times(gen, (k % Rr + Rr) % Rr);
                g.mulByScalar(r, g.one(), s.data(), w); is("order", get(r), want, "generator times " + k.get_str());
                c.nontrivial();
                a = g.oneAffine();
                g.mulByScalar(r, a, s.data(), w); is("order", get(r), want, "affine generator times " + k.get_str());
                if (!d) { c.eval(); if (!g.isZero(r)) c.viol("engine:order", "%s: r times the generator is not zero", n.c_str()); }
            }
        }
    }
    void multiples(int N) {
        std::vector<A> w = {A::zero()}; std::vector<P> p(N + 1); std::vector<PA> a(N + 1);
        for (int i = 1; i <= 2 * N; i++) w.push_back(A::add(w.back(), gen));
        g.copy(p[0], g.zero()); g.copy(a[0], g.zeroAffine());
        for (int i = 1; i <= N; i++) { g.add(p[i], p[i - 1], g.one()); g.copy(a[i], p[i]); is("multiple", get(p[i]), w[i], std::to_string(i) + " times the generator"); is("affine", get(a[i]), w[i], std::to_string(i) + " times the generator"); }
        auto at = [&](int k) { return k >= 0 ? w[k] : w[-k].neg(); };
        for (int i = 0; i <= N; i++) {
            c.cur("%s: %d times the generator with the others", n.c_str(), i); c.state();
            P r; PA ra;
            g.dbl(r, p[i]); is("dbl", get(r), w[2 * i], "dbl"); g.dbl(r, a[i]); is("dbl", get(r), w[2 * i], "dbl affine"); g.dbl(ra, p[i]); is("dbl", get(ra), w[2 * i], "dbl to affine");
            g.neg(r, p[i]); is("neg", get(r), at(-i), "neg"); g.neg(r, a[i]); is("neg", get(r), at(-i), "neg affine"); g.neg(ra, a[i]); is("neg", get(ra), at(-i), "neg affine"); g.neg(ra, p[i]); is("neg", get(ra), at(-i), "neg to affine");
            c.eval(); if (g.toString(p[i]) != w[i].text()) c.viol("engine:text", "%s: %d times the generator prints %s", n.c_str(), i, g.toString(p[i]).c_str());
            for (int j = 0; j <= N; j++) {
                c.trans(); if (i && j && i != j) c.nontrivial();
                std::string s = std::to_string(i) + " and " + std::to_string(j);
                g.add(r, p[i], p[j]); is("add", get(r), w[i + j], s);
                g.add(r, p[i], a[j]); is("add", get(r), w[i + j], s + " (mixed)");
                g.add(r, a[i], a[j]); is("add", get(r), w[i + j], s + " (affine)");
                g.sub(r, p[i], p[j]); is("sub", get(r), at(i - j), s);
                g.sub(r, p[i], a[j]); is("sub", get(r), at(i - j), s + " (mixed)");
                g.sub(r, a[i], a[j]); is("sub", get(r), at(i - j), s + " (affine)");
                bool e = i == j;
                c.eval(3);
                if (g.eq(p[i], p[j]) != e || g.eq(p[i], a[j]) != e || g.eq(a[i], a[j]) != e) c.viol("engine:eq", "%s: multiples %s", n.c_str(), s.c_str());
            }
        }
        // every scalar of the bound against the table, and large ones against the oracle's own ladder
        std::vector<mpz_class> big = {Rr / 2, Rr / 3, (mpz_class(1) << 64) - 1, mpz_class(1) << 64, (mpz_class(1) << 128) - 1, mpz_class(1) << 253, (mpz_class(1) << 256) - 1, mpz_class("0x5555555555555555555555555555555555555555555555555555555555555555"), mpz_class("0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")};
        for (int k = 0; k <= 2 * N; k++) { P r; auto s = bytes(k, 2); g.mulByScalar(r, p[1], s.data(), 2); is("mulByScalar", get(r), w[k], std::to_string(k)); s = bytes(k, 32); g.mulByScalar(r, a[1], s.data(), 32); is("mulByScalar", get(r), w[k], std::to_string(k)); }
        for (auto &k : big) for (int i : {1, 2, 7, N}) { P r; auto s = bytes(k, 32); g.mulByScalar(r, p[i], s.data(), 32); is("mulByScalar", get(r), A::times(w[i], k), k.get_str()); }
        c.sample("%s: all sums of 0..%d times the generator", n.c_str(), N);
    }
    // sums of products: every number of points up to the bound, every alphabet scalar at every place, all entry points
    void sums(int N, bool thorough) {
        std::vector<A> w = {A::zero()};
        for (int i = 1; i <= 8; i++) w.push_back(A::add(w.back(), gen));
        std::vector<PA> pt(9); { P p; g.copy(p, g.zero()); for (int i = 0; i <= 8; i++) { g.copy(pt[i], p); g.add(p, p, g.one()); } }
        for (size_t wd : {(size_t)8, (size_t)31, (size_t)32, (size_t)33}) {
            mpz_class top = mpz_class(1) << (8 * wd);
            std::vector<mpz_class> al;
            for (const mpz_class &k : std::vector<mpz_class>{0, 1, 2, Rr - 1, Rr, Rr + 1, Rr / 2, top - 1, top / 2, top / 2 - 1, (mpz_class(1) << 63), mpz_class("0x5555555555555555555555555555555555555555555555555555555555555555") % top, mpz_class("0xa3c59ac2f1e8b7d64b2a917f3c5e8d0612345679abcdef01fedcba9876543211") % top}) if (k >= 0 && k < top) al.push_back(k);
            for (int cnt = 0; cnt <= N; cnt++) {
                if (cnt > 6 && cnt % 4 && !thorough) continue;
                for (size_t sh = 0; sh < al.size(); sh++) {
                    std::vector<PA> b(cnt); std::vector<uint8_t> s(cnt * wd, 0); mpz_class total = 0;
                    for (int i = 0; i < cnt; i++) {
                        int m = (i * 5 + sh) % 9; const mpz_class &k = al[(sh + i * (1 + sh % 3)) % al.size()];
                        if (i % 3 == 2) { g.neg(b[i], pt[m]); total -= m * k; } else { g.copy(b[i], pt[m]); total += m * k; }
                        auto e = bytes(k, wd); std::copy(e.begin(), e.end(), s.begin() + i * wd);
                    }
                    mpz_class red = ((total % Rr) + Rr) % Rr;
                    A want = A::times(gen, red);
                    std::string at = "sum of " + std::to_string(cnt) + " products, width " + std::to_string(wd) + ", shift " + std::to_string(sh);
                    c.cur("%s: %s", n.c_str(), at.c_str()); c.state(); c.trans(cnt); if (!want.inf) c.nontrivial();
                    P r;
                    int thr = cnt % 4;
                    g.multiMulByScalar(r, b.data(), s.data(), wd, cnt, thr); is("multiexp", get(r), want, at);
                    g.multiMulByScalarMSM(r, b.data(), s.data(), wd, cnt); is("msm", get(r), want, at);
                    std::vector<uint64_t> x = {(uint64_t)cnt, (uint64_t)cnt};
                    g.multiMulByScalar(r, b.data(), s.data(), wd, cnt, 2, x.data(), thr); is("multiexp-strided", get(r), want, at);
                }
            }
        }
        c.sample("%s: sums of up to %d products", n.c_str(), N);
    }
};

static Aff<D1> gen1() { return Aff<D1>::mk(1, 2); }
static Aff<D2> gen2() {
    return Aff<D2>::mk(Q::mk(mpz_class("10857046999023057135944570762232829481370756359578518086990519993285655852781"), mpz_class("11559732032986387107991004021392285783925812861821192530917403151452391805634")),
                       Q::mk(mpz_class("8495653923123431417604973247489272438418190587263600148770280649306958101930"), mpz_class("4082367875863433681332203403145435568316851327593401208105741076214120093531")));
}
static void init() { BigR::m = Pq; Quad<BigR>::nr = Pq - 1; }

template<class F> static mpz_class modulus(F &f) { mpz_class m; typename F::Element e = f.negOne(); f.toMpz(m.get_mpz_t(), e); return m + 1; }

static void job_fields(Ctx &c) {
    init(); c.state(); c.nontrivial(); c.eval(8);
    if (mpz_probab_prime_p(Pq.get_mpz_t(), 40) == 0 || mpz_probab_prime_p(Rr.get_mpz_t(), 40) == 0) c.viol("engine:definition", "the published moduli are not prime");
    if (modulus(En::engine.f1) != Pq || modulus(AltBn128::F1) != Pq) c.viol("engine:base-field", "the base field is not the curve's");
    if (modulus(En::engine.fr) != Rr || modulus(AltBn128::Fr) != Rr) c.viol("engine:scalar-field", "the scalar field is not the curve's");
    // u^2 = -1, v^3 = 9 + u, w^2 = v
    auto f2 = [&](En::F2 &F, const char *n) {
        En::F2Element u, r; BQ::put(u.a, 0); BQ::put(u.b, 1); F.mul(r, u, u); c.eval();
        if (D2::get(r) != Q::mk(Pq - 1, 0)) c.viol("engine:f2", "%s: u^2 is %s", n, Q::str(D2::get(r)).c_str());
        F.square(r, u);
        if (D2::get(r) != Q::mk(Pq - 1, 0)) c.viol("engine:f2", "%s: square of u is %s", n, Q::str(D2::get(r)).c_str());
    };
    f2(En::engine.f2, "engine"); f2(AltBn128::F2, "global");
    auto put6 = [&](En::F6Element &e, int k) { D2::put(e.z, D2::of(k == 0)); D2::put(e.y, D2::of(k == 1)); D2::put(e.x, D2::of(k == 2)); /* x v^2 + y v + z */ };
    auto f6 = [&](En::F6 &F, const char *n) {
        En::F6Element v, t, r; put6(v, 1);
        F.mul(t, v, v); F.mul(r, t, v); c.eval();
        if (D2::get(r.z) != Q::mk(9, 1) || D2::get(r.y) != D2::of(0) || D2::get(r.x) != D2::of(0)) c.viol("engine:f6", "%s: v^3 is %s", n, F.toString(r).c_str());
    };
    f6(En::engine.f6, "engine"); f6(AltBn128::F6, "global");
    auto f12 = [&](En::F12 &F, const char *n) {
        En::F12Element w, r; put6(w.x, 0); put6(w.y, -1);     // x w + y
        F.mul(r, w, w); c.eval();
        bool ok = D2::get(r.x.x) == D2::of(0) && D2::get(r.x.y) == D2::of(0) && D2::get(r.x.z) == D2::of(0) && D2::get(r.y.x) == D2::of(0) && D2::get(r.y.y) == D2::of(1) && D2::get(r.y.z) == D2::of(0);
        if (!ok) c.viol("engine:f12", "%s: w^2 is %s", n, F.toString(r).c_str());
    };
    f12(En::engine.f12, "engine"); f12(AltBn128::F12, "global");
    c.sample("moduli, u^2=-1, v^3=9+u, w^2=v in the engine and the global objects");
}

int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    jobs.push_back({"fields", job_fields});
    auto twist = [] { return D2::mul(D2::of(3), D2::inv(Q::mk(9, 1))); };
    for (int w = 0; w < 2; w++) {
        std::string n = w ? "global" : "engine";
        jobs.push_back({"g1-" + n, [=](Ctx &c) { init(); Side<D1, En::G1> s(w ? AltBn128::G1 : En::engine.g1, c, (n + " g1").c_str(), gen1()); s.params(0, 3); s.order(); s.multiples(th ? 400 : 60); }});
        jobs.push_back({"g2-" + n, [=](Ctx &c) { init(); Side<D2, En::G2> s(w ? AltBn128::G2 : En::engine.g2, c, (n + " g2").c_str(), gen2()); s.params(D2::of(0), twist()); s.order(); s.multiples(th ? 250 : 40); }});
        jobs.push_back({"sums1-" + n, [=](Ctx &c) { init(); Side<D1, En::G1> s(w ? AltBn128::G1 : En::engine.g1, c, (n + " g1").c_str(), gen1()); s.sums(th ? 70 : 34, th); }});
        jobs.push_back({"sums2-" + n, [=](Ctx &c) { init(); Side<D2, En::G2> s(w ? AltBn128::G2 : En::engine.g2, c, (n + " g2").c_str(), gen2()); s.sums(th ? 40 : 18, th); }});
    }
    Options o; o.jobTimeout = th ? 6000 : 600;
    return run(argc, argv, jobs, o);
}
