// Oracle groups: every point of a short Weierstrass curve over a small field, with its full addition table.
#pragma once
#include "num.hpp"
#include <map>

struct ZpC {
    typedef Zp F; typedef uint64_t E;
    static E zero() { return 0; }
    static E one() { return 1; }
    static E of(long v) { return SmallR::of(v); }
    static E add(E a, E b) { return SmallR::add(a, b); }
    static E sub(E a, E b) { return SmallR::sub(a, b); }
    static E mul(E a, E b) { return SmallR::mul(a, b); }
    static E inv(E a) { return SmallR::inv(a); }
    static std::vector<E> all() { std::vector<E> v; for (uint64_t i = 0; i < SmallR::m; i++) v.push_back(i); return v; }
    static void put(Zp::Element &x, E e) { x = Zp::mk(e); }
    static E get(const Zp::Element &x) { return Zp::num(x); }
    static bool good(const Zp::Element &x) { return Zp::good(x); }
    static std::string str(E e, int radix = 10) { return SmallR::str(e, radix); }
    static F *make() { return new Zp(); }
    static std::string name() { return "F" + std::to_string(SmallR::m); }
};
struct F2C {
    typedef F2Field<Zp> F; typedef Quad<SmallR> Q; typedef Q::E E;
    static E zero() { return Q::mk(0, 0); }
    static E one() { return Q::mk(1 % SmallR::m, 0); }
    static E of(long v) { return Q::mk(SmallR::of(v), 0); }
    static E add(const E &a, const E &b) { return Q::add(a, b); }
    static E sub(const E &a, const E &b) { return Q::sub(a, b); }
    static E mul(const E &a, const E &b) { return Q::mul(a, b); }
    static E inv(const E &a) { return Q::inv(a); }
    static std::vector<E> all() { std::vector<E> v; for (uint64_t i = 0; i < SmallR::m; i++) for (uint64_t j = 0; j < SmallR::m; j++) v.push_back(Q::mk(i, j)); return v; }
    static void put(F::Element &x, const E &e) { x.a = Zp::mk(e.c[0]); x.b = Zp::mk(e.c[1]); }
    static E get(const F::Element &x) { return Q::mk(Zp::num(x.a), Zp::num(x.b)); }
    static bool good(const F::Element &x) { return Zp::good(x.a) && Zp::good(x.b); }
    static std::string str(const E &e, int radix = 10) { return Q::str(e, radix); }
    static F *make() { Zp::Element n = Zp::mk(Q::nr); return new F(n); }
    static std::string name() { return "F" + std::to_string(SmallR::m) + "^2"; }
};

template<class C> struct Group {
    typedef typename C::E E; typedef typename C::F F; typedef Curve<F> Cv; typedef typename Cv::Point P; typedef typename Cv::PointAffine A;
    E a, b;
    std::vector<std::pair<E, E>> pts;     // index 0 is infinity
    std::map<std::pair<E, E>, int> idx;
    std::vector<std::vector<int>> sum;
    std::vector<int> opp, ord;
    bool ok = false;

    E rhs(const E &x) const { return C::add(C::add(C::mul(C::mul(x, x), x), C::mul(a, x)), b); }
    Group(const E &a, const E &b) : a(a), b(b) {
        // 4a^3 + 27b^2 != 0, and (0,0) must not be on the curve (it stands for infinity)
        E d = C::add(C::mul(C::of(4), C::mul(a, C::mul(a, a))), C::mul(C::of(27), C::mul(b, b)));
        if (SmallR::m == 3) d = a;      // in characteristic 3 the discriminant is -a^3 (up to sign)
        if (d == C::zero() || b == C::zero()) return;
        ok = true;
        pts.push_back({C::zero(), C::zero()});
        std::vector<E> el = C::all();
        std::multimap<E, E> roots;
        for (auto &y : el) roots.insert({C::mul(y, y), y});
        for (auto &x : el) { auto r = roots.equal_range(rhs(x)); for (auto i = r.first; i != r.second; ++i) { idx[{x, i->second}] = pts.size(); pts.push_back({x, i->second}); } }
        int n = pts.size();
        opp.assign(n, 0);
        for (int i = 1; i < n; i++) opp[i] = idx[{pts[i].first, C::sub(C::zero(), pts[i].second)}];
        sum.assign(n, std::vector<int>(n, 0));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sum[i][j] = chord(i, j);
        ord.assign(n, 1);
        for (int i = 1; i < n; i++) { int k = i; while (k) { k = sum[k][i]; ord[i]++; } }
    }
    int chord(int i, int j) const {
        if (!i) return j;
        if (!j) return i;
        if (opp[i] == j) return 0;
        const E &x1 = pts[i].first, &y1 = pts[i].second, &x2 = pts[j].first, &y2 = pts[j].second;
        E l;
        if (i == j) l = C::mul(C::add(C::mul(C::of(3), C::mul(x1, x1)), a), C::inv(C::add(y1, y1)));
        else l = C::mul(C::sub(y2, y1), C::inv(C::sub(x2, x1)));
        E x3 = C::sub(C::sub(C::mul(l, l), x1), x2), y3 = C::sub(C::mul(l, C::sub(x1, x3)), y1);
        auto it = idx.find({x3, y3});
        return it == idx.end() ? -1 : it->second;
    }
    int times(int i, uint64_t k) const { k %= ord[i]; int r = 0; for (uint64_t n = 0; n < k; n++) r = sum[r][i]; return r; }
    std::vector<int> multiples(int i) const { std::vector<int> v = {0}; for (int k = 1; k < ord[i]; k++) v.push_back(sum[v.back()][i]); return v; }
    int size() const { return pts.size(); }
    int best() const { int m = 0; for (int i = 1; i < size(); i++) if (ord[i] > ord[m]) m = i; return m; }

    // ---- points of the code under test
    void affine(A &p, int i) const { C::put(p.x, pts[i].first); C::put(p.y, pts[i].second); }
    void scaled(P &p, int i, const E &l) const {
        E l2 = C::mul(l, l), l3 = C::mul(l2, l);
        C::put(p.x, C::mul(pts[i].first, l2)); C::put(p.y, C::mul(pts[i].second, l3)); C::put(p.zz, l2); C::put(p.zzz, l3);
    }
    void infinity(P &p, const E &x, const E &y) const { C::put(p.x, x); C::put(p.y, y); C::put(p.zz, C::zero()); C::put(p.zzz, C::zero()); }
    // index of a point of the code under test, -1 no point of the curve, -2 unwritten, -3 inconsistent scaling
    int which(const P &p) const {
        if (!C::good(p.x) || !C::good(p.y) || !C::good(p.zz) || !C::good(p.zzz)) return -2;
        E zz = C::get(p.zz), zzz = C::get(p.zzz);
        if (zz == C::zero()) return zzz == C::zero() ? 0 : -3;
        if (C::mul(zz, C::mul(zz, zz)) != C::mul(zzz, zzz)) return -3;
        auto it = idx.find({C::mul(C::get(p.x), C::inv(zz)), C::mul(C::get(p.y), C::inv(zzz))});
        return it == idx.end() ? -1 : it->second;
    }
    int which(const A &p) const {
        if (!C::good(p.x) || !C::good(p.y)) return -2;
        E x = C::get(p.x), y = C::get(p.y);
        if (x == C::zero() && y == C::zero()) return 0;
        auto it = idx.find({x, y});
        return it == idx.end() ? -1 : it->second;
    }
    std::string str(const P &p) const { return "(" + C::str(C::get(p.x)) + "," + C::str(C::get(p.y)) + "," + C::str(C::get(p.zz)) + "," + C::str(C::get(p.zzz)) + ")"; }
    std::string str(const A &p) const { return "(" + C::str(C::get(p.x)) + "," + C::str(C::get(p.y)) + ")"; }
    std::string str() const { return "y^2=x^3+" + C::str(a) + "x+" + C::str(b) + " over " + C::name(); }
    Cv *curve(F &f, int gen) const {
        typename F::Element ea, eb, gx, gy; C::put(ea, a); C::put(eb, b); C::put(gx, pts[gen].first); C::put(gy, pts[gen].second);
        return new Cv(f, ea, eb, gx, gy);
    }
    // every value a projective point can take: each curve point in each scaling, infinity in several forms
    std::vector<P> reps(const std::vector<E> &scal, std::vector<int> *which = 0) const {
        std::vector<P> v;
        auto push = [&](const P &p, int i) { v.push_back(p); if (which) which->push_back(i); };
        P p;
        std::vector<std::pair<E, E>> inf = {{C::one(), C::one()}, {C::zero(), C::zero()}, {C::of(2), C::zero()}, {C::zero(), C::of(-1)}, {C::of(4), C::of(8)}};
        if (size() > 1) inf.push_back(pts[1]);
        for (auto &q : inf) { infinity(p, q.first, q.second); push(p, 0); }
        for (int i = 1; i < size(); i++) for (auto &l : scal) { scaled(p, i, l); push(p, i); }
        return v;
    }
};
