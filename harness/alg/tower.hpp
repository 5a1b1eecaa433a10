// Reference tower: elements of Quad[w]/(w^D - xi), D = 3 or 6, xi = 9 + i, and bridges to F6/F12.
#pragma once
#include "num.hpp"
template<class R> struct Tower {
    typedef Quad<R> Q; typedef typename Q::E QE;
    typedef std::vector<QE> E;
    static QE q(long a, long b) { return Q::mk(R::of(a), R::of(b)); }
    static QE xi() { return q(9, 1); }
    static E zero(int D) { return E(D, q(0, 0)); }
    static E one(int D) { E e = zero(D); e[0] = q(1, 0); return e; }
    static E add(const E &a, const E &b) { E r(a); for (size_t i = 0; i < a.size(); i++) r[i] = Q::add(a[i], b[i]); return r; }
    static E sub(const E &a, const E &b) { E r(a); for (size_t i = 0; i < a.size(); i++) r[i] = Q::sub(a[i], b[i]); return r; }
    static E mul(const E &a, const E &b) {
        int D = a.size();
        E r = zero(D), hi = zero(D);
        for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
            QE t = Q::mul(a[i], b[j]);
            if (i + j < D) r[i + j] = Q::add(r[i + j], t); else hi[i + j - D] = Q::add(hi[i + j - D], t);
        }
        for (int i = 0; i < D; i++) r[i] = Q::add(r[i], Q::mul(xi(), hi[i]));
        return r;
    }
    static E scale(const E &a, const QE &s) { E r(a); for (auto &x : r) x = Q::mul(x, s); return r; }
    static E pow(E a, const mpz_class &e) {
        E r = one(a.size());
        for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
        return r;
    }
    // solves a*x = 1; false if a is no unit
    static bool inv(const E &a, E &x) {
        int D = a.size();
        QE z = q(0, 0);
        std::vector<E> M(D, E(D + 1, z)); // column j of the matrix is a*w^j
        E col = a, w = zero(D);
        w[1 % D] = q(1, 0);
        for (int j = 0; j < D; j++) { for (int i = 0; i < D; i++) M[i][j] = col[i]; col = mul(col, w); }
        M[0][D] = q(1, 0);
        for (int k = 0; k < D; k++) {
            int p = -1;
            for (int i = k; i < D; i++) if (M[i][k] != z) { p = i; break; }
            if (p < 0) return false;
            std::swap(M[p], M[k]);
            QE d = Q::inv(M[k][k]);
            for (int j = k; j <= D; j++) M[k][j] = Q::mul(M[k][j], d);
            for (int i = 0; i < D; i++) if (i != k && M[i][k] != z) {
                QE f = M[i][k];
                for (int j = k; j <= D; j++) M[i][j] = Q::sub(M[i][j], Q::mul(f, M[k][j]));
            }
        }
        x = zero(D);
        for (int i = 0; i < D; i++) x[i] = M[i][D];
        return true;
    }
    static std::string str6(const E &t, int radix = 10) { return "(" + Q::str(t[2], radix) + "," + Q::str(t[1], radix) + "," + Q::str(t[0], radix) + ")"; }
    static std::string str(const E &a, int radix = 10) {
        if (a.size() == 3) return str6(a, radix);
        return "(" + str6({a[1], a[3], a[5]}, radix) + "," + str6({a[0], a[2], a[4]}, radix) + ")";
    }
};

template<class B> struct TowerBridge {
    typedef typename B::F F; typedef typename B::R R; typedef Tower<R> T; typedef typename T::E E; typedef Quad<R> Q; typedef typename T::QE QE;
    typedef F2Field<F> F2; typedef F6Field<F2> F6; typedef F12Field<F6> F12;
    static void put(typename F2::Element &x, const QE &e) { B::put(x.a, e.c[0]); B::put(x.b, e.c[1]); }
    static QE get(const typename F2::Element &x) { return Q::mk(B::get(x.a), B::get(x.b)); }
    static void put(typename F6::Element &x, const E &e) { put(x.z, e[0]); put(x.y, e[1]); put(x.x, e[2]); }
    static void get(const typename F6::Element &x, E &e) { e = {get(x.z), get(x.y), get(x.x)}; }
    static void put(typename F12::Element &x, const E &e) {
        put(x.y.z, e[0]); put(x.x.z, e[1]); put(x.y.y, e[2]); put(x.x.y, e[3]); put(x.y.x, e[4]); put(x.x.x, e[5]);
    }
    static void get(const typename F12::Element &x, E &e) { e = {get(x.y.z), get(x.x.z), get(x.y.y), get(x.x.y), get(x.y.x), get(x.x.x)}; }
};
