// Reference arithmetic of the oracles: residues as machine words or big integers, polynomials over them.
#pragma once
#include <gmpxx.h>
#include <array>
#include <vector>
#include "zp.hpp"

// residues modulo a small prime
struct SmallR {
    typedef uint64_t N;
    static uint64_t m;
    static N add(const N &a, const N &b) { return (N)(((unsigned __int128)a + b) % m); }
    static N sub(const N &a, const N &b) { return (N)(((unsigned __int128)a + m - b) % m); }
    static N mul(const N &a, const N &b) { return (N)((unsigned __int128)a * b % m); }
    static N pow(N a, N e) { N r = 1 % m; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
    static N inv(const N &a) { return pow(a, m - 2); }
    static N of(long v) { long r = v % (long)m; return r < 0 ? r + m : r; }
    static std::string str(const N &a, int radix = 10) { return mpz_class((unsigned long)a).get_str(radix); }
};
struct BigR {
    typedef mpz_class N;
    static mpz_class m;
    static N red(const N &a) { N r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
    static N add(const N &a, const N &b) { return red(a + b); }
    static N sub(const N &a, const N &b) { return red(a - b); }
    static N mul(const N &a, const N &b) { return red(a * b); }
    static N inv(const N &a) { N r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
    static N of(long v) { return red(mpz_class(v)); }
    static std::string str(const N &a, int radix = 10) { return a.get_str(radix); }
};

// polynomials of fixed length over R, modulo x^D - c where c is a residue
template<class R, int D> struct Poly {
    std::array<typename R::N, D> c;
    bool operator==(const Poly &o) const { return c == o.c; }
    bool operator!=(const Poly &o) const { return !(c == o.c); }
    bool operator<(const Poly &o) const { return c < o.c; }
};

// F[x]/(x^2 - nr)
template<class R> struct Quad {
    typedef typename R::N N;
    typedef Poly<R, 2> E;
    static N nr;
    static E mk(const N &a, const N &b) { E e; e.c[0] = a; e.c[1] = b; return e; }
    static E add(const E &a, const E &b) { return mk(R::add(a.c[0], b.c[0]), R::add(a.c[1], b.c[1])); }
    static E sub(const E &a, const E &b) { return mk(R::sub(a.c[0], b.c[0]), R::sub(a.c[1], b.c[1])); }
    static E mul(const E &a, const E &b) {
        return mk(R::add(R::mul(a.c[0], b.c[0]), R::mul(nr, R::mul(a.c[1], b.c[1]))), R::add(R::mul(a.c[0], b.c[1]), R::mul(a.c[1], b.c[0])));
    }
    static N norm(const E &a) { return R::sub(R::mul(a.c[0], a.c[0]), R::mul(nr, R::mul(a.c[1], a.c[1]))); }
    static E inv(const E &a) { N d = R::inv(norm(a)); return mk(R::mul(a.c[0], d), R::mul(R::sub(R::of(0), a.c[1]), d)); }
    static std::string str(const E &a, int radix = 10) { return "(" + R::str(a.c[0], radix) + "," + R::str(a.c[1], radix) + ")"; }
};
template<class R> typename R::N Quad<R>::nr;
#ifdef ZP_MAIN
uint64_t SmallR::m = 0;
mpz_class BigR::m;
#endif

// bridges: number <-> element of the code under test
struct ZpBridge {
    typedef Zp F; typedef SmallR R;
    static void put(Zp::Element &e, const uint64_t &n) { e = Zp::mk(n); }
    static uint64_t get(const Zp::Element &e) { return Zp::num(e); }
    static void setup(uint64_t p) { Zp::setPrime(p); SmallR::m = p; }
};
template<class Raw> struct RawBridge {
    typedef Raw F; typedef BigR R;
    static void put(typename Raw::Element &e, const mpz_class &n) { Raw::field.fromMpz(e, n.get_mpz_t()); }
    static mpz_class get(const typename Raw::Element &e) { mpz_class n; Raw::field.toMpz(n.get_mpz_t(), e); return n; }
    static void setup() { mpz_class n; typename Raw::Element e = Raw::field.negOne(); Raw::field.toMpz(n.get_mpz_t(), e); BigR::m = n + 1; }
};
