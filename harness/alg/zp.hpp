// A prime field with a modulus chosen at run time, with the interface of the generated raw field
// classes. Elements are plain words in a Montgomery-like form (value * K mod p, K != 1), so code
// that confuses the form with the number is seen; a word >= p is an element nobody wrote
// (the harness fills fresh memory with such a pattern), and using one is recorded.
#pragma once
#include <gmp.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef uint64_t ZpRawElement[1];

class Zp {
public:
    const static int N64 = 1;
    const static int MaxBits = 62;
    struct Element { ZpRawElement v; };

    static uint64_t p, K, Ki;
    static uint64_t misuse;               // operations on elements nobody wrote
    static uint64_t mulmod(uint64_t a, uint64_t b) { return p < (1ull << 32) ? a * b % p : (uint64_t)((unsigned __int128)a * b % p); }
    static uint64_t powmod(uint64_t a, uint64_t e) { uint64_t r = 1 % p; for (; e; e >>= 1, a = mulmod(a, a)) if (e & 1) r = mulmod(r, a); return r; }
    static void setPrime(uint64_t q) {
        p = q;
        K = (uint64_t)(((unsigned __int128)1 << 64) % p);
        if (K == 1 && p > 3) K = 2;
        Ki = powmod(K, p - 2);
        misuse = 0;
        field.init();
    }
    // harness side: number <-> element
    static Element mk(uint64_t x) { Element e; e.v[0] = mulmod(x % p, K); return e; }
    static uint64_t num(const Element &e) { if (e.v[0] >= p) { misuse++; return 0; } return mulmod(e.v[0], Ki); }
    static bool good(const Element &e) { return e.v[0] < p; }

private:
    Element fZero, fOne, fNegOne;
    static void ck(const Element &a) { if (a.v[0] >= p) misuse++; }
    void init() { fZero = mk(0); fOne = mk(1); fNegOne = mk(p - 1); }
public:
    Zp() { if (p) init(); }
    const Element &zero() { return fZero; }
    const Element &one() { return fOne; }
    const Element &negOne() { return fNegOne; }
    Element set(int value) { Element r; set(r, value); return r; }
    void set(Element &r, int value) { int64_t v = value % (int64_t)p; if (v < 0) v += p; r = mk(v); }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) {
        mpz_t m; mpz_init_set_str(m, s.c_str(), radix);
        r = mk(mpz_fdiv_ui(m, p));
        mpz_clear(m);
    }
    std::string toString(const Element &a, uint32_t radix = 10) {
        mpz_t m; mpz_init(m); mpz_set_ui(m, num(a));
        char *c = mpz_get_str(0, radix, m); std::string s(c); free(c); mpz_clear(m);
        return s;
    }
    void copy(Element &r, const Element &a) { r.v[0] = a.v[0]; }
    void swap(Element &a, Element &b) { uint64_t t = a.v[0]; a.v[0] = b.v[0]; b.v[0] = t; }
    void add(Element &r, const Element &a, const Element &b) { ck(a); ck(b); uint64_t t = a.v[0] + b.v[0]; r.v[0] = t >= p ? t - p : t; }
    void sub(Element &r, const Element &a, const Element &b) { ck(a); ck(b); uint64_t x = a.v[0], y = b.v[0]; r.v[0] = x >= y ? x - y : x + p - y; }
    void mul(Element &r, const Element &a, const Element &b) { ck(a); ck(b); r.v[0] = mulmod(mulmod(a.v[0] % p, b.v[0] % p), Ki); }
    Element add(const Element &a, const Element &b) { Element r; add(r, a, b); return r; }
    Element sub(const Element &a, const Element &b) { Element r; sub(r, a, b); return r; }
    Element mul(const Element &a, const Element &b) { Element r; mul(r, a, b); return r; }
    Element neg(const Element &a) { Element r; neg(r, a); return r; }
    Element square(const Element &a) { Element r; square(r, a); return r; }
    Element add(int a, const Element &b) { return add(set(a), b); }
    Element sub(int a, const Element &b) { return sub(set(a), b); }
    Element mul(int a, const Element &b) { return mul(set(a), b); }
    Element add(const Element &a, int b) { return add(a, set(b)); }
    Element sub(const Element &a, int b) { return sub(a, set(b)); }
    Element mul(const Element &a, int b) { return mul(a, set(b)); }
    void mul1(Element &r, const Element &a, uint64_t b) { ck(a); r.v[0] = mulmod(mulmod(a.v[0] % p, b % p), Ki); }
    void neg(Element &r, const Element &a) { ck(a); r.v[0] = a.v[0] ? p - a.v[0] : 0; }
    void square(Element &r, const Element &a) { mul(r, a, a); }
    void inv(Element &r, const Element &a) { r = mk(powmod(num(a), p - 2)); }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    void exp(Element &r, const Element &base, uint8_t *scalar, unsigned int n) {
        // same steps as the real class: the result object is written as the power builds up
        Element b; copy(b, base);
        bool found = false;
        for (int i = (int)n * 8 - 1; i >= 0; i--) {
            bool bit = scalar[i >> 3] & (1 << (i & 7));
            if (!found) { if (bit) { copy(r, b); found = true; } continue; }
            square(r, r);
            if (bit) mul(r, r, b);
        }
        if (!found) copy(r, fOne);
    }
    int eq(const Element &a, const Element &b) { ck(a); ck(b); return a.v[0] == b.v[0]; }
    int isZero(const Element &a) { ck(a); return a.v[0] == 0; }
    void toMontgomery(Element &r, const Element &a) { r.v[0] = mulmod(a.v[0], K); }
    void fromMontgomery(Element &r, const Element &a) { r.v[0] = mulmod(a.v[0], Ki); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, num(a)); }
    void fromMpz(Element &a, const mpz_t r) { a = mk(mpz_fdiv_ui(r, p)); }
    void fromUI(Element &r, unsigned long v) { r = mk(v % p); }
    int bytes() { return 8; }
    static Zp field;
};

#ifdef ZP_MAIN
uint64_t Zp::p = 0, Zp::K = 0, Zp::Ki = 0, Zp::misuse = 0;
Zp Zp::field;
#ifdef ZP_NEW
// fresh heap memory holds a pattern that is no element; both ends of a block are checked on release
#include <new>
static void *fillNew(size_t n) {
    char *q = (char *)malloc(n + 32);
    if (!q) throw std::bad_alloc();
    *(size_t *)q = n; memset(q + 8, 0xA5, 8);
    memset(q + 16, 0xFE, n); memset(q + 16 + n, 0xA5, 16);
    return q + 16;
}
static void fillDel(void *p) {
    if (!p) return;
    char *q = (char *)p - 16; size_t n = *(size_t *)q;
    for (int i = 0; i < 8; i++) if ((unsigned char)q[8 + i] != 0xA5) { fprintf(stderr, "heap block damaged before its start\n"); abort(); }
    for (int i = 0; i < 16; i++) if ((unsigned char)q[16 + n + i] != 0xA5) { fprintf(stderr, "heap block damaged after its end\n"); abort(); }
    memset(p, 0xFD, n);
    free(q);
}
void *operator new(size_t n) { return fillNew(n); }
void *operator new[](size_t n) { return fillNew(n); }
void operator delete(void *p) noexcept { fillDel(p); }
void operator delete[](void *p) noexcept { fillDel(p); }
void operator delete(void *p, size_t) noexcept { fillDel(p); }
void operator delete[](void *p, size_t) noexcept { fillDel(p); }
#endif
#endif

// memory that ends exactly at an inaccessible page
#include <sys/mman.h>
struct GuardBuf {
    char *base; size_t cap;
    GuardBuf(size_t n) { cap = (n + 4095) / 4096 * 4096 + 4096; base = (char *)mmap(NULL, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + cap, 4096, PROT_NONE); }
    ~GuardBuf() { munmap(base, cap + 8192); }
    uint8_t *end(size_t n) { return (uint8_t *)base + 4096 + cap - n; }     // n bytes ending at the guard page
    uint8_t *begin() { return (uint8_t *)base + 4096; }                   // starting right after a guard page
};
