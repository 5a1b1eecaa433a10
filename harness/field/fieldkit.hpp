// Reference arithmetic (GMP integers) and operand alphabets for one modulus.
#pragma once
#include "impl.hpp"
#include "mcx.hpp"
#include <memory>
#include <sys/mman.h>

// Book-keeping of the memory that a call leaves behind: heap blocks alive, and the last one that came from new[].
struct Mem {
    static inline long n = 0;
    static inline void *lastNew = 0;
    static long live() { return n; }
};
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
void *malloc(size_t n) noexcept { Mem::n++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) noexcept { Mem::n++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) noexcept { if (!p) Mem::n++; return __libc_realloc(p, n); }
void free(void *p) noexcept { if (p) { Mem::n--; if (p == Mem::lastNew) Mem::lastNew = 0; } __libc_free(p); }
}
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return Mem::lastNew = p; }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// Element slots, each ending at the end of a page that an inaccessible page follows: reading or writing past an element
// kills the process, and the supervisor names the call. Guard words lie in front of each slot.
struct Fenced {
    static const int GUARD = 4;
    char *base; int n, k; size_t page;
    Fenced(int words, int slots) : n(words), k(slots), page(4096) {
        if ((words + GUARD) * 8u > page) abort();
        base = (char *)mmap(0, 2 * page * k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == (char *)MAP_FAILED) abort();
        for (int i = 0; i < k; i++) if (mprotect(base + (2 * i + 1) * page, page, PROT_NONE)) abort();
    }
    ~Fenced() { munmap(base, 2 * page * k); }
    Fenced(const Fenced &) = delete;
    Fenced &operator=(const Fenced &) = delete;
    uint64_t *slot(int i) { return (uint64_t *)(base + (2 * i + 1) * page) - n; }
    void reset() { for (int i = 0; i < k; i++) for (uint64_t *p = slot(i) - GUARD, *e = slot(i) + n; p < e; p++) *p = 0xC0DEC0DEC0DEC0DEull; }
    bool guardsOk() { for (int i = 0; i < k; i++) for (int g = 1; g <= GUARD; g++) if (slot(i)[-g] != 0xC0DEC0DEC0DEC0DEull) return false; return true; }
};

struct Z {
    mpz_t v;
    Z() { mpz_init(v); }
    Z(long x) { mpz_init_set_si(v, x); }
    Z(const Z &o) { mpz_init_set(v, o.v); }
    Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
    ~Z() { mpz_clear(v); }
    bool operator<(const Z &o) const { return mpz_cmp(v, o.v) < 0; }
    bool operator==(const Z &o) const { return mpz_cmp(v, o.v) == 0; }
    bool operator!=(const Z &o) const { return mpz_cmp(v, o.v) != 0; }
    std::string hex() const { char *s = mpz_get_str(0, 16, v); std::string r(s); free(s); return "0x" + r; }
    std::string dec(int radix = 10) const { char *s = mpz_get_str(0, radix, v); std::string r(s); free(s); return r; }
};
inline Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
inline Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
inline Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
inline Z operator<<(const Z &a, unsigned n) { Z r; mpz_mul_2exp(r.v, a.v, n); return r; }
inline Z operator>>(const Z &a, unsigned n) { Z r; mpz_fdiv_q_2exp(r.v, a.v, n); return r; }
inline Z operator%(const Z &a, const Z &b) { Z r; mpz_fdiv_r(r.v, a.v, b.v); return r; }
inline Z operator/(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.v, a.v, b.v); return r; }

struct Mod {
    Z q, R, Rinv, R2, half, mask;
    int n64, bits;
    void setPrime(const Z &p) {
        q = p;
        bits = mpz_sizeinbase(q.v, 2);
        n64 = (bits + 63) / 64;
        R = (Z(1) << (64 * n64)) % q;
        mpz_invert(Rinv.v, R.v, q.v);
        R2 = (R * R) % q;
        half = q >> 1;
        mask = (Z(1) << bits) - Z(1);
    }
    Z mmul(const Z &a, const Z &b) const { return (a * b * Rinv) % q; }
};

inline void toLimbs(uint64_t *d, const Z &a, int n64) {
    memset(d, 0, 8 * n64);
    if (mpz_size(a.v) <= (size_t)n64) mpz_export(d, NULL, -1, 8, 0, 0, a.v);
    else abort();
}
inline Z fromLimbs(const uint64_t *d, int n64) { Z r; mpz_import(r.v, n64, -1, 8, 0, 0, d); return r; }
inline bool eqLimbs(const uint64_t *d, const Z &a, int n64) {
    size_t s = mpz_size(a.v);
    const mp_limb_t *p = mpz_limbs_read(a.v);
    for (int i = 0; i < n64; i++) if (d[i] != ((size_t)i < s ? p[i] : 0)) return false;
    return s <= (size_t)n64 && mpz_sgn(a.v) >= 0;
}

// Limb-pattern alphabet: every limb is drawn from {0, 1, 2^64-1, 2^63, q_i, q_i-1, (q/2)_i}, changing class at
// most `switches` times from the lowest to the highest limb; plus small, near-q, near-q/2 and power-of-two values.
inline std::vector<Z> limbAlphabet(const Mod &m, int switches, int classes = 7, bool closeNeg = true) {
    std::set<Z> out;
    int n = m.n64;
    std::vector<uint64_t> ql(n), hl(n);
    toLimbs(ql.data(), m.q, n); toLimbs(hl.data(), m.half, n);
    auto limb = [&](int c, int i) -> uint64_t {
        switch (c) { case 0: return 0; case 1: return ~0ull; case 2: return ql[i]; case 3: return hl[i]; case 4: return 1; case 5: return 1ull << 63; default: return ql[i] - 1; }
    };
    std::vector<uint64_t> v(n);
    std::function<void(int, int, int)> rec = [&](int i, int c, int left) {
        if (i == n) { Z x = fromLimbs(v.data(), n); if (x < m.q) out.insert(x); return; }
        for (int d = 0; d < classes; d++) {
            if (i > 0 && d != c && left == 0) continue;
            v[i] = limb(d, i);
            rec(i + 1, d, left - (i > 0 && d != c));
        }
    };
    rec(0, 0, switches);
    auto ins = [&](const Z &x) { Z y = x % m.q; out.insert(y); };
    for (int k = 0; k <= 4; k++) { ins(Z(k)); ins(Z(-k)); ins(m.half + Z(k)); ins(m.half - Z(k)); }
    for (int b = 31; b <= 64 * n; b += (b % 64 == 31) ? 1 : (b % 64 == 32) ? 31 : (b % 64 == 63) ? 1 : 31) for (int k = -1; k <= 1; k++) ins((Z(1) << b) + Z(k));
    ins(m.R); ins(m.R2); ins(m.Rinv); ins((m.R2 * m.R) % m.q);
    ins(Z(1) << (m.bits - 1)); ins((Z(1) << (m.bits - 1)) - Z(1)); ins((Z(1) << (m.bits - 1)) + Z(1));
    if (closeNeg) { std::vector<Z> c(out.begin(), out.end()); for (auto &x : c) ins(m.q - x); }
    return std::vector<Z>(out.begin(), out.end());
}
inline std::vector<Z> thin(const std::vector<Z> &a, size_t want) {
    if (a.size() <= want) return a;
    std::vector<Z> r;
    for (size_t i = 0; i < want; i++) r.push_back(a[i * (a.size() - 1) / (want - 1)]);
    return r;
}

// callee-saved register check: runs fn(r,a,b) with known values in rbx, rbp, r12..r15; returns a bit mask of those destroyed
inline int abiCall(void *fn, void *r, void *a, void *b) {
#if defined(__x86_64__)
    static uint64_t save[8];
    uint64_t bad = 0;
    asm volatile(
        "push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n"
        "mov %%rsp, %[sv]\n"
        "mov $0x1111111111111111, %%rbx\n mov $0x2222222222222222, %%rbp\n mov $0x3333333333333333, %%r12\n"
        "mov $0x4444444444444444, %%r13\n mov $0x5555555555555555, %%r14\n mov $0x6666666666666666, %%r15\n"
        "and $-16, %%rsp\n"
        "call *%%rax\n"
        "xor %%eax, %%eax\n"
        "mov $0x1111111111111111, %%rcx\n cmp %%rcx, %%rbx\n je 1f\n or $1, %%eax\n 1:\n"
        "mov $0x2222222222222222, %%rcx\n cmp %%rcx, %%rbp\n je 2f\n or $2, %%eax\n 2:\n"
        "mov $0x3333333333333333, %%rcx\n cmp %%rcx, %%r12\n je 3f\n or $4, %%eax\n 3:\n"
        "mov $0x4444444444444444, %%rcx\n cmp %%rcx, %%r13\n je 4f\n or $8, %%eax\n 4:\n"
        "mov $0x5555555555555555, %%rcx\n cmp %%rcx, %%r14\n je 5f\n or $16, %%eax\n 5:\n"
        "mov $0x6666666666666666, %%rcx\n cmp %%rcx, %%r15\n je 6f\n or $32, %%eax\n 6:\n"
        "mov %[sv], %%rcx\n mov %%rcx, %%rsp\n"
        "pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n"
        "cld\n"
        : "+a"(fn), "+D"(r), "+S"(a), "+d"(b), [sv] "=m"(save[0])
        :
        : "rcx", "r8", "r9", "r10", "r11", "memory", "cc", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
    bad = (uint64_t)fn;
    return (int)bad;
#else
    ((Fn2)fn)(r, a, b); return 0;
#endif
}
