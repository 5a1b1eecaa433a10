// -DFNAME=<generated name> -DFHDR="..." -DFLABEL="..."
#include FHDR
#include "impl.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define F(x) CAT(FNAME, x)
#define STR_(x) #x
#define STR(x) STR_(x)
typedef CAT(FNAME, Element) TE;
typedef CAT(Raw, FNAME) RF;
typedef RF::Element E;
#define T(p) ((TE *)(p))
#define L(p) ((uint64_t *)(p))
#define M(p) (*(E *)(p))
#define K(p) (*(const E *)(p))
#define W2(x) [](void *r, void *a, void *b) { F(x)(T(r), T(a), T(b)); }
#define W1(x) [](void *r, void *a) { F(x)(T(r), T(a)); }
static Impl impl = {
    FLABEL, STR(FNAME), CAT(FNAME, _N64), RF::MaxBits,
    W2(_add), W2(_sub), W2(_mul), W2(_band), W2(_bor), W2(_bxor), W2(_shl), W2(_shr), W2(_eq), W2(_neq), W2(_lt), W2(_gt),
    W2(_leq), W2(_geq), W2(_land), W2(_lor), W2(_idiv), W2(_mod), W2(_div), W2(_pow),
    W1(_neg), W1(_square), W1(_bnot), W1(_lnot), W1(_toNormal), W1(_toLongNormal), W1(_toMontgomery), W1(_copy), W1(_inv),
    [](void *r, void *a, int n) { F(_copyn)(T(r), T(a), n); },
    [](void *a) -> int { return F(_isTrue)(T(a)); },
    [](void *a) -> int { return F(_toInt)(T(a)); },
    [](void *r, const char *s) { F(_str2element)(T(r), s); },
    [](void *a) -> char * { return F(_element2str)(T(a)); },
    [](void *r, void *a, void *b) { F(_rawAdd)(L(r), L(a), L(b)); },
    [](void *r, void *a, void *b) { F(_rawSub)(L(r), L(a), L(b)); },
    [](void *r, void *a, void *b) { F(_rawMMul)(L(r), L(a), L(b)); },
    [](void *r, void *a) { F(_rawNeg)(L(r), L(a)); },
    [](void *r, void *a) { F(_rawMSquare)(L(r), L(a)); },
    [](void *r, void *a) { F(_rawCopy)(L(r), L(a)); },
    [](void *r, void *a) { F(_rawSwap)(L(r), L(a)); },
    [](void *r, void *a) { F(_rawToMontgomery)(L(r), L(a)); },
    [](void *r, void *a) { F(_rawFromMontgomery)(L(r), L(a)); },
    [](void *r, void *a, uint64_t b) { F(_rawMMul1)(L(r), L(a), b); },
    [](void *a, void *b) -> int { return F(_rawIsEq)(L(a), L(b)); },
    [](void *a) -> int { return F(_rawIsZero)(L(a)); },
    [](void *r, void *a, uint64_t b) { F(_rawShl)(L(r), L(a), b); },
    [](void *r, void *a, uint64_t b) { F(_rawShr)(L(r), L(a), b); },
    [](void *r, const void *a, const void *b) { RF::field.add(M(r), K(a), K(b)); },
    [](void *r, const void *a, const void *b) { RF::field.sub(M(r), K(a), K(b)); },
    [](void *r, const void *a, const void *b) { RF::field.mul(M(r), K(a), K(b)); },
    [](void *r, const void *a, const void *b) { M(r) = RF::field.add(K(a), K(b)); },
    [](void *r, const void *a, const void *b) { M(r) = RF::field.sub(K(a), K(b)); },
    [](void *r, const void *a, const void *b) { M(r) = RF::field.mul(K(a), K(b)); },
    [](void *r, const void *a) { RF::field.neg(M(r), K(a)); },
    [](void *r, const void *a) { RF::field.square(M(r), K(a)); },
    [](void *r, const void *a) { M(r) = RF::field.neg(K(a)); },
    [](void *r, const void *a) { M(r) = RF::field.square(K(a)); },
    [](void *r, const void *a) { RF::field.copy(M(r), K(a)); },
    [](void *r, void *a) { RF::field.swap(M(r), M(a)); },
    [](void *r, const void *a, uint64_t b) { RF::field.mul1(M(r), K(a), b); },
    [](void *r, const void *a) { RF::field.inv(M(r), K(a)); },
    [](void *r, const void *a, const void *b) { RF::field.div(M(r), K(a), K(b)); },
    [](void *r, const void *a, uint8_t *s, unsigned n) { RF::field.exp(M(r), K(a), s, n); },
    [](void *r, const void *a) { RF::field.toMontgomery(M(r), K(a)); },
    [](void *r, const void *a) { RF::field.fromMontgomery(M(r), K(a)); },
    [](const void *a, const void *b) -> int { return RF::field.eq(K(a), K(b)); },
    [](const void *a) -> int { return RF::field.isZero(K(a)); },
    [](void *r) { M(r) = RF::field.zero(); },
    [](void *r) { M(r) = RF::field.one(); },
    [](void *r) { M(r) = RF::field.negOne(); },
    [](void *r, int v) { RF::field.set(M(r), v); },
    [](void *r, int v) { M(r) = RF::field.set(v); },
    [](void *r, unsigned long v) { RF::field.fromUI(M(r), v); },
    [](void *r, const std::string &s, uint32_t x) { RF::field.fromString(M(r), s, x); },
    [](const void *a, uint32_t x) { return RF::field.toString(K(a), x); },
    [](void *r, const std::string &s) { RF::field.fromString(M(r), s); },
    [](const void *a) { return RF::field.toString(K(a)); },
    [](mpz_t r, const void *a) { RF::field.toMpz(r, K(a)); },
    [](void *r, const mpz_t a) { RF::field.fromMpz(M(r), a); },
    [](const void *a, uint8_t *d, int n) -> int { return RF::field.toRprBE(K(a), d, n); },
    [](void *r, const uint8_t *d, int n) -> int { return RF::field.fromRprBE(M(r), d, n); },
    []() -> int { return RF::field.bytes(); },
    [](void *r, int op, int first, int k, const void *a) {
        E x;
        if (op == 0) x = first ? RF::field.add(k, K(a)) : RF::field.add(K(a), k);
        else if (op == 1) x = first ? RF::field.sub(k, K(a)) : RF::field.sub(K(a), k);
        else x = first ? RF::field.mul(k, K(a)) : RF::field.mul(K(a), k);
        M(r) = x;
    },
    F(_q).longVal,
};
static RegImpl reg(&impl);
