// One generated field implementation behind a uniform table of entry points.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <gmp.h>
typedef void (*Fn1)(void *, void *);
typedef void (*Fn2)(void *, void *, void *);
struct Impl {
    const char *label;   // e.g. "x86", "generic", "arm64"
    const char *name;    // generated name
    int n64;
    int maxBits;
    // tagged elements
    Fn2 add, sub, mul, band, bor, bxor, shl, shr, eq, neq, lt, gt, leq, geq, land, lor, idiv, mod, div, pow;
    Fn1 neg, square, bnot, lnot, toNormal, toLongNormal, toMontgomery, copy, inv;
    void (*copyn)(void *, void *, int);
    int (*isTrue)(void *);
    int (*toInt)(void *);
    void (*str2element)(void *, const char *);
    char *(*element2str)(void *);
    // raw layer (pointers to n64 limbs)
    Fn2 rAdd, rSub, rMul;
    Fn1 rNeg, rSquare, rCopy, rSwap, rToM, rFromM;
    void (*rMul1)(void *, void *, uint64_t);
    int (*rIsEq)(void *, void *);
    int (*rIsZero)(void *);
    void (*rShl)(void *, void *, uint64_t);
    void (*rShr)(void *, void *, uint64_t);
    // RawField methods
    void (*cAdd)(void *, const void *, const void *);
    void (*cSub)(void *, const void *, const void *);
    void (*cMul)(void *, const void *, const void *);
    void (*cAddV)(void *, const void *, const void *);  // value-returning overloads
    void (*cSubV)(void *, const void *, const void *);
    void (*cMulV)(void *, const void *, const void *);
    void (*cNeg)(void *, const void *);
    void (*cSquare)(void *, const void *);
    void (*cNegV)(void *, const void *);
    void (*cSquareV)(void *, const void *);
    void (*cCopy)(void *, const void *);
    void (*cSwap)(void *, void *);
    void (*cMul1)(void *, const void *, uint64_t);
    void (*cInv)(void *, const void *);
    void (*cDiv)(void *, const void *, const void *);
    void (*cExp)(void *, const void *, uint8_t *, unsigned);
    void (*cToM)(void *, const void *);
    void (*cFromM)(void *, const void *);
    int (*cEq)(const void *, const void *);
    int (*cIsZero)(const void *);
    void (*cZero)(void *);
    void (*cOne)(void *);
    void (*cNegOne)(void *);
    void (*cSet)(void *, int);
    void (*cSetV)(void *, int);
    void (*cFromUI)(void *, unsigned long);
    void (*cFromString)(void *, const std::string &, uint32_t);
    std::string (*cToString)(const void *, uint32_t);
    void (*cFromString10)(void *, const std::string &);
    std::string (*cToString10)(const void *);
    void (*cToMpz)(mpz_t, const void *);
    void (*cFromMpz)(void *, const mpz_t);
    int (*cToRprBE)(const void *, uint8_t *, int);
    int (*cFromRprBE)(void *, const uint8_t *, int);
    int (*cBytes)();
    // mixed int overloads: op 0 add 1 sub 2 mul ; intFirst
    void (*cInt)(void *, int op, int intFirst, int k, const void *);
    const uint64_t *qLimbs;
};
extern std::vector<const Impl *> &impls();
struct RegImpl { RegImpl(const Impl *i) { impls().push_back(i); } };
