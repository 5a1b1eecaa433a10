// Operations of the shared field, extension, curve and reader interfaces on prepared operands (C05, R01).
#pragma once
#include "mcx.hpp"
#include "impl.hpp"
#include "fq.hpp"
#include "fr.hpp"
#include <thread>
#include <cstring>
#include <cassert>
#include <iostream>
#include <memory>
#include <stdexcept>
#ifdef WITH_CURVES
#include "alt_bn128.hpp"
#include "naf.hpp"
#include "misc.hpp"
#include "splitparstr.hpp"
#include "binfile_utils.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"
#endif
using namespace mcx;
void Fq_toMpz(mpz_t r, PFqElement p);
void Fq_fromMpz(PFqElement p, mpz_t v);
std::vector<const Impl *> &impls() { static std::vector<const Impl *> v; return v; }
typedef std::string Out;
struct Op { std::string name; std::function<void(Out &)> fn; };
static std::vector<Op> ops;
static void put(Out &o, const void *p, size_t n) { o.append((const char *)p, n); }
static void putI(Out &o, long v) { put(o, &v, sizeof v); }

// ---- shared operands, computed by another process (so that nothing is warmed up in this one)
static const int TV = 10;
static const int W = RawFq::N64, WB = W * 8;
struct Tagged { int32_t s; uint32_t type; uint64_t v[W]; };
struct Operands {
    Tagged t[TV];
    RawFq::Element a[3], big;
    RawFr::Element r[2];
    uint8_t scalar[32], be[W > 4 ? WB : 32];
#ifdef WITH_CURVES
    AltBn128::F2Element f2[2];
    AltBn128::F6Element f6[2];
    AltBn128::F12Element f12[2];
    AltBn128::G1Point p[3];
    AltBn128::G1PointAffine pa[3];
    AltBn128::G2Point q[3];
    AltBn128::G2PointAffine qa[3];
    RawFq::Element ca, cb, cgx, cgy, nr;
#endif
};
static Operands *S;
static std::string dec1 = "1234567890123456789012345678901234567890123", dec2 = "-77";
static mpz_t z1, z2;

static Tagged getT(int32_t s, uint32_t type, const uint64_t *v) { Tagged t = {s, type, {0}}; if (v) memcpy(t.v, v, WB); return t; }
static void putT(Out &o, const Tagged &t) { putI(o, t.type); if (t.type & 0x80000000u) put(o, t.v, WB); else putI(o, t.s); }
static void prepare() {
    RawFq F; RawFr R;
    F.fromString(S->a[0], "7891011121314151617181920"); F.fromString(S->a[1], "-5"); F.set(S->a[2], 3); S->big = F.negOne();
    R.fromString(S->r[0], "98765432109876543210"); R.fromString(S->r[1], "-12");
    uint64_t n[W]; F.fromMontgomery(*(RawFq::Element *)n, S->a[0]);
    S->t[0] = getT(5, 0, 0); S->t[1] = getT(-3, 0, 0); S->t[2] = getT(0, 0x80000000u, n); S->t[3] = getT(0, 0xC0000000u, S->a[0].v); S->t[4] = getT(3, 0x40000000u, S->a[2].v);
    S->t[5] = getT(0, 0xC0000000u, S->a[1].v); S->t[6] = getT(0x7fffffff, 0, 0); S->t[7] = getT(0, 0, 0);
    F.fromMontgomery(*(RawFq::Element *)n, S->big); S->t[8] = getT(0, 0x80000000u, n); S->t[9] = getT(-2147483647 - 1, 0, 0);
    for (int i = 0; i < 32; i++) { S->scalar[i] = i < 3 ? 0xB5 + 17 * i : 0; }
    for (int i = 0; i < WB; i++) S->be[i] = i * 7 + 1;
    S->be[0] = 0;
#ifdef WITH_CURVES
    auto &E = AltBn128::Engine::engine;
    E.f2.fromString(S->f2[0], "3,7"); E.f2.fromString(S->f2[1], "-1,12345678901234567890");
    for (int i = 0; i < 2; i++) {
        S->f6[i].x = S->f2[i]; S->f6[i].y = S->f2[1 - i]; E.f2.square(S->f6[i].z, S->f2[i]);
        S->f12[i].x = S->f6[i]; E.f6.square(S->f12[i].y, S->f6[i]);
    }
    E.g1.copy(S->p[0], E.g1.one()); E.g1.dbl(S->p[1], S->p[0]); E.g1.add(S->p[1], S->p[1], S->p[0]); E.g1.copy(S->p[2], E.g1.zero());
    E.g2.copy(S->q[0], E.g2.one()); E.g2.dbl(S->q[1], S->q[0]); E.g2.add(S->q[1], S->q[1], S->q[0]); E.g2.copy(S->q[2], E.g2.zero());
    for (int i = 0; i < 3; i++) { E.g1.copy(S->pa[i], S->p[i]); E.g2.copy(S->qa[i], S->q[i]); }
    F.set(S->ca, 7); F.set(S->cb, 1); F.set(S->cgx, 1); F.set(S->cgy, 3); F.set(S->nr, 5);
#endif
}

// ---- operations
static void fields() {
    const Impl *m = impls()[0];
    struct B { const char *n; Fn2 f; };
    for (B b : {B{"add", m->add}, {"sub", m->sub}, {"mul", m->mul}, {"band", m->band}, {"bor", m->bor}, {"bxor", m->bxor}, {"shl", m->shl}, {"shr", m->shr}, {"eq", m->eq}, {"neq", m->neq},
                {"lt", m->lt}, {"gt", m->gt}, {"leq", m->leq}, {"geq", m->geq}, {"land", m->land}, {"lor", m->lor}, {"idiv", m->idiv}, {"mod", m->mod}, {"div", m->div}, {"pow", m->pow}})
        ops.push_back({std::string("Fq_") + b.n, [b](Out &o) { bool slow = !strcmp(b.n, "pow") || !strcmp(b.n, "div"), nz = !strcmp(b.n, "div") || !strcmp(b.n, "idiv") || !strcmp(b.n, "mod");
            for (int i = 0; i < TV; i++) for (int j = 0; j < TV; j++) { if (slow && (i > 3 || j > 3)) continue; if (nz && j == 7) continue; Tagged r = {}; b.f(&r, &S->t[i], &S->t[j]); putT(o, r); } }});
    struct U { const char *n; Fn1 f; };
    for (U u : {U{"neg", m->neg}, {"square", m->square}, {"bnot", m->bnot}, {"lnot", m->lnot}, {"toNormal", m->toNormal}, {"toLongNormal", m->toLongNormal}, {"toMontgomery", m->toMontgomery}, {"copy", m->copy}, {"inv", m->inv}})
        ops.push_back({std::string("Fq_") + u.n, [u](Out &o) { for (int i = 0; i < TV; i++) { if (i == 7 && !strcmp(u.n, "inv")) continue; Tagged r = {}; u.f(&r, &S->t[i]); putT(o, r); } }});
    ops.push_back({"Fq_copyn", [m](Out &o) { Tagged r[TV]; memset(r, 0, sizeof r); m->copyn(r, S->t, TV); for (auto &x : r) putT(o, x); }});
    ops.push_back({"Fq_isTrue", [m](Out &o) { for (int i = 0; i < TV; i++) putI(o, m->isTrue(&S->t[i]) != 0); }});
    ops.push_back({"Fq_toInt", [m](Out &o) { for (int i : {0, 1, 4, 5, 6, 7, 9}) putI(o, m->toInt(&S->t[i])); }});
    ops.push_back({"Fq_str2element", [m](Out &o) { for (const char *s : {"12", "-9", "123456789012345678901234567890"}) { Tagged r = {}; m->str2element(&r, s); putT(o, r); } }});
    ops.push_back({"Fq_element2str", [m](Out &o) { for (int i = 0; i < TV; i++) { char *s = m->element2str(&S->t[i]); o += s; o += ","; free(s); } }});
    ops.push_back({"Fq_toMpz", [](Out &o) { for (int i = 0; i < TV; i++) { mpz_t r; mpz_init(r); Fq_toMpz(r, (FqElement *)&S->t[i]); char b[200]; mpz_get_str(b, 16, r); o += b; mpz_clear(r); } }});
    ops.push_back({"Fq_fromMpz", [](Out &o) { Tagged r = {}; Fq_fromMpz((FqElement *)&r, z1); putT(o, r); r = Tagged(); Fq_fromMpz((FqElement *)&r, z2); putT(o, r); }});
    struct R2 { const char *n; Fn2 f; };
    for (R2 b : {R2{"rawAdd", m->rAdd}, {"rawSub", m->rSub}, {"rawMMul", m->rMul}}) ops.push_back({std::string("Fq_") + b.n, [b](Out &o) { RawFq::Element r; for (auto &x : S->a) for (auto &y : S->a) { b.f(&r, &x, &y); put(o, &r, WB); } b.f(&r, &S->big, &S->big); put(o, &r, WB); }});
    for (U b : {U{"rawNeg", m->rNeg}, {"rawMSquare", m->rSquare}, {"rawCopy", m->rCopy}, {"rawToMontgomery", m->rToM}, {"rawFromMontgomery", m->rFromM}}) ops.push_back({std::string("Fq_") + b.n, [b](Out &o) { RawFq::Element r; for (auto &x : S->a) { b.f(&r, &x); put(o, &r, WB); } }});
    ops.push_back({"Fq_rawShlShr", [m](Out &o) { RawFq::Element r; for (unsigned k : {1u, 33u, 64u * W - 5}) { m->rShl(&r, &S->a[0], k); put(o, &r, WB); m->rShr(&r, &S->a[0], k); put(o, &r, WB); } }});
    ops.push_back({"Fq_rawMMul1", [m](Out &o) { RawFq::Element r; m->rMul1(&r, &S->a[0], 77); put(o, &r, WB); }});
    ops.push_back({"Fq_rawIsEq/IsZero", [m](Out &o) { putI(o, m->rIsEq(&S->a[0], &S->a[1]) != 0); putI(o, m->rIsZero(&S->a[0]) != 0); }});
    // the class
#define C(nm, code) ops.push_back({"RawFq::" nm, [](Out &o) { RawFq &F = RawFq::field; RawFq::Element r; auto &a = S->a; (void)F; (void)a; (void)r; code }});
#define PR put(o, &r, WB);
    C("add", F.add(r, a[0], a[1]); PR r = F.add(a[1], a[2]); PR r = F.add(-4, a[0]); PR r = F.add(a[0], 9); PR)
    C("sub", F.sub(r, a[0], a[1]); PR r = F.sub(a[1], a[2]); PR r = F.sub(-4, a[0]); PR r = F.sub(a[0], 9); PR)
    C("mul", F.mul(r, a[0], a[1]); PR r = F.mul(a[1], a[2]); PR r = F.mul(-4, a[0]); PR r = F.mul(a[0], 9); PR F.mul1(r, a[0], 5); PR)
    C("neg", F.neg(r, a[0]); PR r = F.neg(a[1]); PR)
    C("square", F.square(r, a[0]); PR r = F.square(a[1]); PR)
    C("copy", F.copy(r, a[0]); PR RawFq::Element q = a[2]; F.swap(r, q); PR)
    C("constants", put(o, &F.zero(), WB); put(o, &F.one(), WB); put(o, &F.negOne(), WB); putI(o, F.bytes());)
    C("set", F.set(r, -17); PR r = F.set(23); PR F.fromUI(r, 99); PR)
    C("inv", F.inv(r, a[0]); PR)
    C("div", F.div(r, a[0], a[1]); PR)
    C("exp", F.exp(r, a[0], S->scalar, 4); PR F.exp(r, a[1], S->scalar + 8, 2); PR)
    C("montgomery", F.toMontgomery(r, a[0]); PR F.fromMontgomery(r, a[0]); PR)
    C("compare", putI(o, F.eq(a[0], a[1]) != 0); putI(o, F.isZero(a[0]) != 0);)
    C("fromString", F.fromString(r, dec1); PR F.fromString(r, dec2); PR F.fromString(r, "ff", 16); PR)
    C("toString", o += F.toString(a[0]); o += F.toString(a[1], 16);)
    C("toMpz", mpz_t z; mpz_init(z); F.toMpz(z, a[0]); char b[200]; mpz_get_str(b, 16, z); o += b; mpz_clear(z);)
    C("fromMpz", F.fromMpz(r, z1); PR F.fromMpz(r, z2); PR)
    C("toRprBE", uint8_t b[WB + 8] = {}; putI(o, F.toRprBE(a[0], b, WB + 8)); put(o, b, WB + 8);)
    C("fromRprBE", putI(o, F.fromRprBE(r, S->be, WB)); PR)
    C("construction", { RawFq G; G.fromString(r, "3"); } PR)
    ops.push_back({"RawFr", [](Out &o) { RawFr &R = RawFr::field; RawFr::Element r; R.mul(r, S->r[0], S->r[1]); put(o, &r, 32); R.inv(r, S->r[0]); put(o, &r, 32); o += R.toString(S->r[1]); R.fromString(r, dec1); put(o, &r, 32); R.exp(r, S->r[0], S->scalar, 4); put(o, &r, 32); }});
}

#ifdef WITH_CURVES
typedef AltBn128::Engine En;
static F2Field<RawFq> *otherF2;
static Curve<RawFq> *otherCurve;
template<class T> static void putV(Out &o, const T &v) { put(o, &v, sizeof v); }
template<class F, class E> static void ext(const std::string &n, F &f, E *x) {
    F *p = &f;
#define X(nm, code) ops.push_back({n + "." nm, [p, x](Out &o) { F &f = *p; E r; memset((void *)&r, 0, sizeof r); (void)f; code }});
    X("add", f.add(r, x[0], x[1]); putV(o, r);)
    X("sub", f.sub(r, x[0], x[1]); putV(o, r);)
    X("neg", f.neg(r, x[0]); putV(o, r);)
    X("mul", f.mul(r, x[0], x[1]); putV(o, r);)
    X("square", f.square(r, x[0]); putV(o, r);)
    X("inv", f.inv(r, x[0]); putV(o, r);)
    X("div", f.div(r, x[0], x[1]); putV(o, r);)
    X("compare", putI(o, f.eq(x[0], x[1])); putI(o, f.isZero(x[0])); putI(o, f.isOne(x[1])); f.copy(r, x[0]); putV(o, r); putV(o, f.zero()); putV(o, f.one()); putV(o, f.negOne());)
    X("toString", o += f.toString(x[0]); o += f.toString(x[1], 16);)
}
template<class C> static void curve(const std::string &n, C &c0, typename C::Point *P, typename C::PointAffine *A) {
    typedef typename C::Point Pt; typedef typename C::PointAffine At;
    C *cp = &c0;
#define Y(nm, code) ops.push_back({n + "." nm, [cp, P, A](Out &o) { C &c = *cp; Pt r; At s; memset((void *)&r, 0, sizeof r); memset((void *)&s, 0, sizeof s); (void)c; code }});
#define RS putV(o, r);
#define SS putV(o, s);
    Y("add", for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c.add(r, P[i], P[j]); RS c.add(s, P[i], P[j]); SS })
    Y("addMixed", for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c.add(r, P[i], A[j]); RS c.add(r, A[i], P[j]); RS c.add(s, P[i], A[j]); SS c.add(s, A[i], P[j]); SS })
    Y("addAffine", for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c.add(r, A[i], A[j]); RS c.add(s, A[i], A[j]); SS })
    Y("sub", for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c.sub(r, P[i], P[j]); RS c.sub(r, P[i], A[j]); RS c.sub(r, A[i], A[j]); RS c.sub(r, A[i], P[j]); RS })
    Y("subAffine", for (int i = 0; i < 3; i++) { c.sub(s, P[i], P[1]); SS c.sub(s, P[i], A[1]); SS c.sub(s, A[i], A[1]); SS c.sub(s, A[i], P[1]); SS })
    Y("dbl", for (int i = 0; i < 3; i++) { c.dbl(r, P[i]); RS c.dbl(r, A[i]); RS c.dbl(s, P[i]); SS c.dbl(s, A[i]); SS })
    Y("neg", for (int i = 0; i < 3; i++) { c.neg(r, P[i]); RS c.neg(s, A[i]); SS c.neg(r, A[i]); RS c.neg(s, P[i]); SS })
    Y("eq", for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { putI(o, c.eq(P[i], P[j])); putI(o, c.eq(P[i], A[j])); putI(o, c.eq(A[i], A[j])); putI(o, c.eq(A[i], P[j])); })
    Y("isZero", for (int i = 0; i < 3; i++) { putI(o, c.isZero(P[i])); putI(o, c.isZero(A[i])); })
    Y("copy", for (int i = 0; i < 3; i++) { c.copy(r, P[i]); RS c.copy(r, A[i]); RS c.copy(s, P[i]); SS c.copy(s, A[i]); SS })
    Y("toString", for (int i = 0; i < 3; i++) o += c.toString(P[i]); o += c.toString(P[1], 16);)
    Y("constants", putV(o, c.a()); putV(o, c.b()); putV(o, c.one()); putV(o, c.oneAffine()); putV(o, c.zero()); putV(o, c.zeroAffine());)
    Y("mulByScalar", c.mulByScalar(r, P[1], S->scalar, 2); RS c.mulByScalar(r, A[1], S->scalar, 3); RS)
}
static std::string wtns, zkey, wtnsPath;
static void le(std::string &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b += (char)(v >> (8 * i)); }
static void sec(std::string &b, uint32_t id, const std::string &d) { le(b, id, 4); le(b, d.size(), 8); b += d; }
static void towers() {
    En &E = En::engine;
    mcrt::once([] { otherF2 = new F2Field<RawFq>("5"); otherCurve = new Curve<RawFq>(RawFq::field, "7", "1", "1", "3"); });
    ext("F2", E.f2, S->f2); ext("F2(nr=5)", *otherF2, S->f2); ext("F6", E.f6, S->f6); ext("F12", E.f12, S->f12);
    ops.push_back({"F2.more", [](Out &o) { En &E = En::engine; AltBn128::F2Element r; for (auto *f : {&E.f2, otherF2}) { f->conjugate(r, S->f2[0]); putV(o, r); f->mulScalar(r, S->f2[0], S->a[0]); putV(o, r); f->mulXi(r, S->f2[1]); putV(o, r); f->dbl(r, S->f2[0]); putV(o, r); } }});
    ops.push_back({"F2.fromString", [](Out &o) { En &E = En::engine; AltBn128::F2Element r; E.f2.fromString(r, "(12,-3)"); putV(o, r); otherF2->fromString(r, "4,5"); putV(o, r); }});
    ops.push_back({"F6.more", [](Out &o) { auto &f = En::engine.f6; AltBn128::F6Element r; f.mulScalar(r, S->f6[0], S->f2[0]); putV(o, r); f.mulTau(r, S->f6[0]); putV(o, r); f.mulGFP(r, S->f6[0], S->a[0]); putV(o, r); f.dbl(r, S->f6[1]); putV(o, r); f.Frobenius(r, S->f6[0]); putV(o, r); f.FrobeniusP2(r, S->f6[1]); putV(o, r); }});
    ops.push_back({"F12.more", [](Out &o) { auto &f = En::engine.f12; AltBn128::F12Element r; f.conjugate(r, S->f12[0]); putV(o, r); f.mulScalar(r, S->f12[0], S->f6[0]); putV(o, r); f.Frobenius(r, S->f12[0]); putV(o, r); f.FrobeniusP2(r, S->f12[1]); putV(o, r); f.exp(r, S->f12[0], S->scalar, 2); putV(o, r); }});
    curve("G1", E.g1, S->p, S->pa); curve("G2", E.g2, S->q, S->qa); curve("curve(a=7)", *otherCurve, S->p, S->pa);
    ops.push_back({"curve construction", [](Out &o) { Curve<RawFq> c(RawFq::field, "7", "1", "1", "3"); putV(o, c.one()); Curve<RawFq> d(RawFq::field, S->ca, S->cb, S->cgx, S->cgy); putV(o, d.oneAffine()); }});
    ops.push_back({"F2 construction", [](Out &o) { F2Field<RawFq> f("5"); putV(o, f.one()); F2Field<RawFq> g(S->nr); putV(o, g.negOne()); }});
    ops.push_back({"engine construction", [](Out &o) { std::unique_ptr<En> e(new En()); putV(o, e->g2.one()); }});
    ops.push_back({"buildNaf", [](Out &o) { uint8_t n[100] = {}; buildNaf(n, S->scalar, 8); put(o, n, 66); }});
    ops.push_back({"log2", [](Out &o) { for (uint32_t v : {1u, 77u, 0x80000000u}) putI(o, log2(v)); }});
    ops.push_back({"splitParStr", [](Out &o) { for (const char *s : {"((1,2),3)", "(a, b ,(c,d))"}) for (auto &x : splitParStr(s)) { o += x; o += ";"; } }});
    // every thread has its own reader
    std::string h; le(h, 32, 4); for (int i = 0; i < 32; i++) h += (char)(i + 1); le(h, 2, 4);
    wtns = "wtns"; le(wtns, 2, 4); le(wtns, 2, 4); sec(wtns, 1, h); sec(wtns, 2, std::string(64, 'w'));
    std::string g; le(g, 32, 4); g += std::string(32, 5); le(g, 32, 4); g += std::string(32, 7); le(g, 3, 4); le(g, 1, 4); le(g, 4, 4); for (int i = 0; i < 18; i++) g += std::string(32, 'a' + i);
    std::string one; le(one, 1, 4); std::string co; le(co, 0, 4);
    zkey = "zkey"; le(zkey, 1, 4); le(zkey, 3, 4); sec(zkey, 1, one); sec(zkey, 2, g); sec(zkey, 4, co);
    char t[] = "/tmp/shareXXXXXX"; int fd = mkstemp(t); if (fd < 0 || write(fd, wtns.data(), wtns.size()) != (ssize_t)wtns.size()) abort();
    unlink(t); wtnsPath = "/proc/self/fd/" + std::to_string(fd);
    ops.push_back({"witness file", [](Out &o) {
        std::unique_ptr<BinFileUtils::BinFile> f(new BinFileUtils::BinFile((void *)wtns.data(), wtns.size(), "wtns", 2)); auto h = WtnsUtils::loadHeader(f.get()); putI(o, h->n8); putI(o, h->nVars); char b[200]; mpz_get_str(b, 16, h->prime); o += b;
        f->startReadSection(2); putI(o, f->readU32LE()); putI(o, f->readU64LE()); put(o, f->read(52), 52); f->endReadSection(); put(o, f->getSectionData(2), 64); putI(o, f->getSectionSize(2)); }});
    ops.push_back({"witness file on disk", [](Out &o) { auto f = BinFileUtils::openExisting(wtnsPath, "wtns", 2); auto h = WtnsUtils::loadHeader(f.get()); putI(o, h->nVars); put(o, f->getSectionData(2), 64); }});
    ops.push_back({"refused file", [](Out &o) { try { BinFileUtils::BinFile f((void *)wtns.data(), wtns.size(), "none", 2); o += "accepted"; } catch (std::exception *e) { o += e->what(); delete e; } catch (std::exception &e) { o += e.what(); } }});
    ops.push_back({"proving key", [](Out &o) { std::unique_ptr<BinFileUtils::BinFile> f(new BinFileUtils::BinFile((void *)zkey.data(), zkey.size(), "zkey", 1)); auto h = ZKeyUtils::loadHeader(f.get()); putI(o, h->nVars); putI(o, h->domainSize); put(o, h->vk_beta2, 128); char b[200]; mpz_get_str(b, 16, h->qPrime); o += b; }});
}
#else
static void towers() {}
#endif

static bool operands() {
    S = (Operands *)mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) { mcrt::once(prepare); _exit(0); }
    int st; waitpid(p, &st, 0); if (st) return false;
    mpz_init_set_str(z1, W < 4 ? "1234567890abcdef" : "1234567890abcdef1234567890abcdef1234567890abcdef", 16); mpz_init_set_si(z2, 42);
    fields(); towers();
    return true;
}
