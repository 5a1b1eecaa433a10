// W01 (wtns), Z01 (zkey): header readers against the layout of the formats.
#include "binkit.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"
#include <gmpxx.h>
#include "thread_utils.hpp"

static void app(Bytes &b, const Bytes &d) { b.insert(b.end(), d.begin(), d.end()); }
static std::vector<Bytes> primes(size_t w, bool th) {
    std::vector<Bytes> v = {fill(w, 3), Bytes(w, 0xff), Bytes(w, 0)};
    for (size_t i = 0; i < w; i += (th || w < 12 ? 1 : 7)) { Bytes b(w, 0); b[i] = 0x80 | i; v.push_back(b); }
    return v;
}
static mpz_class num(const Bytes &b) { mpz_class n; mpz_import(n.get_mpz_t(), b.size(), -1, 1, 0, 0, b.data()); return n; }
static std::string cls(const std::string &s) { return s; }

static const std::vector<uint32_t> U = [] {
    std::vector<uint32_t> v = {0, 3, 255, 65535, 0x01020304, 0x7fffffff, 0xfffffffeu, 0xffffffffu};
    for (int b = 0; b < 32; b++) v.push_back(1u << b);
    return v;
}();

// ---- witness
static void wtns(Ctx &c, size_t w) {
    auto make = [&](const Bytes &p, uint32_t nv, int delta, int shape) {
        Bytes h; Img::u32(h, w); app(h, p); Img::u32(h, nv);
        if (delta > 0) h.resize(h.size() + delta, 0x5a); else h.resize(std::max<long>(0, (long)h.size() + delta));
        Img im{"wtns", 2, {}};
        Sec a{1, h}, b{2, fill(w * 2, 8)}, x{3, fill(5, 9)};
        if (shape == 0) im.secs = {a, b};
        else if (shape == 1) im.secs = {b, a};
        else if (shape == 2) im.secs = {x, a, b, Sec{1, fill(3, 1)}};
        else im.secs = {b, x};
        return im;
    };
    auto ps = primes(w, c.thorough);
    for (size_t i = 0; i < ps.size(); i++) for (auto nv : U) for (int shape = 0; shape < 3; shape++) for (bool file : {false, true}) {
        if (file && (i > 2 || nv > 3)) continue;
        Img im = make(ps[i], nv, 0, shape); Bytes b = im.bytes();
        c.cur("width %zu, prime %zu, %u variables, layout %d", w, i, nv, shape); c.eval(); c.state(); if (w && i != 2) c.nontrivial();
        std::unique_ptr<BF> f; std::unique_ptr<WtnsUtils::Header> h;
        std::string e = attempt([&] { f = openAs(file, b, "wtns", 2); h = WtnsUtils::loadHeader(f.get()); });
        if (!e.empty()) { c.viol("wtns:refused", "width %zu, %u variables: %s", w, nv, e.c_str()); Guard::get().releaseAll(); f.release(); continue; }
        if (h->n8 != w) c.viol("wtns:width", "width %zu read as %u", w, h->n8);
        if (mpz_cmp(h->prime, num(ps[i]).get_mpz_t())) c.viol("wtns:prime", "width %zu: prime %s read as %s", w, num(ps[i]).get_str(16).c_str(), mpz_class(h->prime).get_str(16).c_str());
        if (h->nVars != nv) c.viol("wtns:variables", "%u variables read as %u", nv, h->nVars);
        // the file is ready for its other sections
        e = attempt([&] { f->startReadSection(2); void *p = f->read(2 * w); f->endReadSection(); if (w && memcmp(p, fill(w * 2, 8).data(), 2 * w)) throw std::runtime_error("other bytes"); });
        c.trans(); c.eval();
        if (!e.empty()) c.viol("wtns:next-section", "width %zu: %s", w, e.c_str());
        h.reset(); f.reset();
    }
    for (int d = -(int)(w + 8); d <= 12; d++) {
        if (!d) continue;
        for (int shape = 0; shape < 3; shape++) {
            Img im = make(ps[0], 2, d, shape); Bytes b = im.bytes(); std::unique_ptr<BF> f;
            c.cur("width %zu, header %+d bytes", w, d); c.eval(); c.state();
            std::string e = attempt([&] { f = openAs(false, b, "wtns", 2); WtnsUtils::loadHeader(f.get()); });
            if (e.empty()) c.viol("wtns:length", "width %zu: a header of %+d bytes is accepted", w, d);
            f.reset(); Guard::get().releaseAll();
        }
    }
    // the width field disagrees with the header's length
    for (int d = -3; d <= 3; d++) if (d && (int)w + d >= 0) {
        Img im = make(ps[0], 2, 0, 0); im.secs[0].data[0] = w + d; Bytes b = im.bytes(); std::unique_ptr<BF> f; c.eval();
        if (attempt([&] { f = openAs(false, b, "wtns", 2); WtnsUtils::loadHeader(f.get()); }).empty()) c.viol("wtns:length", "width field %zu%+d is accepted", w, d);
        f.reset(); Guard::get().releaseAll();
    }
    Img im = make(ps[0], 1, 0, 3); Bytes b = im.bytes(); std::unique_ptr<BF> f; c.eval();
    if (attempt([&] { f = openAs(false, b, "wtns", 2); WtnsUtils::loadHeader(f.get()); }).empty()) c.viol("wtns:no-header", "a file without header section is accepted");
    f.reset(); Guard::get().releaseAll();
    if (w == 32) c.sample("width 32: %zu primes x %zu counts x 3 layouts, header lengths -40..+12", ps.size(), U.size());
}

// ---- proving key
struct Z { size_t q, r; Bytes pq, pr; uint32_t nv, np, ds, nc, protocol = 1; int delta = 0, shape = 0, without = 0, first = 4;
    Img img() const {
        Bytes a; Img::u32(a, protocol); a.resize(first, 0);
        Bytes h; Img::u32(h, q); app(h, pq); Img::u32(h, r); app(h, pr); Img::u32(h, nv); Img::u32(h, np); Img::u32(h, ds);
        size_t k[] = {2, 2, 4, 4, 2, 4};
        for (int i = 0; i < 6; i++) app(h, fill(k[i] * q, 20 + i));
        if (delta > 0) h.resize(h.size() + delta, 0x33); else h.resize(std::max<long>(0, (long)h.size() + delta));
        Bytes co; Img::u32(co, nc); app(co, fill((size_t)nc * (12 + r), 31));
        std::vector<Sec> s = {{1, a}, {2, h}, {3, fill(7, 2)}, {4, co}, {5, fill(2, 5)}};
        if (without) s.erase(s.begin() + without - 1);
        if (shape == 1) std::reverse(s.begin(), s.end());
        if (shape == 2) { s.insert(s.begin(), {9, fill(11, 6)}); s.push_back({2, fill(1, 1)}); }
        return {"zkey", 1, s};
    }
    std::string str() const { char t[200]; snprintf(t, sizeof t, "widths %zu/%zu, %u variables, %u public, domain %u, %u coefficients, layout %d", q, r, nv, np, ds, nc, shape); return t; }
};
static bool load(Ctx &c, const Z &z, bool file, bool want) {
    Bytes b = z.img().bytes(); c.cur("%s header %+d protocol %u without %d", z.str().c_str(), z.delta, z.protocol, z.without);
    std::unique_ptr<BF> f; std::unique_ptr<ZKeyUtils::Header> h;
    std::string e = attempt([&] { f = openAs(file, b, "zkey", 1); h = ZKeyUtils::loadHeader(f.get()); });
    c.eval(); c.state();
    if (!want) { bool r = e.empty(); h.reset(); f.reset(); Guard::get().releaseAll(); return r; }
    if (!e.empty()) { c.viol("zkey:refused", "%s: %s", z.str().c_str(), e.c_str()); h.reset(); f.reset(); Guard::get().releaseAll(); return false; }
    if (z.q && z.r && z.nc) c.nontrivial();
    auto is = [&](const char *k, uint64_t got, uint64_t w) { c.eval(); if (got != w) c.viol(std::string("zkey:") + k, "%s: read as %llu", z.str().c_str(), (unsigned long long)got); };
    is("q-width", h->n8q, z.q); is("r-width", h->n8r, z.r); is("variables", h->nVars, z.nv); is("public", h->nPublic, z.np); is("domain", h->domainSize, z.ds); is("coefficients", h->nCoefs, z.nc);
    if (mpz_cmp(h->qPrime, num(z.pq).get_mpz_t())) c.viol("zkey:q", "%s: q %s read as %s", z.str().c_str(), num(z.pq).get_str(16).c_str(), mpz_class(h->qPrime).get_str(16).c_str());
    if (mpz_cmp(h->rPrime, num(z.pr).get_mpz_t())) c.viol("zkey:r", "%s: r %s read as %s", z.str().c_str(), num(z.pr).get_str(16).c_str(), mpz_class(h->rPrime).get_str(16).c_str());
    void *p[] = {h->vk_alpha1, h->vk_beta1, h->vk_beta2, h->vk_gamma2, h->vk_delta1, h->vk_delta2}; size_t k[] = {2, 2, 4, 4, 2, 4};
    for (int i = 0; i < 6; i++) { c.eval(); size_t n = k[i] * z.q; if (n && (!Guard::get().inside(p[i], n) || memcmp(p[i], fill(n, 20 + i).data(), n))) c.viol("zkey:point", "%s: verification key point %d is elsewhere", z.str().c_str(), i); }
    c.trans(); c.eval();
    e = attempt([&] { f->startReadSection(4); uint32_t n = f->readU32LE(); if (n != z.nc) throw std::runtime_error("other bytes"); f->endReadSection(false); f->startReadSection(1); f->readU32LE(); f->endReadSection(); });
    if (!e.empty()) c.viol("zkey:next-section", "%s: %s", z.str().c_str(), e.c_str());
    h.reset(); f.reset();
    return true;
}
static void zkey(Ctx &c, size_t q) {
    std::vector<size_t> rs; for (size_t r = 0; r <= 48; r++) rs.push_back(r);
    for (size_t r : {64, 96, 255, 256, 1000}) rs.push_back(r);
    for (size_t r : rs) {
        Z z{q, r, fill(q, 1), fill(r, 2), 7, 2, 8, 3};
        for (int s = 0; s < 3; s++) { z.shape = s; load(c, z, s == 1, true); }
        z.shape = 0;
        for (uint32_t n = 0; n <= (c.thorough ? 80u : 20u); n++) { z.nc = n; load(c, z, false, true); }
        if (r % 8 == 0 || r < 4) {
            for (auto a : U) { Z y = z; y.nc = 2; y.nv = a; load(c, y, false, true); y = z; y.np = a; load(c, y, false, true); y = z; y.ds = a; load(c, y, false, true); }
            auto pq = primes(q, c.thorough), pr = primes(r, c.thorough);
            for (auto &x : pq) { Z y = z; y.pq = x; y.nc = 1; load(c, y, false, true); }
            for (auto &x : pr) { Z y = z; y.pr = x; y.nc = 1; load(c, y, false, true); }
            z.nc = 1;
            for (int d = -40; d <= 20; d++) if (d) { Z y = z; y.delta = d; if (load(c, y, false, false)) c.viol("zkey:length", "%s: a header of %+d bytes is accepted", z.str().c_str(), d); }
            for (auto p : U) if (p != 1) { Z y = z; y.protocol = p; if (load(c, y, false, false)) c.viol("zkey:protocol", "protocol %u is accepted", p); }
            for (int b = 0; b < 32; b++) for (int b2 = r == 32 ? 0 : b; b2 <= b; b2++) { Z y = z; y.protocol = 1 ^ ((1u << b) | (1u << b2)); if (load(c, y, false, false)) c.viol("zkey:protocol", "protocol %u is accepted", y.protocol); }
            for (int l = 0; l <= 9; l++) if (l != 4) { Z y = z; y.first = l; if (load(c, y, false, false)) c.viol("zkey:protocol-length", "a protocol section of %d bytes is accepted", l); }
            for (int w : {1, 2, 4}) { Z y = z; y.without = w; if (load(c, y, false, false)) c.viol("zkey:missing-section", "a file without section %d is accepted", w); }
        }
    }
    if (q == 32) c.sample("widths 32/0..96: counts, primes, header lengths -40..+20, protocols, layouts");
}

// ---- proving keys whose widths, sections and distances are beyond 31 and 32 bits (address space with a few bytes in it)
// a number of that many bytes is imported without its leading zeros
extern "C" void __real___gmpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
extern "C" void __wrap___gmpz_import(mpz_ptr r, size_t n, int order, size_t size, int endian, size_t nails, const void *p) {
    static const char zero[4096] = {};
    if (order == -1 && size == 1 && n > 4096) {
        // (where the block is a copy of the sparse image, what is zero is known)
        auto &sp = ThreadUtils::sparse();
        for (auto &b : Guard::get().big) if (b.len == sp.size && (char *)p >= b.user && (char *)p + n <= b.user + b.len && !memcmp(b.user, sp.at, 12)) {
            uint64_t from = (char *)p - b.user, last = from;
            for (auto &d : sp.data) if (d.first < from + n && d.first + d.second > last) last = d.first + d.second;
            n = std::min<uint64_t>(n, last - from);
        }
        while (n > 4096 && !memcmp((const char *)p + n - 4096, zero, 4096)) n -= 4096;
    }
    __real___gmpz_import(r, n, order, size, endian, nails, p);
}
static void huge(Ctx &c, uint64_t q, uint64_t r, uint64_t nc, uint64_t cut, int layout) {
    struct Free { ~Free() { Guard::get().allowBig = false; } } undo;
    Guard::get().allowBig = true;
    char ctx[160]; snprintf(ctx, sizeof ctx, "widths %llu/%llu, %llu coefficients, layout %d, header shorter by %llu", (unsigned long long)q, (unsigned long long)r, (unsigned long long)nc, layout, (unsigned long long)cut);
    c.cur("%s", ctx); c.state(); c.eval(); c.nontrivial();
    std::map<uint64_t, Bytes> img; uint64_t at = 0;
    auto put = [&](const Bytes &b) { img[at] = b; at += b.size(); };
    auto u32 = [](uint32_t v) { Bytes b; Img::u32(b, v); return b; };
    auto dir = [&](uint32_t id, uint64_t n) { Bytes b; Img::u32(b, id); Img::u64(b, n); put(b); };
    auto mark = [](int i, bool end) { return Bytes{(uint8_t)(0x41 + i), (uint8_t)(end ? 0x99 : 0x11), 0x77}; };
    const Bytes pq = {9, 8, 7, 6, 5}, pr = {1, 2, 3, 4, 5, 6, 7};
    const uint64_t k[] = {2, 2, 4, 4, 2, 4}, head = 4 + q + 4 + r + 12 + 18 * q, coefs = 4 + nc * (12 + r);
    uint64_t pt[6];
    auto header = [&] {
        dir(2, head - cut); uint64_t s = at;
        put(u32(q)); Bytes a = pq; a.resize(std::min<uint64_t>(q, pq.size())); put(a); at = s + 4 + q;
        put(u32(r)); Bytes b = pr; b.resize(std::min<uint64_t>(r, pr.size())); put(b); at = s + 8 + q + r;
        put(u32(7)); put(u32(2)); put(u32(8));
        for (int i = 0; i < 6; i++) { pt[i] = at; put(mark(i, false)); at = pt[i] + k[i] * q - 3; put(mark(i, true)); }
        at = s + head - cut;
    };
    auto coef = [&] { dir(4, coefs); uint64_t s = at; put(u32(nc)); at = s + coefs; };
    { Bytes h = {'z', 'k', 'e', 'y'}; Img::u32(h, 1); Img::u32(h, 3 + (layout == 2)); put(h); }
    if (layout == 1) coef();
    if (layout == 2) { dir(9, (1ull << 32) + 4); at += (1ull << 32) + 4; }
    dir(1, 4); put(u32(1));
    header();
    if (layout != 1) coef();
    uint64_t size = at;
    char *src = (char *)mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void *)src == MAP_FAILED) { c.sample("no address space for %s", ctx); return; }
    auto &sp = ThreadUtils::sparse(); sp = {src, size, {}};
    for (auto &m : img) if (m.first + m.second.size() <= size) { memcpy(src + m.first, m.second.data(), m.second.size()); sp.data.push_back({m.first, m.second.size()}); }
    std::unique_ptr<BF> f; std::unique_ptr<ZKeyUtils::Header> h;
    std::string e = attempt([&] { f.reset(new BF(src, size, "zkey", 1)); h = ZKeyUtils::loadHeader(f.get()); });
    auto is = [&](const char *key, uint64_t got, uint64_t w) { c.eval(); if (got != w) c.viol(std::string("zkey:") + key, "%s: read as %llu", ctx, (unsigned long long)got); };
    if (cut) { if (e.empty()) c.viol("zkey:length", "%s is accepted", ctx); }
    else if (!e.empty()) c.viol("zkey:refused", "%s: %s", ctx, e.c_str());
    else {
        is("q-width", h->n8q, q); is("r-width", h->n8r, r); is("variables", h->nVars, 7); is("public", h->nPublic, 2); is("domain", h->domainSize, 8); is("coefficients", h->nCoefs, nc);
        if (mpz_cmp(h->qPrime, num(Bytes(pq.begin(), pq.begin() + std::min<uint64_t>(q, 5))).get_mpz_t()) || mpz_cmp(h->rPrime, num(Bytes(pr.begin(), pr.begin() + std::min<uint64_t>(r, 7))).get_mpz_t())) c.viol("zkey:primes", "%s: other primes", ctx);
        void *p[] = {h->vk_alpha1, h->vk_beta1, h->vk_beta2, h->vk_gamma2, h->vk_delta1, h->vk_delta2};
        for (int i = 0; i < 6; i++) { c.eval(); uint64_t n = k[i] * q; if (!Guard::get().inside(p[i], n) || memcmp(p[i], mark(i, false).data(), 3) || memcmp((char *)p[i] + n - 3, mark(i, true).data(), 3)) c.viol("zkey:point", "%s: verification key point %d is elsewhere", ctx, i); }
    }
    h.reset(); f.reset(); sp = {};
    munmap(src, size);
}

static void hugeWtns(Ctx &c, uint64_t w, long delta, bool after) {
    struct Free { ~Free() { Guard::get().allowBig = false; } } undo;
    Guard::get().allowBig = true;
    char ctx[120]; snprintf(ctx, sizeof ctx, "width %llu, header %+ld bytes, layout %d", (unsigned long long)w, delta, after);
    c.cur("%s", ctx); c.state(); c.eval(); c.nontrivial();
    std::map<uint64_t, Bytes> img; uint64_t at = 0;
    auto put = [&](const Bytes &b) { img[at] = b; at += b.size(); };
    auto u32 = [](uint32_t v) { Bytes b; Img::u32(b, v); return b; };
    auto dir = [&](uint32_t id, uint64_t n) { Bytes b; Img::u32(b, id); Img::u64(b, n); put(b); };
    const Bytes p = {9, 8, 7, 6, 5}, body = {3, 1, 4, 1, 5};
    { Bytes h = {'w', 't', 'n', 's'}; Img::u32(h, 2); Img::u32(h, 2); put(h); }
    if (after) { dir(2, body.size()); put(body); }
    dir(1, 8 + w + delta); uint64_t s = at;
    put(u32(w)); put(p); at = s + 4 + w; put(u32(77)); at = s + 8 + w + delta;
    if (!after) { dir(2, body.size()); put(body); }
    uint64_t size = at;
    char *src = (char *)mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void *)src == MAP_FAILED) { c.sample("no address space for %s", ctx); return; }
    auto &sp = ThreadUtils::sparse(); sp = {src, size, {}};
    for (auto &m : img) if (m.first + m.second.size() <= size) { memcpy(src + m.first, m.second.data(), m.second.size()); sp.data.push_back({m.first, m.second.size()}); }
    std::unique_ptr<BF> f; std::unique_ptr<WtnsUtils::Header> h;
    std::string e = attempt([&] { f.reset(new BF(src, size, "wtns", 2)); h = WtnsUtils::loadHeader(f.get()); });
    if (delta) { if (e.empty()) c.viol("wtns:length", "%s is accepted", ctx); }
    else if (!e.empty()) c.viol("wtns:refused", "%s: %s", ctx, e.c_str());
    else {
        c.eval(3);
        if (h->n8 != w) c.viol("wtns:width", "%s read as %u", ctx, h->n8);
        if (h->nVars != 77) c.viol("wtns:variables", "%s: 77 variables read as %u", ctx, h->nVars);
        if (mpz_cmp(h->prime, num(p).get_mpz_t())) c.viol("wtns:prime", "%s: other prime", ctx);
        e = attempt([&] { f->startReadSection(2); void *q = f->read(5); f->endReadSection(); if (memcmp(q, body.data(), 5)) throw std::runtime_error("other bytes"); });
        if (!e.empty()) c.viol("wtns:next-section", "%s: %s", ctx, e.c_str());
    }
    h.reset(); f.reset(); sp = {};
    munmap(src, size);
}

int main(int argc, char **argv) {
    std::string g = argc > 1 ? argv[1] : "";
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    if (g == "wtns") { std::vector<size_t> ws; for (size_t w = 0; w <= (th ? 400u : 140u); w++) ws.push_back(w); for (size_t w : {255, 256, 257, 300, 1000, 4096}) ws.push_back(w); for (size_t w : ws) jobs.push_back({"width-" + std::to_string(w), [=](Ctx &c) { wtns(c, w); }});
        const uint64_t G = 1ull << 30;
        for (uint64_t w : std::vector<uint64_t>{1ull << 16, (1ull << 24) + 1, 1ull << 29, 2 * G - 1, 2 * G, 2 * G + 7, 4 * G - 8, 4 * G - 4, 4 * G - 1}) jobs.push_back({"huge-" + std::to_string(w), [=](Ctx &c) { for (bool a : {false, true}) for (long d : {0l, -4l, -1l, 1l, 4l, 1l << 20}) hugeWtns(c, w, d, a); if (w == 2 * G) c.sample("sparse witness files with widths up to 2^32-1"); }}); }
    else {
        std::vector<size_t> q; for (size_t k = 0; k <= 48; k++) q.push_back(k);
        for (size_t k : {64, 65, 66, 96, 128, 255, 256, 257, 1000}) q.push_back(k);
        for (size_t k : q) jobs.push_back({"q-" + std::to_string(k), [=](Ctx &c) { zkey(c, k); }});
        const uint64_t G = 1ull << 30;
        struct H { uint64_t q, r, nc; };
        std::vector<H> hs;
        for (uint64_t k : {G - 1, G, G + 1, 2 * G - 1, 2 * G, 2 * G + 5, 3 * G, 4 * G - 1}) hs.push_back({k, 8, 3});
        for (uint64_t k : {2 * G - 12, 2 * G, 4 * G - 13, 4 * G - 12, 4 * G - 11, 4 * G - 1}) for (uint64_t n : {0, 1, 3}) hs.push_back({32, k, n});
        for (uint64_t n : {G / 8, G / 5, G / 4, G / 2, G, 2 * G, 4 * G - 1}) for (uint64_t r : {8, 32}) hs.push_back({32, r, n});
        for (auto x : hs) for (int l = 0; l < 3; l++) jobs.push_back({"huge-" + std::to_string(x.q) + "-" + std::to_string(x.r) + "-" + std::to_string(x.nc) + "-" + std::to_string(l), [=](Ctx &c) {
            huge(c, x.q, x.r, x.nc, 0, l);
            if (x.q >= G) for (uint64_t cut = 4 * G; cut < 18 * x.q; cut += 4 * G) huge(c, x.q, x.r, x.nc, cut, l);
            if (x.q == G) c.sample("sparse proving keys: width 2^30, coefficients or widths up to 2^32: decoded, and refused when shorter by a multiple of 2^32");
        }});
    }
    Options o; o.jobTimeout = th ? 3000 : 500;
    return run(argc, argv, jobs, o);
}
