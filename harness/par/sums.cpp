// M01 (multiexp, mode "multiexp") and M02 (msm, mode "msm"): the sums against the group's addition table.
#if defined(MSM_BITS_PER_CHUNK)
#include <cstdint>
extern uint64_t gWindow;
uint64_t gWindow = 3;
#endif
#include "pkit.hpp"

struct Rig {
    G *g; Cv *cv; Zp f;
    std::vector<std::vector<int>> mul;
    int gen;
    GuardBuf *sb, *bb;
    Rig(uint64_t p, size_t cap) {
        g = pickCurve(p); f = Zp(); gen = g->best(); cv = g->curve(f, gen);
        for (int i = 0; i < g->size(); i++) mul.push_back(g->multiples(i));
        sb = new GuardBuf(cap * 72 + 64); bb = new GuardBuf(cap * sizeof(A) + 64);
    }
};

// the object a history of calls is made on; without one, each call gets a fresh object
struct Engine { ParallelMultiexp<Cv> pm; MSM<Cv, Zp> m; Engine(Cv &c) : pm(c), m(c) {} };
static Engine *gEngine = nullptr;

// runs one input; threads = pool size / thread argument; nx > 0: strided
static void one(Ctx &c, Rig &R, const Input &in, bool msm, uint64_t threads, const char *what, int dir = 1, const std::vector<uint64_t> &x = {}) {
    static P res;
    uint8_t *s = R.sb->end(in.n * in.w);
    memcpy(s, in.sc.data(), in.n * in.w);
    A *b = (A *)R.bb->end(in.n * sizeof(A));
    for (size_t i = 0; i < in.n; i++) R.g->affine(b[i], in.base[i]);
    std::function<bool(size_t)> sel;
    if (!x.empty()) sel = [&](size_t i) { return i / x.size() < x[i % x.size()]; };
    int want = expect(*R.g, R.mul, in, sel);
    memset((void *)&res, 0xFE, sizeof res);
    Zp::misuse = 0;
    c.cur("%s threads=%llu %s", what, (unsigned long long)threads, in.str().c_str());
    static std::vector<uint64_t> xs;
    xs = x;
    auto r = mcrt::once([&] {
        static unsigned turn = 0;
        Cv &cv = *R.cv;
        if (!gEngine && ++turn % 2) {                // through the curve's own members
            if (msm && threads) cv.multiMulByScalarMSM(res, b, s, in.w, in.n, threads);
            else if (msm) cv.multiMulByScalarMSM(res, b, s, in.w, in.n);
            else if (x.empty() && threads) cv.multiMulByScalar(res, b, s, in.w, in.n, threads);
            else if (x.empty()) cv.multiMulByScalar(res, b, s, in.w, in.n);
            else cv.multiMulByScalar(res, b, s, in.w, in.n, (uint32_t)xs.size(), xs.data(), threads);
            if (msm) mcrt::makePermanent();
            return;
        }
        Engine *en = gEngine ? gEngine : new Engine(cv);
        if (msm) en->m.run(res, b, s, in.w, in.n, threads);
        else if (x.empty()) en->pm.multiexp(res, b, s, in.w, in.n, threads);
        else en->pm.multiexp(res, b, s, in.w, in.n, (uint64_t)xs.size(), xs.data(), threads);
        if (en != gEngine) delete en;
        if (msm) mcrt::makePermanent();
    }, dir);
    c.eval(); c.state(); c.trans(r.points + in.n);
    std::string xt;
    for (auto v : x) xt += " " + std::to_string(v);
    if (!x.empty()) xt = " sizes" + xt;
    if (!r.key.empty()) { c.viol(std::string(what) + ":" + r.key, "threads=%llu %s%s: %s", (unsigned long long)threads, in.str().c_str(), xt.c_str(), r.text.c_str()); return; }
    int got = R.g->which(res);
    if (want) c.nontrivial();
    if (got != want) c.viol(std::string(what) + (got < 0 ? ":no-point" : ":value"), "%s threads=%llu %s%s gives %d, expected %d", R.g->str().c_str(), (unsigned long long)threads, in.str().c_str(), xt.c_str(), got, want);
    if (Zp::misuse) c.viol(std::string(what) + ":unwritten", "threads=%llu %s%s uses memory nobody wrote", (unsigned long long)threads, in.str().c_str(), xt.c_str());
    if (memcmp(s, in.sc.data(), in.n * in.w)) c.viol(std::string(what) + ":scalars-changed", "%s", in.str().c_str());
    for (size_t i = 0; i < in.n; i++) if (R.g->which(b[i]) != in.base[i]) { c.viol(std::string(what) + ":bases-changed", "%s", in.str().c_str()); break; }
}

typedef std::vector<uint8_t> Bytes;
static std::vector<Bytes> shapes(size_t w, bool many) {
    std::vector<Bytes> v;
    auto add = [&](const Bytes &b) { if (std::find(v.begin(), v.end(), b) == v.end()) v.push_back(b); };
    Bytes z(w, 0);
    add(z);
    { Bytes b = z; b[0] = 1; add(b); }
    { Bytes b = z; b[0] = 3; add(b); }
    add(Bytes(w, 0xFF));
    { Bytes b(w, 0xFF); b[0] = 0xFE; add(b); }
    { Bytes b(w, 0xFF); b[w - 1] = 0x7F; add(b); }
    { Bytes b = z; b[w - 1] = 0x80; add(b); }
    { Bytes b(w, 0x55); add(b); }
    if (many) {
        add(Bytes(w, 0xAA));
        { Bytes b(w, 0x99); add(b); }
        { Bytes b(w, 0xFF); b[w - 1] = 0x3F; add(b); }
        { Bytes b(w, 0xFF); b[w - 1] = 0x1F; add(b); }
        { Bytes b = z; b[w - 1] = 0xFF; add(b); }
        { Bytes b = z; b[w - 1] = 0x40; add(b); }
        { Bytes b(w); for (size_t i = 0; i < w; i++) b[i] = (uint8_t)(0x9D * (i + 3)); add(b); }
    }
    return v;
}
// every scalar with one bit, and every scalar of consecutive ones from some bit to the top and from 0 to some bit
static std::vector<Bytes> runsOfBits(size_t w) {
    std::vector<Bytes> v;
    for (size_t k = 0; k < 8 * w; k++) {
        Bytes a(w, 0), b(w, 0), d(w, 0);
        a[k / 8] |= 1 << (k % 8);
        for (size_t j = 0; j < 8 * w; j++) { if (j >= k) b[j / 8] |= 1 << (j % 8); if (j <= k) d[j / 8] |= 1 << (j % 8); }
        v.push_back(a); v.push_back(b); v.push_back(d);
    }
    return v;
}
static void dense(Input &in, const Rig &R, unsigned seed) {
    uint64_t x = seed * 2654435761u + 88172645463325252ull;
    auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    for (auto &b : in.base) b = nx() % R.g->size();
    for (auto &s : in.sc) s = (uint8_t)nx();
}

static const size_t WIDTHS[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 31, 32, 33, 48, 80};

static void pairs(Ctx &c, Rig &R, bool msm, size_t w, uint64_t threads, const char *what) {
    // all pairs of bases from the whole group, a few shapes; all pairs of shapes, a few bases
    auto sh = shapes(w, c.thorough);
    int G0 = R.gen, Gn = R.g->opp[R.gen], G2 = R.g->sum[R.gen][R.gen];
    std::vector<std::pair<int, int>> bs = {{G0, G0}, {G0, Gn}, {G0, 0}, {0, G2}, {G0, G2}, {0, 0}};
    for (auto &a : sh) for (auto &b : sh) for (auto &q : bs) {
        Input in(2, w); in.base = {q.first, q.second};
        std::copy(a.begin(), a.end(), in.sc.begin()); std::copy(b.begin(), b.end(), in.sc.begin() + w);
        one(c, R, in, msm, threads, what);
    }
    auto rb = runsOfBits(w);
    for (auto &a : rb) {
        Input in(2, w); in.base = {G0, G2};
        std::copy(a.begin(), a.end(), in.sc.begin());
        one(c, R, in, msm, threads, what);
        std::copy(a.begin(), a.end(), in.sc.begin() + w);
        std::fill(in.sc.begin(), in.sc.begin() + w, 0);
        one(c, R, in, msm, threads, what);
    }
    if (w == 8) for (int i = 0; i < R.g->size(); i++) for (int j = 0; j < R.g->size(); j++) {
        Input in(2, w); in.base = {i, j}; in.sc[0] = 5; in.sc[w] = 0xFF; in.sc[w + 1] = 0x81;
        one(c, R, in, msm, threads, what);
    }
    c.sample("%s, %s, group of %d points, width %zu, %llu threads: all pairs of %zu scalar shapes, %zu runs of bits", what, R.g->str().c_str(), R.g->size(), w, (unsigned long long)threads, sh.size(), rb.size());
}
static void counts(Ctx &c, Rig &R, bool msm, size_t from, size_t to, size_t w, const std::vector<uint64_t> &ths, const char *what, bool full) {
    for (size_t n = from; n <= to; n++) for (auto t : ths) {
        Input in(n, w);
        one(c, R, in, msm, t, what);                                   // all infinity, all zero
        for (auto &s : in.sc) s = 0xFF;
        one(c, R, in, msm, t, what);
        for (size_t i = 0; i < n; i++) in.base[i] = i % 2 ? R.g->opp[R.gen] : R.gen;    // opposites in every bucket
        one(c, R, in, msm, t, what);
        for (size_t i = 0; i < n; i++) in.base[i] = R.gen;                               // the same point everywhere
        one(c, R, in, msm, t, what, -1);
        if (full) for (size_t i = 0; i < n; i++) {                                       // one entry at a time
            Input h(n, w); h.base = in.base; h.sc[i * w + w - 1] = 0xC1; h.sc[i * w] = 7;
            one(c, R, h, msm, t, what);
        }
        for (unsigned sd = 1; sd <= (full ? 3u : 1u); sd++) { dense(in, R, sd + 7 * n + 1000 * t); one(c, R, in, msm, t, what, sd & 1 ? 1 : -1); }
    }
    c.sample("%s, n from %zu to %zu, width %zu: zero, all-ones, opposites, repeats, one entry at a time, dense", what, from, to, w);
}

// more than 2^32 bytes of scalars: memory that costs nothing because nearly all of it is the system's zero page
static void volume(Ctx &c, bool msm, size_t n, size_t w, uint64_t threads) {
    if (msm) {      // keeps one word per digit of every scalar, about 9 GB
        uint64_t free = 0; if (FILE *f = fopen("/proc/meminfo", "r")) { char l[200]; while (fgets(l, sizeof l, f)) if (!strncmp(l, "MemAvailable:", 13)) free = strtoull(l + 13, 0, 10) / 1024; fclose(f); }
        if (free < 14000) { c.sample("msm-volume: not enough memory, left out"); return; }
    }
    Rig R(13, 4);
    auto map = [](size_t bytes) { return (char *)mmap(NULL, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    uint8_t *s = (uint8_t *)map(n * w);
    A *b = (A *)map(n * sizeof(A));
    if ((void *)s == MAP_FAILED || (void *)b == MAP_FAILED) { c.sample("no address space for %zu scalars", n); return; }
    A inf; R.g->affine(inf, 0);
    if (memcmp(&inf, b, sizeof inf)) { c.viol("volume:infinity", "the point at infinity is not all zero"); return; }
    // entries around every place where a 32-bit count of bytes wraps, and at both ends
    std::vector<size_t> at;
    for (int64_t k : {0, 1}) at.push_back(k);
    for (uint64_t edge : {1ull << 31, 1ull << 32}) for (int64_t d : {-1, 0, 1, 2}) at.push_back(edge / w + d);
    at.push_back(n - 2); at.push_back(n - 1);
    int want = 0;
    for (size_t k = 0; k < at.size(); k++) {
        size_t i = at[k]; int base = k % 3 ? R.gen : R.g->sum[R.gen][R.gen];
        R.g->affine(b[i], base);
        uint8_t *e = s + i * w;
        e[0] = 3 + 3 * k; e[w / 2] = 0x80 + k; e[w - 1] = k + 1;
        want = R.g->sum[want][R.mul[base][modBytes(e, w, R.mul[base].size())]];
    }
    static P res;
    memset((void *)&res, 0xFE, sizeof res);
    Zp::misuse = 0;
    c.cur("%s n=%zu width=%zu threads=%llu", msm ? "msm-volume" : "multiexp-volume", n, w, (unsigned long long)threads);
    auto r = mcrt::once([&] {
        if (msm) { MSM<Cv, Zp> m(*R.cv); m.run(res, b, s, w, n, threads); mcrt::makePermanent(); }
        else { ParallelMultiexp<Cv> m(*R.cv); m.multiexp(res, b, s, w, n, threads); }
    }, 1);
    c.eval(); c.state(); c.trans(r.points + n); if (want) c.nontrivial();
    const char *what = msm ? "msm-volume" : "multiexp-volume";
    if (!r.key.empty()) c.viol(std::string(what) + ":" + r.key, "n=%zu width=%zu threads=%llu: %s", n, w, (unsigned long long)threads, r.text.c_str());
    else { int got = R.g->which(res); if (got != want) c.viol(std::string(what) + ":value", "%s n=%zu width=%zu threads=%llu gives %d, expected %d", R.g->str().c_str(), n, w, (unsigned long long)threads, got, want); }
    munmap(s, n * w + 4096); munmap(b, n * sizeof(A) + 4096);
    c.sample("%s: %zu scalars of %zu bytes, %zu of them not zero", what, n, w, at.size());
}

// every sequence of two and of three calls on one object, from a set that varies each argument
static void reuse(Ctx &c, bool msm, unsigned first) {
    struct Call { size_t n, w; uint64_t t; int kind; std::vector<uint64_t> x; };
    std::vector<Call> calls = {
        {0, 8, 1, 0, {}}, {1, 8, 1, 1, {}}, {1, 40, 2, 1, {}}, {5, 8, 1, 2, {}}, {5, 9, 3, 3, {}}, {5, 32, 2, 1, {}}, {9, 11, 4, 1, {}},
        {9, 8, 2, 3, {}}, {24, 8, 1, 2, {}}, {24, 16, 3, 1, {}}, {40, 9, 5, 1, {}}, {40, 9, 2, 4, {}}, {7, 64, 7, 1, {}},
    };
    if (!msm) for (auto &k : std::vector<Call>{{9, 9, 2, 1, {5, 2}}, {9, 9, 1, 3, {3}}, {12, 16, 3, 1, {0, 4, 4}}, {0, 9, 1, 1, {1}}}) calls.push_back(k);
    Rig R(13, 64);
    auto make = [&](const Call &k, unsigned seed) {
        Input in(k.n, k.w);
        dense(in, R, seed);
        if (k.kind == 0) { std::fill(in.base.begin(), in.base.end(), 0); std::fill(in.sc.begin(), in.sc.end(), 0); }
        if (k.kind == 2) for (size_t i = 0; i < k.n; i++) { in.base[i] = R.gen; std::fill(in.sc.begin() + i * k.w, in.sc.begin() + (i + 1) * k.w, 0); in.sc[i * k.w] = i; }
        if (k.kind == 3) { std::fill(in.sc.begin(), in.sc.end(), 0xFF); std::fill(in.base.begin(), in.base.end(), R.gen); }
        if (k.kind == 4) std::fill(in.sc.begin(), in.sc.end(), 0);
        return in;
    };
    std::vector<Input> ins, ins2;
    for (auto &k : calls) { ins.push_back(make(k, 3)); ins2.push_back(make(k, 8)); }
    const char *what = msm ? "msm-history" : "multiexp-history";
    auto go = [&](size_t i, const Input &in) { one(c, R, in, msm, calls[i].t, what, 1, calls[i].x); };
    size_t i = first, seqs = 0;
    for (size_t j = 0; j < calls.size(); j++) for (size_t k = 0; k < calls.size(); k++) {
        if (!c.thorough && (i + 2 * j + k) % 2) continue;
        gEngine = new Engine(*R.cv);
        go(i, ins[i]); go(j, j == i ? ins2[j] : ins[j]); go(k, k == i || k == j ? ins2[k] : ins[k]);
        delete gEngine; gEngine = nullptr;
        seqs++;
    }
    c.sample("%s: %zu sequences of three calls on one object, starting with n=%zu width=%zu threads=%llu", what, seqs, calls[i].n, calls[i].w, (unsigned long long)calls[i].t);
}
static const unsigned REUSE_MSM = 13, REUSE_MULTIEXP = 17;

#ifndef MSM_BITS_PER_CHUNK
static void strided(Ctx &c, uint64_t p, size_t w, uint64_t nx, uint64_t threads, size_t maxN) {
    Rig R(p, 64);
    for (size_t n = 0; n <= maxN; n++) {
        uint64_t top = (n + nx - 1) / nx + 1;
        std::vector<uint64_t> x(nx, 0);
        for (;;) {
            Input in(n, w);
            dense(in, R, n * 31 + nx);
            one(c, R, in, false, threads, "strided", 1, x);
            // every entry has its own multiple of the generator
            for (size_t i = 0; i < n; i++) { in.base[i] = R.gen; for (size_t k = 0; k < w; k++) in.sc[i * w + k] = 0; in.sc[i * w] = 1 << (i % 8); in.sc[i * w + 1 + i / 8] = 1; }
            one(c, R, in, false, threads, "strided", -1, x);
            size_t k = 0;
            while (k < nx && x[k] == top) x[k++] = 0;
            if (k == nx) break;
            x[k]++;
        }
    }
    c.sample("strided, %llu sequences, n up to %zu, every tuple of sequence lengths", (unsigned long long)nx, maxN);
}
#endif

int main(int argc, char **argv) {
    std::string g = argc > 1 ? argv[1] : "";
    bool th = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    auto nm = [](const char *f, long a, long b, long d = 0) { char s[80]; snprintf(s, sizeof s, f, a, b, d); return std::string(s); };
#ifndef MSM_BITS_PER_CHUNK
    if (g == "noomp") {         // built without OpenMP: one thread whatever is asked for
        for (size_t w : {8, 11, 32}) for (uint64_t t : {0, 1, 3}) jobs.push_back({nm("pairs-noomp-w%ld-t%ld", w, t), [=](Ctx &c) { Rig R(13, 4); pairs(c, R, false, w, t, "multiexp"); }});
        for (size_t a = 0; a < 40; a += 8) for (size_t w : {8, 33}) jobs.push_back({nm("counts-noomp-%ld-w%ld", a, w), [=](Ctx &c) { Rig R(13, a + 16); counts(c, R, false, a, a + 7, w, {0, 1, 4}, "multiexp", true); }});
        jobs.push_back({"large-noomp", [=](Ctx &c) { Rig R(13, 300); counts(c, R, false, 254, 258, 9, {0, 3}, "multiexp", false); }});
        for (uint64_t t : {0, 3}) jobs.push_back({nm("strided-noomp-t%ld", t, 0), [=](Ctx &c) { strided(c, 13, 9, 2, t, 14); }});
        for (unsigned i = 0; i < REUSE_MULTIEXP; i += 4) jobs.push_back({nm("history-noomp-%ld", i, 0), [=](Ctx &c) { reuse(c, false, i); }});
    } else if (g == "multiexp") {
        for (unsigned i = 0; i < REUSE_MULTIEXP; i++) jobs.push_back({nm("history-%ld", i, 0), [=](Ctx &c) { reuse(c, false, i); }});
        for (size_t w : WIDTHS) for (uint64_t t : {1, 2, 3}) if (th || t == 1 || w == 8 || w == 11 || w == 32)
            jobs.push_back({nm("pairs-w%ld-t%ld", w, t), [=](Ctx &c) { Rig R(th ? 29 : 13, 4); pairs(c, R, false, w, t, "multiexp"); }});
        for (size_t a = 0; a < (th ? 160u : 72u); a += 8)
            for (size_t w : {8, 11, 32}) jobs.push_back({nm("counts-%ld-w%ld", a, w), [=](Ctx &c) { Rig R(13, a + 16); counts(c, R, false, a, a + 7, w, {0, 1, 2, 3, 4, 5, 7, 16}, "multiexp", w == 11 || th); }});
        for (size_t a : {126, 254, 510, 1022, 2046, 4094, 8190}) if (th || a <= 4094)
            jobs.push_back({nm("large-%ld", a, 0), [=](Ctx &c) { Rig R(13, a + 16); counts(c, R, false, a, a + 4, a < 1000 ? 33 : 9, {1, 3, 8}, "multiexp", false); }});
        jobs.push_back({"volume", [=](Ctx &c) { volume(c, false, (1u << 24) + 5, 257, 2); }});
        // window sizes up to the largest one (n/2 = 2^16) and beyond it
        for (size_t a : {16384, 32768, 65536, 131072, 262144}) if (th || a <= 32768 || a == 131072)
            jobs.push_back({nm("huge-%ld", a, 0), [=](Ctx &c) { Rig R(13, a + 16); counts(c, R, false, a, a, 8, {3}, "multiexp", false); }});
        for (uint64_t nx = 1; nx <= (th ? 4u : 3u); nx++) for (uint64_t t : {1, 2, 4})
            jobs.push_back({nm("strided-%ld-t%ld", nx, t), [=](Ctx &c) { strided(c, 13, 9, nx, t, nx == 1 ? 40 : nx == 2 ? 20 : nx == 3 ? (th ? 15 : 12) : 10); }});
    } else {
        for (unsigned cpu : {1, 3}) for (unsigned i = 0; i < REUSE_MSM; i++) jobs.push_back({nm("history-%ld-pool%ld", i, cpu), [=](Ctx &c) { mcrt::ncpu = cpu; reuse(c, true, i); }});
        for (unsigned cpu : {1, 2, 3}) for (size_t w : WIDTHS) if (th || cpu == 1 || w == 8 || w == 11 || w == 32)
            jobs.push_back({nm("pairs-w%ld-pool%ld", w, cpu), [=](Ctx &c) { mcrt::ncpu = cpu; Rig R(th ? 29 : 13, 4); pairs(c, R, true, w, 0, "msm"); }});
        for (unsigned cpu : {1, 2, 3, 5, 8, 20}) for (size_t a = 0; a < (th ? 160u : 64u); a += 16) for (size_t w : {8, 11, 32})
            jobs.push_back({nm("counts-%ld-w%ld-pool%ld", a, w, cpu), [=](Ctx &c) { mcrt::ncpu = cpu; Rig R(13, a + 24); counts(c, R, true, a, a + 15, w, {0}, "msm", w == 11 || th); }});
        for (size_t a : {126, 254, 510, 1022, 2046, 4094, 8190}) if (th || a <= 4094)
            jobs.push_back({nm("large-%ld", a, 0), [=](Ctx &c) { mcrt::ncpu = 3; Rig R(13, a + 16); counts(c, R, true, a, a + 4, a < 1000 ? 33 : 9, {0}, "msm", false); }});
        jobs.push_back({"volume", [=](Ctx &c) { mcrt::ncpu = 2; volume(c, true, (1u << 24) + 5, 257, 0); }});
        for (size_t a : {20000, 50000, 130000, 300000, 700000}) if (th || a <= 130000)
            jobs.push_back({nm("huge-%ld", a, 0), [=](Ctx &c) { mcrt::ncpu = 3; Rig R(13, a + 16); counts(c, R, true, a, a, 8, {0}, "msm", false); }});
    }
#else
    for (uint64_t b = 1; b <= (th ? 18u : 17u); b++) for (size_t w : WIDTHS) {
        if (!th && (b > 10 ? w > 13 && w != 32 : w > 48 && b % 4 != 3)) continue;
        jobs.push_back({nm("window%ld-w%ld", b, w), [=](Ctx &c) {
            gWindow = b; mcrt::ncpu = 1 + b % 3;
            Rig R(13, 24);
            if (b <= 12) pairs(c, R, true, w, 0, "msm-window");
            else {
                auto rb = shapes(w, true);
                for (auto &x : rb) for (auto &y : rb) { if (!c.thorough && &y - &x > 3) continue; Input in(2, w); in.base = {R.gen, R.g->sum[R.gen][R.gen]}; std::copy(x.begin(), x.end(), in.sc.begin()); std::copy(y.begin(), y.end(), in.sc.begin() + w); one(c, R, in, true, 0, "msm-window"); }
            }
            counts(c, R, true, 3, b <= 10 ? 9 : 4, w, {0}, "msm-window", b <= 8);
        }});
    }
#endif
    Options o; o.stall = 300; o.jobTimeout = th ? 6000 : 700;
    return run(argc, argv, jobs, o);
}
