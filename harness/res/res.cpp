// R01: nothing an operation acquires outlives it. Memory blocks, descriptors, mappings and threads are counted around
// every operation, every ordered pair of operations, every damaged file, every failing system call and every bounded
// sequence of reader calls; a case whose repetition makes one of the counts grow without end is a leak.
#include <cstddef>
#include <cerrno>
#include <atomic>
#include <functional>
namespace mcrt { static inline void once(const std::function<void()> &f) { f(); } }
#include "ops.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "misc.hpp"
#ifdef WITH_CURVES
#include "multiexp.hpp"
#include "msm.hpp"
#endif
#include "fft.hpp"

// ---- what is held
static std::atomic<long> blocks(0), bytes(0), mapped(0);
static std::atomic<int> failAt(-1), calls(0);      // which of the system calls of a case fails
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
static void *in(void *p) { if (p) { blocks++; bytes += malloc_usable_size(p); } return p; }
static void out(void *p) { if (p) { blocks--; bytes -= malloc_usable_size(p); } }
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void *realloc(void *p, size_t n) { out(p); void *q = __libc_realloc(p, n); if (!q && n) in(p); return in(q); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { *r = in(__libc_memalign(a, n)); return *r ? 0 : ENOMEM; }
void *valloc(size_t n) { return in(__libc_memalign(4096, n)); }
void free(void *p) { out(p); __libc_free(p); }
static bool fault(int e) { if (calls++ == failAt) { errno = e; return true; } return false; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (fd >= 0 && fault(ENOMEM)) return MAP_FAILED;
    long r = syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (r != -1) mapped += (n + 4095) / 4096;
    return (void *)r;
}
int munmap(void *a, size_t n) { int r = syscall(SYS_munmap, a, n); if (!r) mapped -= (n + 4095) / 4096; return r; }
int fstat(int fd, struct stat *s) { if (fault(EIO)) return -1; return syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
}
static long entries(const char *dir) { DIR *d = opendir(dir); long n = 0; while (readdir(d)) n++; closedir(d); return n; }
struct Held {
    long v[5];
    static const char *name(int i) { static const char *n[] = {"memory blocks", "bytes of memory", "mapped pages", "descriptors", "threads"}; return n[i]; }
    static Held now() { Held h; h.v[0] = blocks; h.v[1] = bytes; h.v[2] = mapped; h.v[3] = entries("/proc/self/fd"); h.v[4] = entries("/proc/self/task"); return h; }
};
// what grows for ever when the case is repeated (something kept from the first time on is not a leak)
static const char *grows(const std::function<void()> &f) {
    Held h[7];
    f(); f();
    for (int i = 0; i < 4; i++) { f(); h[i] = Held::now(); }
    auto rising = [&](int m, int n) { for (int i = 1; i < n; i++) if (h[i].v[m] <= h[i - 1].v[m]) return false; return true; };
    auto changes = [&](int m) { for (int i = 1; i < 4; i++) if (h[i].v[m] > h[i - 1].v[m]) return true; return false; };
    bool any = false;
    for (int m = 0; m < 5; m++) any |= changes(m);
    if (!any) return NULL;
    h[0] = Held::now();
    for (int k = 1, n = 4; k < 7; k++, n *= 2) { for (int i = 0; i < n; i++) f(); h[k] = Held::now(); }
    for (int m : {3, 4, 2, 0, 1}) if (rising(m, 7)) return Held::name(m);
    return NULL;
}
static void check(Ctx &c, const std::string &key, const std::string &what, const std::function<void()> &f) {
    c.cur("%s", what.c_str());
    c.eval(); c.state(); c.nontrivial(); c.trans(6);
    if (const char *g = grows(f)) c.viol("leak:" + key, "%s, repeated: the number of %s keeps growing", what.c_str(), g);
}
// errors are thrown as objects or as pointers
template<class F> static bool tries(F f) { try { f(); return true; } catch (std::exception *e) { delete e; } catch (const std::exception &) {} return false; }

static void singles(Ctx &c) {
    for (auto &o : ops) check(c, o.name, o.name, [&] { Out x; x.reserve(1 << 14); o.fn(x); });
    c.sample("%zu operations one by one", ops.size());
}
static void pairsOf(Ctx &c, size_t i) {
    for (size_t j = 0; j < ops.size(); j++) if (j != i) check(c, ops[i].name + "+", ops[i].name + " then " + ops[j].name, [&] { Out x; x.reserve(1 << 15); ops[i].fn(x); ops[j].fn(x); });
}
static void text(Ctx &c) {
    const Impl *m = impls()[0];
    for (const char *s : {"", "0", "-0", "x", "12x", "--1", "99999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999", "-1"}) for (int radix : {2, 10, 16, 36}) {
        std::string t = std::string("text '") + s + "' radix " + std::to_string(radix);
        check(c, "fromString", t, [&] { RawFq::Element r; RawFq::field.fromString(r, s, radix); std::string o = RawFq::field.toString(r, radix); });
        if (radix == 10) check(c, "str2element", t, [&] { Tagged r = {}; m->str2element(&r, s); free(m->element2str(&r)); });
    }
    for (int n = 0; n <= WB + 8; n++) {
        check(c, "RprBE", "big-endian form in " + std::to_string(n) + " bytes", [&] { std::vector<uint8_t> b(n + 1); RawFq::Element r; tries([&] { RawFq::field.toRprBE(S->a[0], b.data(), n); }); tries([&] { RawFq::field.fromRprBE(r, b.data(), n); }); });
        for (auto v : {0, 1}) check(c, "exp", "power with an exponent of " + std::to_string(n) + " bytes", [&] { std::vector<uint8_t> b(n + 1, v ? 0xff : 0); RawFq::Element r; RawFq::field.exp(r, S->a[0], b.data(), n); });
    }
    check(c, "inv", "inverting zero", [&] { RawFq::Element r; tries([&] { RawFq::field.inv(r, RawFq::field.zero()); }); });
}
template<class Fl> static void transforms(Ctx &c, const std::string &n, int maxPow) {
    auto refused = [](int p) { mpz_t q; mpz_init(q); Fl::field.toMpz(q, Fl::field.negOne()); bool r = !mpz_divisible_2exp_p(q, p); mpz_clear(q); return r; };
    for (int p = 0; p <= maxPow && !refused(p); p++) {
        check(c, "fft", n + ": transform of size 2^" + std::to_string(p) + " created and destroyed", [&] { FFT<Fl> f(1ull << p, 2); });
        for (int q = 0; q <= p; q++) check(c, "fft", n + ": transforms of size 2^" + std::to_string(q) + " made for 2^" + std::to_string(p), [&] {
            FFT<Fl> f(1ull << p, 0); std::vector<typename Fl::Element> a(1ull << q); for (auto &x : a) Fl::field.fromUI(x, &x - &a[0] + 3);
            f.fft(a.data(), a.size()); f.ifft(a.data(), a.size()); });
    }
    for (int p = 1; p < 60; p++) {
        // only sizes that are refused (others would need the memory)
        if (refused(p)) check(c, "fft-refused", n + ": a transform of size 2^" + std::to_string(p) + " is refused", [&] { if (tries([&] { FFT<Fl> f(1ull << p, 0); })) abort(); });
    }
}
#ifdef WITH_CURVES
static void powers(Ctx &c) {
    for (unsigned bytes : {0u, 1u, 2u, 8u, 32u}) for (int how = 0; how < 3; how++) {
        std::vector<uint8_t> s(bytes + 1, how == 0 ? 0xA7 : how == 1 ? 0 : 0xff);
        std::string t = "a power in the degree-12 field, exponent of " + std::to_string(bytes) + " bytes " + std::to_string(s[0]);
        check(c, "F12.exp", t, [&] { AltBn128::F12Element r; En::engine.f12.exp(r, S->f12[0], s.data(), bytes); En::engine.f12.exp(r, En::engine.f12.zero(), s.data(), bytes); });
        check(c, "buildNaf", "recoding of " + std::to_string(bytes) + " bytes " + std::to_string(s[0]), [&] { std::vector<uint8_t> nf((bytes + 2) * 8 + 8); buildNaf(nf.data(), s.data(), bytes); });
    }
    for (int radix : {2, 10, 16, 36}) {
        auto &E = En::engine;
        check(c, "toString", "printing in radix " + std::to_string(radix), [&] { E.f2.toString(S->f2[0], radix); E.f6.toString(S->f6[0], radix); E.f12.toString(S->f12[0], radix); for (int i = 0; i < 3; i++) { E.g1.toString(S->p[i], radix); E.g2.toString(S->q[i], radix); } });
        check(c, "fromString", "parsing in radix " + std::to_string(radix), [&] { AltBn128::F2Element r; E.f2.fromString(r, E.f2.toString(S->f2[0])); AltBn128::F6Element u; E.f6.fromString(u, E.f6.toString(S->f6[0])); AltBn128::F12Element v; E.f12.fromString(v, E.f12.toString(S->f12[0])); });
    }
    check(c, "inv", "inverting zero in the extensions", [&] { AltBn128::F2Element a; AltBn128::F6Element b; AltBn128::F12Element d; auto &E = En::engine; tries([&] { E.f2.inv(a, E.f2.zero()); }); tries([&] { E.f6.inv(b, E.f6.zero()); }); tries([&] { E.f12.inv(d, E.f12.zero()); }); });
    for (const char *t : {"", "1", "()", "(1)", "((1,2),3)", "(1,2),(3,4)", " ( 1 , ( 2 , 3 ) ) ", "1,2,3,4,5,6,7,8", "(((((1,2)))))"}) check(c, "splitParStr", std::string("splitting '") + t + "'", [&] { tries([&] { splitParStr(t); }); });
}
static void pools(Ctx &c) {
    for (unsigned n = 1; n <= 6; n++) {
        std::string t = "a pool of " + std::to_string(n) + " threads, ";
        check(c, "pool", t + "never used", [&] { ThreadPool p(n); });
        for (int len : {0, 1, 2, 5, 9}) for (int rounds : {1, 3}) {
            check(c, "pool", t + std::to_string(rounds) + " loops over " + std::to_string(len), [&] { ThreadPool p(n); std::atomic<int> s(0); for (int i = 0; i < rounds; i++) p.parallelFor(0, len, [&](int b, int e, int) { s += e - b; }); });
            check(c, "pool-shared", "the shared pool, " + std::to_string(rounds) + " loops over " + std::to_string(len), [&] { std::atomic<int> s(0); for (int i = 0; i < rounds; i++) ThreadPool::defaultPool().parallelFor(0, len, [&](int b, int e, int) { s += e - b; }); });
        }
        check(c, "pool", t + "a block", [&] { ThreadPool p(n); std::atomic<int> s(0); p.parallelBlock([&](int, int) { s++; }); });
        check(c, "pool", t + "a block and a loop with captured data", [&] { ThreadPool p(n); auto v = std::make_shared<std::vector<int>>(100); p.parallelBlock([=](int i, int) { (*v)[i] = i; }); p.parallelFor(0, 100, [=](int b, int e, int) { for (; b < e; b++) (*v)[b]++; }); });
        check(c, "limit", "a thread limit of " + std::to_string(n), [&] { ThreadLimit l(n); });
    }
}
template<class Cv, class Fd> static void sumsOf(Ctx &c, const std::string &n, Cv &g, typename Cv::PointAffine *A) {
    // scalars: mixed digits, all zero, all ones, one
    auto fillIn = [](std::vector<uint8_t> &s, size_t bytes, int how) { for (size_t i = 0; i < s.size(); i++) s[i] = how == 0 ? i * 37 + (i >> 3) : how == 1 ? 0 : how == 2 ? 0xff : bytes && i % bytes == 0; };
    static const char *hows[] = {"mixed", "zero", "all-ones", "one"};
    for (unsigned cnt : {0u, 1u, 2u, 3u, 17u, 70u}) for (unsigned bytes : {8u, 9u, 32u}) for (unsigned thr : {0u, 1u, 2u, 3u, 8u}) for (int how = 0; how < 4; how++) {
        if (how && (thr > 1 || bytes == 9) && !c.thorough) continue;
        std::vector<typename Cv::PointAffine> b(cnt + 1);
        std::vector<uint8_t> s((cnt + 1) * bytes);
        std::vector<uint64_t> x = {0, cnt / 2, cnt ? cnt - 1 : 0};
        for (unsigned i = 0; i < cnt; i++) b[i] = A[(i + how) % 3];
        fillIn(s, bytes, how);
        std::string t = n + ": " + std::to_string(cnt) + " points, " + hows[how] + " scalars of " + std::to_string(bytes) + " bytes, " + std::to_string(thr) + " threads";
        check(c, "multiexp", "multi-scalar multiplication of " + t, [&] { typename Cv::Point r; g.multiMulByScalar(r, b.data(), s.data(), bytes, cnt, thr); });
        for (size_t nx : {1, 3}) if (nx == 3 || !how) {
            std::vector<uint64_t> y = x; if (nx == 1) y[0] = 0;
            check(c, "multiexp-strided", "strided multi-scalar multiplication (" + std::to_string(nx) + ") of " + t, [&] { typename Cv::Point r; g.multiMulByScalar(r, b.data(), s.data(), bytes, cnt, nx, y.data(), thr); });
        }
        check(c, "msm", "signed-window multi-scalar multiplication of " + t, [&] { typename Cv::Point r; g.multiMulByScalarMSM(r, b.data(), s.data(), bytes, cnt, thr); });
    }
    for (unsigned bytes : {0u, 1u, 2u, 8u, 31u, 32u, 33u, 64u}) for (int how = 0; how < 4; how++) for (int p = 0; p < 3; p++) {
        std::vector<uint8_t> s(bytes + 1);
        fillIn(s, bytes, how);
        std::string t = n + ": multiplication of point " + std::to_string(p) + " by a " + hows[how] + " scalar of " + std::to_string(bytes) + " bytes";
        check(c, "mulByScalar", t, [&] { typename Cv::Point r; g.mulByScalar(r, A[p], s.data(), bytes); });
        check(c, "mulByScalar", t + " (projective)", [&] { typename Cv::Point r, q; g.copy(q, A[p]); g.mulByScalar(r, q, s.data(), bytes); g.mulByScalar(q, q, s.data(), bytes); });
    }
}
// ---- files
static int scratch() { static int fd = syscall(SYS_memfd_create, "res", 0); return fd; }
static std::string path() { return "/proc/self/fd/" + std::to_string(scratch()); }
static void store(const std::string &b) { if (ftruncate(scratch(), 0) || (b.size() && pwrite(scratch(), b.data(), b.size(), 0) != (ssize_t)b.size())) abort(); }
typedef BinFileUtils::BinFile BF;
static BF *open(const std::string &b, const char *type, bool file) { if (file) return BinFileUtils::openExisting(path(), type, 2).release(); return new BF((void *)b.data(), b.size(), type, 2); }
// opens, loads both kinds of header, reads what there is
static void use(const std::string &b, const char *type, bool file) {
    for (int l = 0; l < 3; l++) tries([&] {
        std::unique_ptr<BF> f(open(b, type, file));
        if (l == 0) { auto h = WtnsUtils::loadHeader(f.get()); f->startReadSection(2); f->read(3); f->endReadSection(); }
        if (l == 1) { auto h = ZKeyUtils::loadHeader(f.get()); f->startReadSection(9); }
        if (l == 2) { f->getSectionSize(1); f->startReadSection(1); for (;;) f->readU32LE(); }
    });
}
static void damaged(Ctx &c, const std::string &good, const char *type, int part, int parts) {
    auto both = [&](const std::string &b, const std::string &what, const char *ty) {
        check(c, "memory-refused", what + " (memory)", [&] { use(b, ty, false); });
        store(b);
        check(c, "file-refused", what + " (file)", [&] { use(b, ty, true); });
    };
    for (size_t n = 0; n <= good.size(); n++) if ((int)(n % parts) == part) both(good.substr(0, n), std::string(type) + " file cut to " + std::to_string(n) + " bytes", type);
    for (size_t i = 0; i < good.size(); i++) if ((int)(i % parts) == part) for (int v : {0x00, 0x01, 0x02, 0x7f, 0xff, 0x100}) {
        std::string b = good; b[i] = v == 0x100 ? b[i] + 1 : v;
        if (b[i] == good[i] || (!c.thorough && i > 160 && i < good.size() - 40 && v != 0xff)) continue;
        both(b, std::string(type) + " file with byte " + std::to_string(i) + " changed to " + std::to_string((uint8_t)b[i]), type);
    }
    if (!part) for (const char *ty : {"wtns", "zkey", "xxxx"}) both(good, std::string("a ") + type + " file opened as " + ty, ty);
}
// every system call of the opening fails once
static void faults(Ctx &c) {
    store(wtns);
    for (int k = 0; k < 12; k++) {
        calls = 0; failAt = k; bool ok = tries([&] { delete open(wtns, "wtns", true); }); int n = calls; failAt = -1;
        if (n <= k) break;      // so many calls are not made
        (void)ok;
        check(c, "fault", "opening a file while its system call number " + std::to_string(k) + " fails", [&] { calls = 0; failAt = k; tries([&] { delete open(wtns, "wtns", true); }); failAt = -1; });
    }
    for (const char *p : {"/nonexistent/file", "", "/proc", "/dev/null", "/dev/zero", "/proc/self/status"})
        check(c, "path", std::string("opening ") + p, [&] { tries([&] { BinFileUtils::openExisting(p, "wtns", 2); }); });
    store(""); check(c, "path", "opening an empty file", [&] { use("", "wtns", true); });
}
// every sequence of reader calls, ended by destroying the reader
static void sequences(Ctx &c, int first, bool file, int depth) {
    struct Call { const char *n; std::function<void(BF &)> f; };
    static const std::vector<Call> K = {
        {"startReadSection(1)", [](BF &f) { f.startReadSection(1); }}, {"startReadSection(2)", [](BF &f) { f.startReadSection(2); }}, {"startReadSection(9)", [](BF &f) { f.startReadSection(9); }},
        {"startReadSection(1,1)", [](BF &f) { f.startReadSection(1, 1); }}, {"endReadSection()", [](BF &f) { f.endReadSection(); }}, {"endReadSection(false)", [](BF &f) { f.endReadSection(false); }},
        {"readU32LE", [](BF &f) { f.readU32LE(); }}, {"readU64LE", [](BF &f) { f.readU64LE(); }}, {"read(1000000)", [](BF &f) { f.read(1000000); }}, {"getSectionData(7)", [](BF &f) { f.getSectionData(7); }},
        {"getSectionSize(2)", [](BF &f) { f.getSectionSize(2); }}, {"witness header", [](BF &f) { WtnsUtils::loadHeader(&f); }}, {"key header", [](BF &f) { ZKeyUtils::loadHeader(&f); }}};
    store(wtns);
    int N = K.size();
    std::vector<int> s(1, first);
    std::function<void()> go = [&] {
        std::string t; for (int i : s) t += std::string(" ") + K[i].n;
        check(c, std::string("reader:") + K[s.back()].n, std::string("a reader (") + (file ? "file" : "memory") + ") and" + t, [&] { std::unique_ptr<BF> f(open(wtns, "wtns", file)); for (int i : s) tries([&] { K[i].f(*f); }); });
        if ((int)s.size() == depth) return;
        for (int i = 0; i < N; i++) { s.push_back(i); go(); s.pop_back(); }
    };
    if (first < N) go();
}
#endif

int main(int argc, char **argv) {
    setenv("OMP_NUM_THREADS", "3", 1); setenv("OMP_DYNAMIC", "false", 1); setenv("OMP_WAIT_POLICY", "passive", 1);
    if (!getenv("RES_CHILD")) { setenv("RES_CHILD", "1", 1); execv("/proc/self/exe", argv); }
    if (!operands()) { fprintf(stderr, "operands\n"); return 2; }
    std::vector<Job> jobs;
    std::string pre = VARIANT "-";
    jobs.push_back({pre + "operations", singles});
    jobs.push_back({pre + "text", text});
    bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
#ifdef WITH_CURVES
    jobs.push_back({pre + "powers", powers});
    jobs.push_back({pre + "pools", pools});
    jobs.push_back({pre + "sums G1", [](Ctx &c) { sumsOf<decltype(En::engine.g1), RawFq>(c, "G1", En::engine.g1, S->pa); }});
    jobs.push_back({pre + "sums G2", [](Ctx &c) { sumsOf<decltype(En::engine.g2), F2Field<RawFq>>(c, "G2", En::engine.g2, S->qa); }});
    jobs.push_back({pre + "faults", faults});
    for (int p = 0; p < 6; p++) { jobs.push_back({pre + "witness " + std::to_string(p), [p](Ctx &c) { damaged(c, wtns, "wtns", p, 6); }}); jobs.push_back({pre + "key " + std::to_string(p), [p](Ctx &c) { damaged(c, zkey, "zkey", p, 6); }}); }
    for (int i = 0; i < 13; i++) for (bool file : {false, true}) jobs.push_back({pre + "reader " + std::to_string(i) + (file ? " file" : ""), [=](Ctx &c) { sequences(c, i, file, th ? 4 : 3); }});
#endif
    jobs.push_back({pre + "transforms Fq", [th](Ctx &c) { transforms<RawFq>(c, "base field", th ? 8 : 5); }});
    jobs.push_back({pre + "transforms Fr", [th](Ctx &c) { transforms<RawFr>(c, "scalar field", th ? 10 : 7); }});
    for (size_t i = 0; i < ops.size(); i++) jobs.push_back({pre + "pairs " + ops[i].name, [i](Ctx &c) { pairsOf(c, i); }});
    return run(argc, argv, jobs);
}
