// C01, C02: the real thread pool (c/misc.hpp) under the controlled scheduler.
#include "mcx.hpp"
#include "mcrt.hpp"
#include "misc.hpp"
#include <climits>

using namespace mcx;

struct Piece { int b, e, k, self; };

// book-keeping of the harness inside the pieces: not part of the code under test, hence not watched
#define UNWATCHED __attribute__((no_sanitize("thread"), noinline))
struct Log { std::vector<Piece> got; int n = 0, over = 0; };
UNWATCHED static void note(Log *l, int b, int e, int k, int self) { if (l->n < (int)l->got.size()) l->got[l->n++] = {b, e, k, self}; else l->over++; }

// ---- C01 -------------------------------------------------------------------------------
static void checkFor(ThreadPool &p, unsigned nT, int begin, int count, Ctx &c) {
    Log l; l.got.resize(nT + 4);
    Log *lp = &l;
    p.parallelFor(begin, begin + count, [lp](int b, int e, int k) { note(lp, b, e, k, mcrt::self()); });
    auto &got = l.got; int n = l.n, over = l.over;
    char ctx[120]; snprintf(ctx, sizeof ctx, "threads=%u begin=%d count=%d", nT, begin, count);
    c.cur("%s", ctx); c.eval(); c.state();
    if (over) { c.viol("for:too-many-pieces", "%s", ctx); return; }
    std::vector<Piece> v(got.begin(), got.begin() + n);
    std::sort(v.begin(), v.end(), [](const Piece &a, const Piece &b) { return a.b < b.b; });
    int at = begin; int mn = INT_MAX, mx = 0;
    std::set<int> ks;
    for (auto &q : v) {
        if (q.b >= q.e) c.viol("for:empty-piece", "%s piece [%d,%d)", ctx, q.b, q.e);
        if (q.b != at) c.viol(q.b > at ? "for:gap" : "for:overlap", "%s piece [%d,%d) after %d", ctx, q.b, q.e, at);
        at = q.e;
        mn = std::min(mn, q.e - q.b); mx = std::max(mx, q.e - q.b);
        if (q.k < 0 || q.k >= (int)nT) c.viol("for:index-range", "%s index %d", ctx, q.k);
        if (!ks.insert(q.k).second) c.viol("for:index-repeated", "%s index %d", ctx, q.k);
    }
    if (at != begin + count) c.viol("for:not-covered", "%s ends at %d", ctx, at);
    if (n && mx - mn > 1) c.viol("for:unbalanced", "%s sizes %d..%d", ctx, mn, mx);
    if (n > 1) c.nontrivial();
    c.trans(n);
    if (count == 37 && begin == 0) c.sample("parallelFor %s -> %d pieces of %d..%d", ctx, n, mn, mx);
}

static void job_split(Ctx &c, unsigned nT) {
    int maxCount = c.thorough ? 700 : 160;
    auto r = mcrt::once([&] {
        ThreadPool p(nT);
        if (p.getThreadCount() != nT) c.viol("count", "asked for %u threads, has %u", nT, p.getThreadCount());
        for (int begin : {0, 1, -7, 1000, 1 << 20})
            for (int n = 0; n <= (begin ? maxCount : maxCount * 4); n++) checkFor(p, nT, begin, n, c);
        for (int n : {1023, 1024, 1025, 65535, 65536, 1000003, INT_MAX - 1, INT_MAX}) checkFor(p, nT, 0, n, c);
        checkFor(p, nT, INT_MIN + 1, INT_MAX, c);
        for (int rep = 0; rep < 3; rep++) {
            std::vector<int> hits(nT + 2, 0);
            int bad = 0;
            p.parallelBlock([&](int k, int n) {
                if (n != (int)nT || k < 0 || k >= (int)nT) bad++; else hits[k]++;
            });
            c.eval(); c.state();
            if (bad) c.viol("block:arguments", "threads=%u: wrong index or count in %d calls", nT, bad);
            for (unsigned k = 0; k < nT; k++) if (hits[k] != 1) c.viol("block:not-once", "threads=%u index %u ran %d times", nT, k, hits[k]);
        }
    });
    if (!r.key.empty()) c.viol("run:" + r.key, "threads=%u %s", nT, r.text.c_str());
}

static void job_default(Ctx &c, unsigned n) {
    mcrt::ncpu = n;
    auto r = mcrt::once([&] {
        ThreadPool p;
        unsigned want = n ? n : 1;
        c.eval(); c.state();
        if (p.getThreadCount() != want) c.viol("default-count", "%u processors: pool of %u", n, p.getThreadCount());
        if (ThreadPool::defaultThreadCount() != want) c.viol("default-count", "%u processors: count %u", n, ThreadPool::defaultThreadCount());
        if (&ThreadPool::defaultPool() != &ThreadPool::defaultPool()) c.viol("default-pool", "two default pools");
        if (ThreadPool::defaultPool().getThreadCount() != want) c.viol("default-count", "%u processors: default pool of %u", n, ThreadPool::defaultPool().getThreadCount());
        for (int k = 0; k < 20; k++) { checkFor(p, want, 0, k, c); checkFor(ThreadPool::defaultPool(), want, 0, k, c); }
        mcrt::makePermanent();
    });
    if (!r.key.empty()) c.viol("run:" + r.key, "processors=%u %s", n, r.text.c_str());
}

// ---- C02 -------------------------------------------------------------------------------
// history: each letter one use of the pool. b = block, 0-9 = loop over that many elements
static void body(unsigned nT, const std::string &hist, bool twoPools) {
    int cells[16], ran[16];
    {
        ThreadPool p(nT);
        for (size_t h = 0; h < hist.size(); h++) {
            int n = hist[h] == 'b' ? (int)nT : hist[h] - '0';
            for (int i = 0; i < 16; i++) { cells[i] = 0; ran[i] = 0; }
            if (hist[h] == 'b')
                p.parallelBlock([&](int k, int m) { cells[k] = 100 + k; ran[k]++; (void)m; });
            else
                p.parallelFor(0, n, [&](int b, int e, int k) { for (int i = b; i < e; i++) { cells[i] = 100 + i; ran[i]++; } (void)k; });
            for (int i = 0; i < n; i++) {
                if (ran[i] == 0) mcrt::fail("lost-work", "a piece had not run when the call returned");
                if (ran[i] != 1) mcrt::fail("repeated-work", "a piece ran more than once");
                if (cells[i] != 100 + i) mcrt::fail("result", "the effect of a piece is missing");
            }
            if (twoPools) {
                ThreadPool q(2);
                int s[2] = {0, 0};
                q.parallelBlock([&](int k, int) { s[k] = 1; });
                if (s[0] + s[1] != 2) mcrt::fail("lost-work", "second pool");
            }
        }
    }
    if (mcrt::liveThreads()) mcrt::fail("thread-left", "threads are still running after the pool was destroyed");
}

// Several threads use one pool: client i runs the i-th history
static void clients(unsigned nT, const std::vector<std::string> &hist) {
    int cells[3][16], ran[3][16];
    {
        ThreadPool p(nT);
        auto work = [&](int w) {
            for (char h : hist[w]) {
                int n = h == 'b' ? (int)nT : h - '0';
                int *cell = cells[w], *count = ran[w];
                for (int i = 0; i < 16; i++) { cell[i] = 0; count[i] = 0; }
                if (h == 'b')
                    p.parallelBlock([=](int k, int m) { cell[k] = 100 * w + k; count[k]++; (void)m; });
                else
                    p.parallelFor(0, n, [=](int b, int e, int k) { for (int i = b; i < e; i++) { cell[i] = 100 * w + i; count[i]++; } (void)k; });
                for (int i = 0; i < n; i++) {
                    if (count[i] == 0) mcrt::fail("lost-work", "a piece had not run when the call returned (pool used by several threads)");
                    if (count[i] != 1) mcrt::fail("repeated-work", "a piece ran more than once (pool used by several threads)");
                    if (cell[i] != 100 * w + i) mcrt::fail("result", "the effect of a piece is missing (pool used by several threads)");
                }
            }
        };
        std::vector<std::thread> t;
        for (size_t w = 1; w < hist.size(); w++) t.emplace_back(work, (int)w);
        work(0);
        for (auto &x : t) x.join();
    }
    if (mcrt::liveThreads()) mcrt::fail("thread-left", "threads are still running after the pool was destroyed");
}

static void job_sched(Ctx &c, unsigned nT, std::string hist, int pre, int spur, bool two, std::vector<std::string> cl = {}) {
    mcrt::Options o;
    o.preempt = pre; o.sleep = pre < 0; o.spurious = spur;
    o.maxSeconds = c.thorough ? 3000 : 120;
    auto r = mcrt::explore(o, [&] { if (cl.empty()) body(nT, hist, two); else clients(nT, cl); }, [&](const std::string &s) { c.cur("schedule %s", s.c_str()); });
    c.eval(r.execs); c.state(r.decisions); c.trans(r.points);
    c.nontrivial(r.execs - r.redundant);
    c.sample("pool of %u, uses \"%s\", %s, %d spurious: %llu schedules, %llu decisions, depth %llu%s", nT, hist.c_str(), pre < 0 ? "all schedules (sleep sets)" : ("at most " + std::to_string(pre) + " preemptions").c_str(), spur,
             (unsigned long long)r.execs, (unsigned long long)r.decisions, (unsigned long long)r.maxDepth, r.complete ? "" : " (time cap)");
    if (!r.complete) c.s->capped = 1;
    if (!r.key.empty()) {
        // replay the whole exploration deterministically until the same schedule
        c.viol(r.key, "%s [schedule %s]", r.text.c_str(), r.schedule.c_str());
    }
}

int main(int argc, char **argv) {
    std::string g = argc > 1 ? argv[1] : "";
    bool thorough = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) thorough = true;
    std::vector<Job> jobs;
    if (g == "split") {
        for (unsigned n = 1; n <= (thorough ? 36u : 20u); n++) jobs.push_back({"split-" + std::to_string(n), [n](Ctx &c) { job_split(c, n); }});
        for (unsigned n : {0u, 1u, 2u, 3u, 7u, 16u}) jobs.push_back({"default-" + std::to_string(n), [n](Ctx &c) { job_default(c, n); }});
    } else {
        auto add = [&](unsigned nT, std::string h, int pre, int sp, bool two = false) {
            char b[80]; snprintf(b, sizeof b, "pool%u-%s-%s%d-s%d%s", nT, h.empty() ? "none" : h.c_str(), pre < 0 ? "all" : "p", pre < 0 ? 0 : pre, sp, two ? "-two" : "");
            jobs.push_back({b, [=](Ctx &c) { job_sched(c, nT, h, pre, sp, two); }});
        };
        auto share = [&](unsigned nT, std::vector<std::string> h, int pre, int sp) {
            std::string all; for (auto &x : h) all += (all.empty() ? "" : "|") + x;
            char b[80]; snprintf(b, sizeof b, "shared%u-%s-%s%d-s%d", nT, all.c_str(), pre < 0 ? "all" : "p", pre < 0 ? 0 : pre, sp);
            jobs.push_back({b, [=](Ctx &c) { job_sched(c, nT, all, pre, sp, false, h); }});
        };
        int deep = thorough ? 1 : 0;
        for (auto &h : std::vector<std::vector<std::string>>{{"b", "b"}, {"2", "b"}, {"3", "1"}, {"2", "3"}}) { share(2, h, -1, 0); share(2, h, 1 + deep, 1); }
        for (auto &h : std::vector<std::vector<std::string>>{{"b", "b", "b"}, {"3", "2", "b"}}) share(2, h, deep ? -1 : 0, 0);
        share(2, {"bb", "b"}, -1, 0);
        share(2, {"2b", "b3"}, deep ? -1 : 2, 0);
        for (auto &h : std::vector<std::vector<std::string>>{{"b", "b"}, {"3", "2"}, {"2", "2"}}) share(3, h, deep ? -1 : 1, 0);
        share(3, {"b3", "2"}, 1 + deep, 0); share(1, {"b", "2"}, -1, 0); share(4, {"b", "4"}, deep, 0);
        add(1, "", -1, 0); add(1, "b13", -1, 0);
        for (const char *h : {"", "b", "1", "2", "3", "bb", "b2", "2b", "13", "31", "22", "b3"}) { add(2, h, -1, 0); add(2, h, -1, 1); }
        for (const char *h : {"bbb", "2b2", "323"}) { add(2, h, -1, 0); if (deep) add(2, h, -1, 1); }
        add(2, "b", 2, 0, true);
        for (const char *h : {"", "b", "1", "2", "3", "5"}) { add(3, h, -1, 0); add(3, h, 2 + deep, 1); }
        for (const char *h : {"bb", "b2", "32", "23"}) { add(3, h, 2 + deep, 0); add(3, h, 1 + deep, 1); }
        for (const char *h : {"b", "2", "7", "9"}) { add(4, h, 2 + deep, 0); }
        add(4, "", 3, 0);
        add(4, "b4", 1 + deep, 0);
        add(5, "b", 1 + deep, 0); if (deep) add(5, "bb", 1, 0);
        if (deep) { add(3, "bb", -1, 0); add(3, "b2", -1, 0); add(4, "b", -1, 0); add(4, "3", 3, 1); add(6, "b6b", 1, 0); }
    }
    Options o; o.stall = 120; o.jobTimeout = thorough ? 4000 : 300;
    return run(argc, argv, jobs, o);
}
