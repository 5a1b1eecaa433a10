// C03: the parallel algorithms under every schedule (bounded), with race detection. C04: thread limits.
#include "pkit.hpp"
#include "fft.hpp"
#include <omp.h>

static std::string schedName(int pre) { return pre < 0 ? "all schedules" : "at most " + std::to_string(pre) + " preemptions"; }
static void finish(Ctx &c, const mcrt::Result &r, const std::string &what, int pre) {
    c.eval(r.execs); c.state(r.decisions); c.trans(r.points); c.nontrivial(r.execs - r.redundant);
    c.sample("%s, %s: %llu schedules, %llu decisions, depth %llu%s", what.c_str(), schedName(pre).c_str(), (unsigned long long)r.execs, (unsigned long long)r.decisions, (unsigned long long)r.maxDepth, r.complete ? "" : " (time cap)");
    if (!r.complete) c.s->capped = 1;
    if (!r.key.empty()) c.viol(what.substr(0, what.find(' ')) + ":" + r.key, "%s: %s [schedule %s]", what.c_str(), r.text.c_str(), r.schedule.c_str());
}
static mcrt::Options opts(Ctx &c, int pre) { mcrt::Options o; o.preempt = pre; o.sleep = pre < 0; o.maxSeconds = c.thorough ? 2500 : 100; return o; }
static void warm(unsigned cpu) { mcrt::ncpu = cpu; mcrt::once([] { ThreadPool::defaultPool(); mcrt::makePermanent(); }); }

// ---- C03 -------------------------------------------------------------------------------
static void job_fft(Ctx &c, uint64_t p, unsigned cpu, size_t m, size_t n, int pre, int what) {
    Zp::setPrime(p);
    warm(cpu);
    typedef std::vector<uint64_t> V;
    FFT<Zp> *ready = 0;
    static Zp::Element a[256];
    mcrt::once([&] { ready = new FFT<Zp>(m); });
    V want;      // of the construction: the roots; of the transform: the values under the default schedule
    auto roots = [&](FFT<Zp> &f) { V v; int k = 0; while ((2ull << k) <= m) k++; for (size_t i = 0; i < (1ull << k); i++) v.push_back(Zp::num(f.root(k, i))); return v; };
    if (what == 0) { V r = roots(*ready); uint64_t x = 1, w = m > 1 ? r[1] : 1; for (size_t i = 0; i < r.size(); i++) { want.push_back(x); x = x * w % p; } }
    else {
        auto &f = *ready;
        int k = 0; while ((1ull << k) < n) k++;
        for (size_t j = 0; j < n; j++) {
            uint64_t s = 0;
            for (size_t i = 0; i < n; i++) { uint64_t e = i * j % n; if (what == 2) e = (n - e) % n; s = (s + (3 * i + 1) * Zp::num(f.root(k, e))) % p; }
            want.push_back(what == 2 ? s * Zp::powmod(n, p - 2) % p : s);
        }
    }
    auto body = [&] {
        if (what == 0) { FFT<Zp> f(m); if (roots(f) != want) mcrt::fail("result", "the roots differ under this schedule"); return; }
        for (size_t i = 0; i < n; i++) a[i] = Zp::mk(3 * i + 1);
        if (what == 1) ready->fft(a, n); else ready->ifft(a, n);
        V v; for (size_t i = 0; i < n; i++) v.push_back(Zp::num(a[i]));
        if (v != want) mcrt::fail("result", "the result differs under this schedule");
    };
    char t[160]; snprintf(t, sizeof t, "%s F%llu processors=%u created for %zu n=%zu", what == 0 ? "create" : what == 1 ? "fft" : "ifft", (unsigned long long)p, cpu, m, n);
    finish(c, mcrt::explore(opts(c, pre), body, [&](const std::string &s) { c.cur("%s schedule %s", t, s.c_str()); }), t, pre);
}

static void job_sum(Ctx &c, int kind, unsigned thr, size_t n, size_t w, int pre) { // kind 0 msm, 1 multiexp, 2 strided
    G *g = pickCurve(13);
    Zp f; int gen = g->best();
    Cv *cv = g->curve(f, gen);
    std::vector<std::vector<int>> mul; for (int i = 0; i < g->size(); i++) mul.push_back(g->multiples(i));
    warm(thr);
    Input in(n, w);
    for (size_t i = 0; i < n; i++) { in.base[i] = i % 4 == 3 ? 0 : mul[gen][(5 * i + 1) % mul[gen].size()]; for (size_t k = 0; k < w; k++) in.sc[i * w + k] = (uint8_t)(0x9D * (i + 1) * (k + 3) + (k & 1 ? 0xC0 : 7)); }
    std::vector<A> b(n); for (size_t i = 0; i < n; i++) g->affine(b[i], in.base[i]);
    static uint64_t x[2]; x[0] = (n + 1) / 2; x[1] = n / 2 > 1 ? n / 2 - 1 : 0;
    std::function<bool(size_t)> sel; if (kind == 2) sel = [&](size_t i) { return i / 2 < x[i % 2]; };
    int want = expect(*g, mul, in, sel);
    static P res;
    auto body = [&] {
        memset((void *)&res, 0xFE, sizeof res);
        if (kind == 0) { MSM<Cv, Zp> m(*cv); m.run(res, b.data(), in.sc.data(), w, n); }
        else if (kind == 1) { ParallelMultiexp<Cv> m(*cv); m.multiexp(res, b.data(), in.sc.data(), w, n, thr); }
        else { ParallelMultiexp<Cv> m(*cv); m.multiexp(res, b.data(), in.sc.data(), w, n, (uint64_t)2, x, thr); }
        if (g->which(res) != want) mcrt::fail("result", "the result differs under this schedule");
    };
    char t[160]; snprintf(t, sizeof t, "%s threads=%u n=%zu width=%zu", kind == 0 ? "msm" : kind == 1 ? "multiexp" : "strided", thr, n, w);
    finish(c, mcrt::explore(opts(c, pre), body, [&](const std::string &s) { c.cur("%s schedule %s", t, s.c_str()); }), t, pre);
}

// every configuration of a range once forwards and once backwards, race detection on
static void job_sweep(Ctx &c, int kind, unsigned thr, size_t maxN) {
    for (size_t n = 1; n <= maxN; n++) for (int dir : {1, -1}) {
        c.eval(); c.state(); c.nontrivial();
        std::string what, key, text;
        mcrt::Result r;
        if (kind <= 1) {
            if (n & (n - 1)) continue;
            Zp::setPrime(257); mcrt::ncpu = thr;
            static Zp::Element a[256];
            what = "processors=" + std::to_string(thr) + " size " + std::to_string(n);
            for (size_t m = n; m <= 2 * n; m *= 2) {
                c.cur("sweep %s", what.c_str());
                r = mcrt::once([&] {
                    if (!dir) return;
                    { ThreadPool::defaultPool(); }
                    FFT<Zp> f(m);
                    for (size_t i = 0; i < n; i++) a[i] = Zp::mk(3 * i + 1);
                    if (kind == 0) { f.fft(a, n); f.ifft(a, n); } else { f.ifft(a, n); f.fft(a, n); }
                    for (size_t i = 0; i < n; i++) if (Zp::num(a[i]) != (3 * i + 1) % 257) mcrt::fail("result", "the transform and its inverse do not give the input back");
                    mcrt::makePermanent();
                }, dir);
                if (!r.key.empty()) break;
            }
        } else {
            static G *g = pickCurve(13);
            static Zp f; static int gen = g->best();
            static Cv *cv = g->curve(f, gen);
            static std::vector<std::vector<int>> mul; if (mul.empty()) for (int i = 0; i < g->size(); i++) mul.push_back(g->multiples(i));
            mcrt::ncpu = thr;
            Input in(n, 8 + n % 3);
            for (size_t i = 0; i < n; i++) { in.base[i] = i % 4 == 3 ? 0 : mul[gen][(5 * i + 1) % mul[gen].size()]; for (size_t k = 0; k < in.w; k++) in.sc[i * in.w + k] = (uint8_t)(0x9D * (i + 1) * (k + 3) + (k & 1 ? 0xC0 : 7)); }
            std::vector<A> b(n); for (size_t i = 0; i < n; i++) g->affine(b[i], in.base[i]);
            uint64_t x[3] = {(n + 2) / 3, n / 6, 0};
            std::function<bool(size_t)> sel; if (kind == 4) sel = [&](size_t i) { return i / 3 < x[i % 3]; };
            int want = expect(*g, mul, in, sel);
            static P res;
            what = "threads=" + std::to_string(thr) + " " + in.str();
            c.cur("sweep %s", what.c_str());
            r = mcrt::once([&] {
                memset((void *)&res, 0xFE, sizeof res);
                if (kind == 2) { MSM<Cv, Zp> m(*cv); m.run(res, b.data(), in.sc.data(), in.w, n); mcrt::makePermanent(); }
                else if (kind == 3) { ParallelMultiexp<Cv> m(*cv); m.multiexp(res, b.data(), in.sc.data(), in.w, n, thr); }
                else { ParallelMultiexp<Cv> m(*cv); m.multiexp(res, b.data(), in.sc.data(), in.w, n, (uint64_t)3, x, thr); }
                if (g->which(res) != want) mcrt::fail("result", "the result is wrong");
            }, dir);
        }
        c.trans(r.points);
        const char *kn[] = {"fft", "ifft", "msm", "multiexp", "strided"};
        if (!r.key.empty()) c.viol(std::string("sweep-") + kn[kind] + ":" + r.key, "%s: %s", what.c_str(), r.text.c_str());
    }
    c.sample("sweep of kind %d, %u threads, every size up to %zu, both directions", kind, thr, maxN);
}

// ---- C05: two threads each use the library, on one transform object, one curve object and the default pool
static const char *useName[] = {"create", "fft", "ifft", "msm", "multiexp", "strided"};
static void job_clients(Ctx &c, int ka, int kb, unsigned cpu, size_t n, int pre, bool delays) {
    G *g = pickCurve(17);
    Zp f; int gen = g->best();
    Cv *cv = g->curve(f, gen);
    std::vector<std::vector<int>> mul; for (int i = 0; i < g->size(); i++) mul.push_back(g->multiples(i));
    warm(cpu);
    FFT<Zp> *ready = 0;
    mcrt::once([&] { ready = new FFT<Zp>(16); mcrt::makePermanent(); });
    typedef std::vector<uint64_t> V;
    size_t fn = 1; while (fn * 2 <= n) fn *= 2;
    int k = 0; while ((1ull << k) < fn) k++;
    V in[2], out[3][2], rts; Input is[2] = {Input(n, 8), Input(n, 8)}; std::vector<A> base[2]; int sum[2], part[2];
    static uint64_t x[2]; x[0] = (n + 1) / 2; x[1] = n / 2 > 1 ? n / 2 - 1 : 0;
    for (int w = 0; w < 2; w++) {
        for (size_t i = 0; i < fn; i++) in[w].push_back((3 * i + 1 + 5 * w) % 17);
        for (int what = 1; what <= 2; what++) for (size_t j = 0; j < fn; j++) {
            uint64_t s = 0;
            for (size_t i = 0; i < fn; i++) { uint64_t e = i * j % fn; if (what == 2) e = (fn - e) % fn; s = (s + in[w][i] * Zp::num(ready->root(k, e))) % 17; }
            out[what][w].push_back(what == 2 ? s * Zp::powmod(fn, 15) % 17 : s);
        }
        for (size_t i = 0; i < n; i++) { is[w].base[i] = mul[gen][(5 * i + 1 + 2 * w) % mul[gen].size()]; is[w].sc[i * 8] = 0x91 + 7 * i + 11 * w; }
        base[w].resize(n); for (size_t i = 0; i < n; i++) g->affine(base[w][i], is[w].base[i]);
        sum[w] = expect(*g, mul, is[w]);
        part[w] = expect(*g, mul, is[w], [&](size_t i) { return i / 2 < x[i % 2]; });
    }
    for (size_t i = 0; i < 4; i++) rts.push_back(Zp::num(ready->root(2, i)));
    static Zp::Element a[2][16]; static P res[2];
    auto use = [&](int kind, int w) {
        if (kind == 0) { FFT<Zp> f(4); for (size_t i = 0; i < 4; i++) if (Zp::num(f.root(2, i)) != rts[i]) mcrt::fail("result", "the roots differ when another thread uses the library"); }
        else if (kind <= 2) {
            for (size_t i = 0; i < fn; i++) a[w][i] = Zp::mk(in[w][i]);
            if (kind == 1) ready->fft(a[w], fn); else ready->ifft(a[w], fn);
            for (size_t i = 0; i < fn; i++) if (Zp::num(a[w][i]) != out[kind][w][i]) mcrt::fail("result", "a transform differs when another thread uses the library");
        } else {
            memset((void *)&res[w], 0xFE, sizeof(P));
            if (kind == 3) { MSM<Cv, Zp> m(*cv); m.run(res[w], base[w].data(), is[w].sc.data(), 8, n); }
            else if (kind == 4) { ParallelMultiexp<Cv> m(*cv); m.multiexp(res[w], base[w].data(), is[w].sc.data(), 8, n, cpu); }
            else { ParallelMultiexp<Cv> m(*cv); m.multiexp(res[w], base[w].data(), is[w].sc.data(), 8, n, (uint64_t)2, x, cpu); }
            if (g->which(res[w]) != (kind == 5 ? part[w] : sum[w])) mcrt::fail("result", "a sum differs when another thread uses the library");
        }
    };
    auto body = [&] {
        std::thread t([&] { use(kb, 1); });
        use(ka, 0);
        t.join();
    };
    char t[160]; snprintf(t, sizeof t, "%s|%s processors=%u n=%zu%s", useName[ka], useName[kb], cpu, n, delays ? ", bound on deviations instead of preemptions" : "");
    mcrt::Options o = opts(c, pre); o.delays = delays; o.maxSeconds = c.thorough ? 1500 : 60;
    finish(c, mcrt::explore(o, body, [&](const std::string &s) { c.cur("%s schedule %s", t, s.c_str()); }), t, pre);
}

// ---- C04 -------------------------------------------------------------------------------
// one call: kind 1 multiexp, 2 strided, with a limit (0 = none) and a number of points; a history is a list of calls
struct Call { int kind; unsigned limit; size_t n; };
static void job_limit(Ctx &c, unsigned own, int depth, bool before) {
    G *g = pickCurve(13);
    Zp f; int gen = g->best();
    Cv *cv = g->curve(f, gen);
    std::vector<std::vector<int>> mul; for (int i = 0; i < g->size(); i++) mul.push_back(g->multiples(i));
    mcrt::ncpu = 4;
    std::vector<Call> al;
    for (int k : {1, 2}) for (unsigned l : {0u, 1u, 2u, 3u, 6u, 9u}) for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)9}) if (depth == 1 || (l != 3 && n != 3 && (l != 9 || n == 2))) al.push_back({k, l, n});
    size_t total = 1; for (int i = 0; i < depth; i++) total *= al.size();
    static P res; static uint64_t x[2] = {5, 3};
    for (size_t h = 0; h < total; h++) {
        std::string t = "own setting " + std::to_string(own) + ":"; size_t q = h;
        std::vector<Call> hist; for (int i = 0; i < depth; i++) { hist.push_back(al[q % al.size()]); q /= al.size(); }
        for (auto &k : hist) t += std::string(k.kind == 1 ? " multiexp" : " strided") + "(n=" + std::to_string(k.n) + ",limit=" + std::to_string(k.limit) + ")";
        c.cur("%s", t.c_str()); c.eval(); c.state();
        std::string key, text;
        auto r = mcrt::once([&] {
            if (own) omp_set_num_threads(own);
            int mine = omp_get_max_threads();
            // the limits of the outer calls, nested around the calls of the history
            std::unique_ptr<ThreadLimit> outer;
            if (before) { outer.reset(new ThreadLimit(2)); }
            int now = omp_get_max_threads();
            if (before && now != 2) { key = "limit:not-set"; text = "a limit of 2 gives " + std::to_string(now); }
            for (auto &k : hist) {
                Input in(k.n, 8);
                std::vector<A> b(k.n + 1);
                for (size_t i = 0; i < k.n; i++) { in.base[i] = gen; g->affine(b[i], gen); in.sc[i * 8] = 200 + i; in.sc[i * 8 + 5] = 3; }
                mcrt::teamSizes.clear();
                { ParallelMultiexp<Cv> m(*cv); if (k.kind == 1) m.multiexp(res, b.data(), in.sc.data(), 8, k.n, k.limit); else m.multiexp(res, b.data(), in.sc.data(), 8, k.n, (uint64_t)2, x, k.limit); }
                int lim = k.limit ? (int)k.limit : now;
                std::function<bool(size_t)> sel; if (k.kind == 2) sel = [&](size_t i) { return i / 2 < x[i % 2]; };
                if (g->which(res) != expect(*g, mul, in, sel)) { key = "limit:result"; text = "wrong sum"; }
                int big = 0; for (int s : mcrt::teamSizes) big = std::max(big, s);
                if (big > lim) { key = "limit:exceeded"; text = "a team of " + std::to_string(big) + " threads with a limit of " + std::to_string(lim); }
                if (k.n >= 2 && lim > 1) c.nontrivial();
                if (omp_get_max_threads() != now) { key = "limit:not-restored"; text = "setting " + std::to_string(omp_get_max_threads()) + " after the call, " + std::to_string(now) + " before"; break; }
                c.trans(mcrt::teamSizes.size() + 1);
            }
            outer.reset();
            if (key.empty() && omp_get_max_threads() != mine) { key = "limit:outer-not-restored"; text = "setting " + std::to_string(omp_get_max_threads()) + ", was " + std::to_string(mine); }
        });
        if (!r.key.empty()) { key = "limit:" + r.key; text = r.text; }
        if (!key.empty()) c.viol(key, "%s %s", t.c_str(), text.c_str());
    }
    c.sample("own setting %u%s, every history of %d calls out of %zu", own, before ? ", under an outer limit of 2" : "", depth, al.size());
}
// nested limits alone: every sequence of set / release up to the depth, and leaving by an exception
static void job_nest(Ctx &c, int depth) {
    mcrt::ncpu = 4;
    const unsigned L[] = {1, 2, 5, 11};
    size_t total = 1; for (int i = 0; i < depth; i++) total *= 5;
    for (size_t h = 0; h < total; h++) for (int thrown = 0; thrown < 2; thrown++) {
        c.eval(); c.state(); c.nontrivial();
        std::string key, text, t = thrown ? "left by an exception:" : "sequence:";
        auto r = mcrt::once([&] {
            omp_set_num_threads(7);
            std::vector<int> model = {7};
            std::vector<std::unique_ptr<ThreadLimit>> st;
            size_t q = h;
            try {
                for (int i = 0; i < depth; i++) {
                    int k = q % 5; q /= 5;
                    if (k < 4) { st.emplace_back(new ThreadLimit(L[k])); model.push_back(L[k]); t += " limit " + std::to_string(L[k]); }
                    else if (!st.empty()) { st.pop_back(); model.pop_back(); t += " release"; }
                    c.trans();
                    if (omp_get_max_threads() != model.back()) { key = "nest:value"; text = "setting " + std::to_string(omp_get_max_threads()) + ", expected " + std::to_string(model.back()); break; }
                    mcrt::teamSizes.clear();
                    #pragma omp parallel
                    { volatile int z = 0; (void)z; }
                    if (mcrt::teamSizes.empty() || mcrt::teamSizes.back() != model.back()) { key = "nest:team"; text = "team differs from the setting"; }
                }
                if (thrown) { ThreadLimit l(3); throw 1; }
            } catch (int) { if (omp_get_max_threads() != model.back()) { key = "nest:exception"; text = "not restored when an exception leaves the scope"; } }
            while (!st.empty()) st.pop_back();
            if (key.empty() && omp_get_max_threads() != 7) { key = "nest:end"; text = "setting " + std::to_string(omp_get_max_threads()); }
        });
        c.cur("%s", t.c_str());
        if (!r.key.empty()) { key = "nest:" + r.key; text = r.text; }
        if (!key.empty()) c.viol(key, "%s %s", t.c_str(), text.c_str());
    }
    c.sample("every sequence of %d limits and releases, 4 limit values", depth);
}

int main(int argc, char **argv) {
    std::string g = argc > 1 ? argv[1] : "";
    bool th = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    auto nm = [](const char *f, long a, long b, long d = 0, long e = 0) { char s[100]; snprintf(s, sizeof s, f, a, b, d, e); return std::string(s); };
    if (g == "races") {
        int d = th ? 1 : 0;
        for (unsigned cpu : {1, 2, 3, 4, 5, 8}) for (size_t m : {1, 2, 4, 8, 16, 32}) {
            int pre = cpu <= 2 ? -1 : cpu == 3 ? (th ? -1 : 2) : cpu == 4 ? 1 + d : cpu == 5 ? 1 : (d ? 1 : 0);
            jobs.push_back({nm("create-%ld-cpu%ld", m, cpu), [=](Ctx &c) { job_fft(c, 97, cpu, m, m, pre, 0); }});
        }
        for (unsigned cpu : {2, 3, 4, 6}) for (size_t n : {1, 2, 4, 8, 16}) for (int what : {1, 2}) {
            int pre = cpu == 2 ? (n <= 4 ? -1 : 2 + d) : cpu == 3 ? (n <= 4 ? 2 : 1 + d) : cpu == 4 ? (n <= 4 ? 1 : 0) : (n <= 2 ? 1 : 0);
            if (((cpu == 6 && n > 4) || (cpu == 4 && n > 8)) && !th) continue;
            jobs.push_back({nm(what == 1 ? "fft-%ld-cpu%ld" : "ifft-%ld-cpu%ld", n, cpu), [=](Ctx &c) { job_fft(c, 97, cpu, 32, n, pre, what); }});
        }
        for (unsigned t : {2, 3, 4, 6}) for (size_t n : {0, 1, 2, 3, 5, 8}) {
            int pre = t == 2 ? (th ? -1 : 3) : t == 3 ? 2 : t == 4 ? 1 + d : d;
            if (t == 6 && n > 3 && !th) continue;
            jobs.push_back({nm("msm-%ld-cpu%ld", n, t), [=](Ctx &c) { job_sum(c, 0, t, n, n == 3 ? 11 : 8, pre); }});
        }
        for (int kind : {1, 2}) for (unsigned t : {2, 3, 4}) for (size_t n : {0, 1, 2, 3, 5, 9, 17}) {
            jobs.push_back({nm(kind == 1 ? "multiexp-%ld-t%ld" : "strided-%ld-t%ld", n, t), [=](Ctx &c) { job_sum(c, kind, t, n, 8, -1); }});
        }
        for (int kind = 0; kind < 5; kind++) for (unsigned t = 1; t <= (th ? 20u : 12u); t++)
            jobs.push_back({nm("sweep-%ld-t%ld", kind, t), [=](Ctx &c) { job_sweep(c, kind, t, kind < 2 ? (th ? 256 : 128) : th ? 80 : 36); }});
    } else if (g == "clients") {
        for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) for (unsigned cpu : {1, 2, 3}) for (size_t n : {2, 4}) {
            bool omp = b >= 4, msm = b == 3, big = cpu == 3 && (msm || n == 4), dl = omp || (big && !th);
            int pre = omp ? (th ? 2 : 1) : dl ? 2 : big ? 1 : cpu <= 2 && n == 2 && (!msm || th) ? -1 : 1;
            char t[100]; snprintf(t, sizeof t, "%s-%s-cpu%u-n%zu-%s%d", useName[a], useName[b], cpu, n, dl ? "d" : "p", pre);
            jobs.push_back({t, [=](Ctx &c) { job_clients(c, a, b, cpu, n, pre, dl); }});
        }
    } else {
        for (unsigned own : {0, 1, 2, 5}) for (bool b : {false, true}) {
            jobs.push_back({nm("limit-%ld-%ld", own, b), [=](Ctx &c) { job_limit(c, own, 1, b); }});
            jobs.push_back({nm("limit2-%ld-%ld", own, b), [=](Ctx &c) { job_limit(c, own, 2, b); }});
        }
        for (int k = 1; k <= (th ? 7 : 5); k++) jobs.push_back({nm("nest-%ld", k, 0), [=](Ctx &c) { job_nest(c, k); }});
    }
    Options o; o.stall = 200; o.jobTimeout = th ? 4000 : 400;
    return run(argc, argv, jobs, o);
}
