#include "mcrt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <malloc.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <thread>
#include <mutex>
#include <unordered_map>
#include <deque>
#include <unistd.h>
#include <link.h>
#include <vector>
#include <sys/syscall.h>

extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t); }
namespace mcrt {

static const int MAXF = 48;
static const size_t STACK = 1 << 18;

struct VC {
    uint32_t c[MAXF];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC &o) { for (int i = 0; i < MAXF; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum OpKind { OpNone, OpStart, OpLock, OpTry, OpCondWait, OpRelock, OpSignal, OpCreate, OpJoin, OpAtomicR, OpAtomicW, OpBarrier, OpTeamJoin, OpYield, OpPoint, OpRdLock, OpWrLock, OpSem, OpGuard };
enum FState { Free, Ready, CondWait, Done };

struct Op { int kind = OpNone; const void *a = nullptr, *b = nullptr; };

struct Team;
struct Fiber {
    FState st = Free;
    void *sp = nullptr;
    char *stack = nullptr;
    Op op;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    bool detached = false, joined = false, permanent = false, yielded = false;
    bool spuriousWake = false, timedWait = false, timedOut = false;
    pthread_mutex_t *cmutex = nullptr;
    VC vc, fin;
    // OpenMP
    Team *team = nullptr;
    int tid = 0, level = 0;
    int icv = 0;
    uint64_t singleSeq = 0, loopSeq = 0, barSeq = 0;
    void (*ompfn)(void *) = nullptr;
    void *ompdata = nullptr;
};

struct Sync { // mutex, condition, atomic, barrier ...
    VC vc;
    int owner = -1;
    int readers = 0;
    int count = 0;
    uint64_t vcExec = 0, bornExec = 0;
    uint32_t gen = 1;
    bool used = false;
};

struct LoopWork { bool init = false; long next, end, incr, chunk; bool up; int finished = 0; };
struct Team {
    int n = 1;
    int arrived = 0;
    uint64_t barGen = 0;
    VC barVC;
    VC barNext;
    std::unordered_map<uint64_t, LoopWork> loops;
    std::unordered_map<uint64_t, int> singles;
    void *copy = nullptr;
};

static Fiber F[MAXF];
static int cur = 0;               // running fiber
static void *mainSp = nullptr;    // explorer context
static bool active = false;       // inside an execution
static uint64_t execNo = 0;
static std::deque<Sync> syncs;
static std::vector<uint32_t> freeSyncs;
static std::vector<uint32_t> bornSyncs;
// the runtime's own table stays out of the tracked heap: operator delete looks into it
template<class T> struct RawAlloc {
    using value_type = T;
    RawAlloc() {}
    template<class U> RawAlloc(const RawAlloc<U> &) {}
    T *allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
    void deallocate(T *p, size_t) { __libc_free(p); }
    template<class U> bool operator==(const RawAlloc<U> &) const { return true; }
    template<class U> bool operator!=(const RawAlloc<U> &) const { return false; }
};
static std::unordered_map<const void *, uint32_t, std::hash<const void *>, std::equal_to<const void *>, RawAlloc<std::pair<const void *const, uint32_t>>> addrSync;
static std::unordered_map<const void *, uint32_t, std::hash<const void *>, std::equal_to<const void *>, RawAlloc<std::pair<const void *const, uint32_t>>> addrName;
// Objects are told apart by the order in which an execution first names them: their addresses differ from run to run
static const void *named(const void *p) {
    if ((uintptr_t)p < 4096) return p;
    auto it = addrName.find(p);
    if (it == addrName.end()) it = addrName.emplace(p, (uint32_t)addrName.size()).first;
    return (const void *)(uintptr_t)(4096 + it->second);
}
static bool failed = false;
static std::string failKey, failText;
static int nCreated = 0;
unsigned ncpu = 2;
Sizes teamSizes;
bool raceCheck = true;
static int ompDefault = 0;

// ---- decisions -------------------------------------------------------------------------
struct Opt { int id; Op op; int cost; };
struct Node {
    std::vector<Opt> opts;
    int chosen = 0;
    int pre = 0;          // preemptions before this node
    std::vector<char> done;
    std::vector<Opt> sleep;
    bool data = false;
};
static std::vector<Node> stackN;
static size_t depth = 0;
static int preUsed = 0, spurLeft = 0;
static std::vector<Opt> curSleep;
static bool freeRun = false, quickRun = false;
static Options O;
static uint64_t steps = 0;
static Result R;
static int defaultDir = 1;

extern "C" void mcrt_switch(void **save, void *to);
asm(R"(
.text
.globl mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcrt_switch,.-mcrt_switch
)");

// ---- thread-local storage --------------------------------------------------------------
// All fibers live in one OS thread: the thread-local blocks of the program and of the C++ library are exchanged
// with every switch. A thread-local variable thus has the same address in every fiber and is exempt from the race check.
struct TlsMod { char *live; size_t size; const char *image; size_t init; bool prog; };
static TlsMod tlsMods[8];
static int nTls = -1;
static size_t tlsSize = 0;
static char *tlsSave[MAXF + 1];      // by fiber; MAXF: the explorer
static uintptr_t tlsLo = ~(uintptr_t)0, tlsHi = 0;      // of all modules: errno and the like are exempt as well
static int tlsFind(struct dl_phdr_info *i, size_t, void *) {
    bool prog = !i->dlpi_name || !*i->dlpi_name;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
        uintptr_t a = (uintptr_t)i->dlpi_tls_data, e = a + i->dlpi_phdr[k].p_memsz;
        if (a < tlsLo) tlsLo = a;
        if (e > tlsHi) tlsHi = e;
    }
    if (!prog && !strstr(i->dlpi_name, "libstdc++")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && nTls < 8) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k];
        tlsMods[nTls++] = {(char *)i->dlpi_tls_data, h.p_memsz, (const char *)(i->dlpi_addr + h.p_vaddr), h.p_filesz, prog};
        tlsSize += h.p_memsz;
    }
    return 0;
}
static void tlsFresh(int f) {
    if (nTls < 0) { nTls = 0; dl_iterate_phdr(tlsFind, nullptr); }
    if (!tlsSize) return;
    if (!tlsSave[f]) tlsSave[f] = (char *)__libc_malloc(tlsSize);
    char *d = tlsSave[f];
    for (int i = 0; i < nTls; i++) { memcpy(d, tlsMods[i].image, tlsMods[i].init); memset(d + tlsMods[i].init, 0, tlsMods[i].size - tlsMods[i].init); d += tlsMods[i].size; }
}
static void tlsSwap(int from, int to) {
    if (!tlsSize) return;
    if (!tlsSave[from]) tlsSave[from] = (char *)__libc_malloc(tlsSize);
    char *a = tlsSave[from], *b = tlsSave[to];
    for (int i = 0; i < nTls; i++) { memcpy(a, tlsMods[i].live, tlsMods[i].size); memcpy(tlsMods[i].live, b, tlsMods[i].size); a += tlsMods[i].size; b += tlsMods[i].size; }
}
struct AtEnd { void (*fn)(void *); void *obj; };
static std::vector<AtEnd> atEnd[MAXF];
static void *specific[MAXF][64];
static void (*keyDtor[64])(void *);
static int nKeys = 0;
static void threadEnd(int f) {
    while (!atEnd[f].empty()) { AtEnd a = atEnd[f].back(); atEnd[f].pop_back(); a.fn(a.obj); }
    for (int round = 0; round < 4; round++) for (int k = 0; k < nKeys; k++) if (specific[f][k] && keyDtor[k]) { void *v = specific[f][k]; specific[f][k] = nullptr; keyDtor[k](v); }
}

// a permanent thread may be the one that ends the execution: it goes on here in the next one
static void toMain() { tlsSwap(cur, MAXF); mcrt_switch(&F[cur].sp, mainSp); }

static void stop(const std::string &k, const std::string &t) {
    if (!failed) { failed = true; failKey = k; failText = t; }
    toMain();
    abort();
}
void fail(const std::string &k, const std::string &t) {
    if (!active) { fprintf(stderr, "fail outside execution: %s %s\n", k.c_str(), t.c_str()); abort(); }
    stop(k, t);
}

static uint32_t newSync() {
    uint32_t i;
    if (!freeSyncs.empty()) { i = freeSyncs.back(); freeSyncs.pop_back(); }
    else { i = syncs.size(); syncs.emplace_back(); }
    Sync &s = syncs[i];
    s.vc.clear(); s.owner = -1; s.readers = 0; s.count = 0; s.vcExec = execNo; s.bornExec = execNo; s.used = true;
    if (active && execNo) bornSyncs.push_back(i);
    return i;
}
// sync object whose identity is stored in its own memory (zero = fresh)
static Sync &embedded(void *p) {
    uint32_t *w = (uint32_t *)p;
    if (w[0] == 0 || w[0] > syncs.size() || syncs[w[0] - 1].gen != w[1] || !syncs[w[0] - 1].used) {
        uint32_t i = newSync();
        w[0] = i + 1; w[1] = syncs[i].gen;
    }
    Sync &s = syncs[w[0] - 1];
    if (s.vcExec != execNo) { s.vc.clear(); s.vcExec = execNo; }
    return s;
}
static Sync &byAddr(const void *p) {
    auto it = addrSync.find(p);
    uint32_t i;
    if (it == addrSync.end()) { i = newSync(); addrSync[p] = i; }
    else i = it->second;
    Sync &s = syncs[i];
    if (s.vcExec != execNo) { s.vc.clear(); s.vcExec = execNo; }
    return s;
}
static void acquire(Sync &s) { F[cur].vc.join(s.vc); }
static void release(Sync &s) { s.vc.join(F[cur].vc); F[cur].vc.c[cur]++; }

static bool enabled(int f) {
    Fiber &x = F[f];
    if (x.st != Ready) return false;
    switch (x.op.kind) {
    case OpLock: case OpRelock: case OpWrLock: { Sync &s = embedded((void *)x.op.a); return s.owner < 0 && s.readers == 0; }
    case OpRdLock: return embedded((void *)x.op.a).owner < 0;
    case OpGuard: return byAddr(x.op.a).owner < 0;
    case OpSem: return embedded((void *)x.op.a).count > 0;
    case OpJoin: return F[(int)(intptr_t)x.op.a - 1].st == Done;
    case OpTeamJoin: {
        Team *t = (Team *)x.op.a;
        for (int i = 0; i < MAXF; i++) if (i != f && F[i].team == t && F[i].st != Done && F[i].st != Free) return false;
        return true;
    }
    case OpBarrier: { Team *t = (Team *)x.op.a; return x.barSeq < t->barGen; }
    default: return true;
    }
}

static bool dependent(const Op &x, const Op &y) {
    auto ro = [](const Op &o) { return o.kind == OpAtomicR; };
    if (x.kind == OpCreate && y.kind == OpCreate) return true;
    if (ro(x) && ro(y)) return false;
    const void *xs[2] = {x.a, x.b}, *ys[2] = {y.a, y.b};
    for (auto p : xs) for (auto q : ys) if (p && p == q) return true;
    return false;
}

static std::string schedText() {
    std::string s;
    for (size_t i = 0; i < stackN.size() && i < depth; i++) {
        if (stackN[i].opts.size() < 2) continue;
        char b[32]; snprintf(b, sizeof b, "%zu:%d ", i, stackN[i].opts[stackN[i].chosen].id);
        s += b;
        if (s.size() > 900) { s += "..."; break; }
    }
    return s;
}

static bool diverged = false;
static int decide(std::vector<Opt> &opts, bool data) {
    R.points++;
    if (++steps > (uint64_t)O.maxSteps) stop("livelock", "the execution does not end");
    if (freeRun || quickRun) return 0;
    if (depth < stackN.size()) {
        Node &n = stackN[depth];
        bool same = n.opts.size() == opts.size() && n.data == data;
        for (size_t i = 0; same && i < opts.size(); i++) same = n.opts[i].id == opts[i].id;
        if (!same) {
            // the code keeps state across executions (something initialised at first use, a cache): finish this
            // execution without branching and start the exploration anew from the state reached
            diverged = true; freeRun = true;
            return 0;
        }
        depth++;
        preUsed = n.pre + n.opts[n.chosen].cost;
        if (O.sleep) {
            std::vector<Opt> ns;
            if (data) ns = n.sleep;
            else {
                for (auto &z : n.sleep) if (!dependent(z.op, n.opts[n.chosen].op)) ns.push_back(z);
                for (size_t i = 0; i < n.opts.size(); i++) if (n.done[i] && (int)i != n.chosen && !dependent(n.opts[i].op, n.opts[n.chosen].op)) ns.push_back(n.opts[i]);
            }
            curSleep = ns;
        }
        return n.chosen;
    }
    Node n;
    n.opts = opts; n.pre = preUsed; n.data = data; n.done.assign(opts.size(), 0);
    n.sleep = curSleep;
    int c = -1;
    for (size_t i = 0; i < opts.size() && c < 0; i++) {
        bool asleep = false;
        if (O.sleep && !data) for (auto &z : n.sleep) if (z.id == opts[i].id) asleep = true;
        if (asleep) continue;
        if (O.preempt >= 0 && preUsed + opts[i].cost > O.preempt) continue;
        c = i;
    }
    if (c < 0) { // everything here was explored elsewhere: finish the execution without branching
        freeRun = true; R.redundant++;
        return 0;
    }
    n.chosen = c;
    stackN.push_back(n);
    depth++;
    R.decisions++;
    if (depth > R.maxDepth) R.maxDepth = depth;
    preUsed = n.pre + n.opts[c].cost;
    if (O.sleep && !data) {
        std::vector<Opt> ns;
        for (auto &z : n.sleep) if (!dependent(z.op, n.opts[c].op)) ns.push_back(z);
        curSleep = ns;
    }
    return c;
}

// The running fiber has announced F[cur].op (or is blocked / done): pick who goes on.
static void schedule() {
    for (;;) {
        std::vector<Opt> opts;
        bool curOn = enabled(cur);
        bool curYield = F[cur].yielded;
        F[cur].yielded = false;
        if (curOn && !curYield) opts.push_back({cur, F[cur].op, 0});
        for (int k = 0; k < MAXF; k++) {
            int f = defaultDir > 0 ? k : MAXF - 1 - k;
            if (f == cur || F[f].st == Free || !enabled(f)) continue;
            opts.push_back({f, F[f].op, curOn && !curYield ? 1 : 0});
        }
        if (curOn && curYield) opts.push_back({cur, F[cur].op, 0});
        bool any = !opts.empty();
        for (int f = 0; f < MAXF; f++)
            if (F[f].st == CondWait) {
                if (F[f].timedWait && !any) opts.push_back({f + 2 * MAXF, F[f].op, 0});
                else if (spurLeft > 0 && any) opts.push_back({f + MAXF, F[f].op, 0});
            }
        if (opts.empty()) {
            // nobody can move: fine if the program ended and only permanent threads wait
            bool bad = F[0].st != Done;
            if (!bad) { toMain(); if (enabled(cur)) return; continue; }
            std::string t = "no thread can make progress:";
            for (int f = 0; f < MAXF; f++)
                if (F[f].st == Ready || F[f].st == CondWait) {
                    char b[80]; snprintf(b, sizeof b, " thread %d %s", f, F[f].st == CondWait ? "waits for a signal" : F[f].op.kind == OpJoin ? "waits for a thread to end" : F[f].op.kind == OpBarrier ? "waits at a barrier" : "waits for a lock");
                    t += b;
                }
            stop("deadlock", t);
        }
        if (O.sleep) for (auto &o : opts) { o.op.a = named(o.op.a); o.op.b = named(o.op.b); }
        if (O.delays) for (size_t i = 0; i < opts.size(); i++) opts[i].cost = i > 0;
        int c = decide(opts, false);
        int id = opts[c].id;
        if (id >= MAXF) { // wake a waiting thread without a signal
            int f = id % MAXF;
            if (id >= 2 * MAXF) F[f].timedOut = true; else spurLeft--;
            F[f].st = Ready;
            F[f].op = {OpRelock, F[f].cmutex, nullptr};
            continue;
        }
        if (id != cur) {
            int old = cur;
            cur = id;
            tlsSwap(old, id);
            mcrt_switch(&F[old].sp, F[id].sp);
        }
        return;
    }
}

static void visible(int kind, const void *a, const void *b = nullptr) {
    if (!active) return;
    F[cur].op = {kind, a, b};
    schedule();
    F[cur].op.kind = OpNone;
}

static int chooseData(int n) {
    if (n < 2) return 0;
    std::vector<Opt> o;
    for (int i = 0; i < n; i++) o.push_back({i, Op(), 0});
    return decide(o, true);
}

// ---- fibers ----------------------------------------------------------------------------
static void shadowClear(const void *p, size_t n);
static void fiberMain() {
    Fiber &me = F[cur];
    try {
        if (me.ompfn) me.ompfn(me.ompdata);
        else me.ret = me.fn(me.arg);
    } catch (...) {
        stop("exception", "an exception escaped from a thread");
    }
    if (cur) threadEnd(cur);
    me.fin = me.vc;
    me.st = Done;
    F[cur].op.kind = OpNone;
    schedule();      // never comes back
    abort();
}

static uint64_t stackExec[MAXF];
static int spawn() {
    int f = -1;
    for (int i = 1; i < MAXF; i++) if (F[i].st == Free) { f = i; break; }
    if (f < 0) for (int i = 1; i < MAXF; i++) if (F[i].st == Done && (F[i].joined || F[i].detached)) { f = i; break; }
    if (f < 0) stop("internal:threads", "too many threads for the explorer");
    Fiber &x = F[f];
    char *st = x.stack;
    uint32_t base = x.vc.c[f];
    if (!st) {
        st = (char *)mmap(NULL, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(st, 4096, PROT_NONE);
        st += 4096;
    }
    x = Fiber();
    x.stack = st;
    x.vc.clear();
    x.fin.clear();
    if (active) {
        x.vc = F[cur].vc;
        F[cur].vc.c[cur]++;
    }
    x.vc.c[f] = base + 1;
    if (x.vc.c[f] == 0) x.vc.c[f] = 1;
    x.icv = F[cur].icv;
    void **sp = (void **)(st + STACK);
    sp -= 3; sp[0] = nullptr; // keeps the stack aligned at entry
    *--sp = (void *)fiberMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    x.sp = sp;
    x.st = Ready;
    tlsFresh(f); atEnd[f].clear(); memset(specific[f], 0, sizeof specific[f]);
    x.op = {OpStart, nullptr, nullptr};
    if (active && stackExec[f] == execNo) shadowClear(st, STACK);
    stackExec[f] = execNo;
    return f;
}

int liveThreads() {
    int n = 0;
    for (int i = 1; i < MAXF; i++) if (!F[i].permanent && (F[i].st == Ready || F[i].st == CondWait)) n++;
    return n;
}
int createdThreads() { return nCreated; }
int self() { return cur; }
void makePermanent() {
    for (int i = 1; i < MAXF; i++) if (F[i].st == Ready || F[i].st == CondWait) F[i].permanent = true;
    for (auto i : bornSyncs) syncs[i].bornExec = 0;
    bornSyncs.clear();
}
void point(const void *o) { visible(OpPoint, o); }

// ---- race detection --------------------------------------------------------------------
struct Cell { uint32_t clk; uint8_t tid, mask, write, pad; const void *pc; };
struct Gran { uintptr_t key; uint64_t exec; Cell c[6]; uint8_t n; };
static Gran *tab = nullptr;
static size_t tabSize = 0, tabUsed = 0;
static Gran *slot(uintptr_t key, bool make) {
    if (!tab) { tabSize = 1 << 14; tab = (Gran *)__libc_calloc(tabSize, sizeof(Gran)); }
    if (make && tabUsed * 2 > tabSize) {
        Gran *o = tab; size_t os = tabSize;
        tabSize *= 4; tab = (Gran *)__libc_calloc(tabSize, sizeof(Gran)); tabUsed = 0;
        for (size_t i = 0; i < os; i++) if (o[i].exec == execNo && o[i].key) {
            size_t h = (o[i].key * 0x9E3779B97F4A7C15ull) >> 20;
            while (tab[h & (tabSize - 1)].exec == execNo) h++;
            tab[h & (tabSize - 1)] = o[i]; tabUsed++;
        }
        __libc_free(o);
    }
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    for (;;) {
        Gran &g = tab[h & (tabSize - 1)];
        if (g.exec != execNo) {
            if (!make) return nullptr;
            g.key = key; g.exec = execNo; g.n = 0; tabUsed++;
            return &g;
        }
        if (g.key == key) return &g;
        h++;
    }
}
static void access1(uintptr_t key, uint8_t mask, bool w, const void *pc) {
    Gran *g = slot(key, true);
    Fiber &me = F[cur];
    int j = 0;
    for (int i = 0; i < g->n; i++) {
        Cell &c = g->c[i];
        if ((c.mask & mask) && c.tid != cur && (w || c.write) && c.clk > me.vc.c[c.tid]) {
            char b[256];
            snprintf(b, sizeof b, "thread %d %s and thread %d %s the same memory without synchronisation (code at %p and %p)", c.tid, c.write ? "writes" : "reads", cur, w ? "writes" : "reads", c.pc, pc);
            stop("race", b);
        }
        bool drop = w ? !(c.mask & ~mask) : (c.tid == cur && !c.write && !(c.mask & ~mask));
        if (!drop) g->c[j++] = c;
    }
    g->n = j;
    // an older own read covering these bytes needs no second record; keep it cheap
    if (g->n == 6) { memmove(g->c, g->c + 1, 5 * sizeof(Cell)); g->n = 5; }
    g->c[g->n++] = {me.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w, 0, pc};
}
static void access(const void *p, size_t n, bool w, const void *pc) {
    if (!active || !raceCheck) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= tlsLo && a < tlsHi) return;
    char *st = F[cur].stack;
    (void)st;
    while (n) {
        size_t o = a & 7, k = 8 - o < n ? 8 - o : n;
        access1(a >> 3, (uint8_t)(((1u << k) - 1) << o), w, pc);
        a += k; n -= k;
    }
}
static void shadowClear(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    if (!tab) return;
    if (e - a > tabSize) {
        for (size_t i = 0; i < tabSize; i++) if (tab[i].exec == execNo && tab[i].key >= a && tab[i].key < e) tab[i].n = 0;
        return;
    }
    for (; a < e; a++) { Gran *g = slot(a, false); if (g) g->n = 0; }
}
void freed(void *p, size_t n) {
    if (!active || !p) return;
    if (raceCheck) {
        uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
        for (; a < e; a++) {
            Gran *g = slot(a, false);
            if (!g) continue;
            for (int i = 0; i < g->n; i++) {
                Cell &c = g->c[i];
                if (c.tid != cur && c.clk > F[cur].vc.c[c.tid]) stop("race", "memory is released while another thread uses it without synchronisation");
            }
            g->n = 0;
        }
    }
    if (!addrSync.empty() && n < 4096) for (size_t i = 0; i < n; i++) addrSync.erase((char *)p + i);
}

// ---- one execution ---------------------------------------------------------------------
static const std::function<void()> *theBody;
static void *mainBody(void *) { (*theBody)(); return nullptr; }

static void runOne(const std::function<void()> &body) {
    execNo++;
    tabUsed = 0;
    steps = 0; depth = 0; preUsed = 0; spurLeft = O.spurious; curSleep.clear(); freeRun = false;
    nCreated = 0;
    teamSizes.clear();
    addrSync.clear(); addrName.clear();
    for (int i = 0; i < MAXF; i++) {
        if (i == 0 || F[i].st == Done) { F[i].st = Free; F[i].team = nullptr; }
        if (F[i].st != Free) { F[i].vc.clear(); F[i].vc.c[i] = 1; }
        else F[i].vc.clear();
    }
    theBody = &body;
    // fiber 0
    Fiber &x = F[0];
    char *st = x.stack;
    if (!st) {
        st = (char *)mmap(NULL, (1 << 20) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(st, 4096, PROT_NONE);
        st += 4096;
    }
    x = Fiber(); x.stack = st; x.vc.clear(); x.fin.clear(); x.vc.c[0] = 1;
    x.icv = ompDefault ? ompDefault : (int)ncpu;
    x.fn = mainBody;
    // everything permanent happened before
    for (int i = 1; i < MAXF; i++) if (F[i].st != Free) { F[i].vc.c[0] = 0; }
    void **sp = (void **)(st + (1 << 20));
    sp -= 3; sp[0] = nullptr; // keeps the stack aligned at entry
    *--sp = (void *)fiberMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    x.sp = sp; x.st = Ready; x.op = {OpStart, nullptr, nullptr};
    cur = 0;
    active = true;
    if (!tlsSave[0]) tlsFresh(0);
    tlsSwap(MAXF, 0);
    mcrt_switch(&mainSp, x.sp);
    active = false;
    for (auto i : bornSyncs) if (syncs[i].bornExec == execNo) { syncs[i].used = false; syncs[i].gen++; freeSyncs.push_back(i); }
    bornSyncs.clear();
}

static bool backtrack() {
    while (!stackN.empty()) {
        Node &n = stackN.back();
        n.done[n.chosen] = 1;
        for (size_t i = 0; i < n.opts.size(); i++) {
            if (n.done[i]) continue;
            if (O.preempt >= 0 && n.pre + n.opts[i].cost > O.preempt) continue;
            bool asleep = false;
            if (O.sleep && !n.data) for (auto &z : n.sleep) if (z.id == n.opts[i].id) asleep = true;
            if (asleep) continue;
            n.chosen = i;
            return true;
        }
        stackN.pop_back();
    }
    return false;
}

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

Result explore(const Options &o, const std::function<void()> &body, const std::function<void(const std::string &)> &onStart) {
    O = o; R = Result(); failed = false; stackN.clear(); defaultDir = 1;
    double t0 = nowS();
    int restarts = 0; diverged = false;
    for (;;) {
        if (onStart && (R.execs % 64 == 0)) onStart(schedText());
        depth = 0;
        runOne(body);
        R.execs++;
        if (failed) {
            // replay the same schedule: it has to fail the same way
            R.key = failKey; R.text = failText; R.schedule = schedText();
            break;
        }
        if (diverged || (depth < stackN.size() && !freeRun)) {
            diverged = false; stackN.clear();
            if (++restarts > 8) { R.complete = false; break; }   // its behaviour depends on ever more history
            continue;
        }
        if (!backtrack()) break;
        if (R.execs >= o.maxExec || nowS() - t0 > o.maxSeconds) { R.complete = false; break; }
    }
    return R;
}

Result once(const std::function<void()> &body, int dir) {
    O = Options(); O.preempt = 0; O.maxSteps = 1 << 30;
    R = Result(); failed = false; stackN.clear();
    defaultDir = dir;
    freeRun = false;
    quickRun = true;
    runOne(body);
    quickRun = false;
    R.execs = 1;
    if (failed) { R.key = failKey; R.text = failText; }
    stackN.clear();
    defaultDir = 1;
    return R;
}

} // namespace mcrt

using namespace mcrt;

// ---- pthread interface -----------------------------------------------------------------
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!active) { fprintf(stderr, "thread created outside an execution\n"); abort(); }
    visible(OpCreate, nullptr);
    int f = spawn();
    F[f].fn = fn; F[f].arg = arg;
    nCreated++;
    *t = (pthread_t)(f + 1);
    return 0;
}
int pthread_join(pthread_t t, void **r) {
    int f = (int)t - 1;
    if (f < 0 || f >= MAXF || F[f].st == Free) return ESRCH;
    if (f == cur) return EDEADLK;
    visible(OpJoin, (void *)(intptr_t)(f + 1));
    if (r) *r = F[f].ret;
    F[cur].vc.join(F[f].fin);
    F[f].joined = true;
    return 0;
}
int pthread_detach(pthread_t t) { int f = (int)t - 1; if (f >= 0 && f < MAXF) F[f].detached = true; return 0; }
pthread_t pthread_self() { return (pthread_t)(cur + 1); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield() { if (active) { F[cur].yielded = true; visible(OpYield, nullptr); } return 0; }
static int realSleep(const struct timespec *t) { syscall(SYS_nanosleep, t, NULL); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { return active ? sched_yield() : realSleep(t); }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return active ? sched_yield() : realSleep(t); }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return active ? sched_yield() : realSleep(&t); }

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active) return 0;
    visible(OpLock, m);
    Sync &s = embedded(m);
    s.owner = cur;
    acquire(s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active) return 0;
    visible(OpTry, m);
    Sync &s = embedded(m);
    if (s.owner >= 0) return EBUSY;
    s.owner = cur;
    acquire(s);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active) return 0;
    Sync &s = embedded(m);
    if (s.owner != cur) stop("mutex", "a mutex is unlocked by a thread that does not hold it");
    s.owner = -1;
    release(s);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!active) return 0; visible(OpRdLock, m); Sync &s = embedded(m); s.readers++; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!active) return 0; visible(OpWrLock, m); Sync &s = embedded(m); s.owner = cur; acquire(s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!active) return 0; Sync &s = embedded(m); if (s.owner == cur) s.owner = -1; else s.readers--; release(s); return 0; }
int pthread_spin_init(pthread_spinlock_t *, int) { return ENOSYS; }

int sem_init(sem_t *s, int, unsigned v) { memset((void *)s, 0, sizeof *s); embedded(s).count = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_wait(sem_t *s) { if (!active) return 0; visible(OpSem, s); Sync &y = embedded(s); y.count--; acquire(y); return 0; }
int sem_trywait(sem_t *s) { if (!active) return 0; visible(OpTry, s); Sync &y = embedded(s); if (y.count <= 0) { errno = EAGAIN; return -1; } y.count--; acquire(y); return 0; }
int sem_post(sem_t *s) { if (!active) return 0; visible(OpSignal, s); Sync &y = embedded(s); y.count++; release(y); return 0; }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!active) return 0;
    for (int f = 0; f < MAXF; f++) if (F[f].st == CondWait && F[f].op.a == c) {
        // glibc blocks here until every waiter has left
        F[cur].op = {OpJoin, (void *)(intptr_t)(f + 1), nullptr};
        stop("deadlock", "a condition variable is destroyed while a thread waits on it");
    }
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    if (!active) return 0;
    visible(OpCondWait, c, m);
    Sync &s = embedded(m);
    if (s.owner != cur) stop("mutex", "a thread waits on a condition without holding the mutex");
    embedded(c);
    s.owner = -1;
    release(s);
    Fiber &me = F[cur];
    me.st = CondWait; me.cmutex = m; me.timedWait = timed; me.timedOut = false;
    me.op = {OpCondWait, c, m};
    schedule();
    // woken: holds pending OpRelock which was enabled
    Sync &s2 = embedded(m);
    s2.owner = cur;
    acquire(s2);
    F[cur].op.kind = OpNone;
    return F[cur].timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active) return 0;
    visible(OpSignal, c);
    embedded(c);
    int w[MAXF], n = 0;
    for (int f = 0; f < MAXF; f++) if (F[f].st == CondWait && F[f].op.a == c) w[n++] = f;
    if (n) {
        int f = w[chooseData(n)];
        F[f].st = Ready;
        F[f].op = {OpRelock, F[f].cmutex, nullptr};
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active) return 0;
    visible(OpSignal, c);
    embedded(c);
    for (int f = 0; f < MAXF; f++) if (F[f].st == CondWait && F[f].op.a == c) {
        F[f].st = Ready;
        F[f].op = {OpRelock, F[f].cmutex, nullptr};
    }
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    // 0 fresh, 2 done
    if (*(int *)o != 2 && active && byAddr(o).owner >= 0 && byAddr(o).owner != cur) visible(OpGuard, o);
    if (*(int *)o == 2) { if (active) acquire(byAddr(o)); return 0; }
    if (active) byAddr(o).owner = cur;
    try { fn(); } catch (...) { if (active) byAddr(o).owner = -1; throw; }
    *(int *)o = 2;
    if (active) { byAddr(o).owner = -1; release(byAddr(o)); }
    return 0;
}
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (nKeys == 64) return EAGAIN; keyDtor[nKeys] = d; *k = nKeys++; return 0; }
int pthread_key_delete(pthread_key_t k) { if (k < 64) keyDtor[k] = nullptr; return 0; }
void *pthread_getspecific(pthread_key_t k) { return k < 64 ? specific[cur][k] : nullptr; }
int pthread_setspecific(pthread_key_t k, const void *v) { if (k >= 64) return EINVAL; specific[cur][k] = (void *)v; return 0; }
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) { if (active) atEnd[cur].push_back({fn, obj}); return 0; }

// function-local statics
int __cxa_guard_acquire(uint64_t *g) {
    if (*(uint8_t *)g == 1) { if (active) acquire(byAddr(g)); return 0; }
    if (!active) return 1;
    visible(OpGuard, g);
    if (*(uint8_t *)g == 1) { acquire(byAddr(g)); return 0; }
    byAddr(g).owner = cur;
    return 1;
}
void __cxa_guard_release(uint64_t *g) { *g = 0; *(uint8_t *)g = 1; if (active) { byAddr(g).owner = -1; release(byAddr(g)); } }
void __cxa_guard_abort(uint64_t *g) { *g = 0; if (active) byAddr(g).owner = -1; }
}

unsigned int std::thread::hardware_concurrency() noexcept { return ncpu; }

// ---- memory ----------------------------------------------------------------------------
// Fresh heap memory holds a pattern nobody wrote; both ends of a block are checked when it is released.
static void *fillNew(size_t n) {
    char *q = (char *)__libc_malloc(n + 48);
    if (!q) return nullptr;
    if (active && raceCheck) shadowClear(q, n + 48);
    *(size_t *)q = n; memset(q + 8, 0xA5, 8);
    memset(q + 16, 0xFE, n); memset(q + 16 + n, 0xA5, 32);
    return q + 16;
}
static void fillDel(void *p) {
    if (!p) return;
    char *q = (char *)p - 16;
    size_t n = *(size_t *)q;
    bool bad = false;
    for (int i = 0; i < 8; i++) bad |= (unsigned char)q[8 + i] != 0xA5;
    if (!bad) for (int i = 0; i < 32; i++) bad |= (unsigned char)q[16 + n + i] != 0xA5;
    if (bad) {
        if (active) stop("heap", "memory next to a heap block was overwritten");
        fprintf(stderr, "heap block damaged\n"); abort();
    }
    freed(p, n);
    memset(p, 0xFD, n);
    __libc_free(q);
}
void *operator new(size_t n) { void *p = fillNew(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fillNew(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fillNew(n); }
void operator delete(void *p) noexcept { fillDel(p); }
void operator delete[](void *p) noexcept { fillDel(p); }
void operator delete(void *p, size_t) noexcept { fillDel(p); }
void operator delete[](void *p, size_t) noexcept { fillDel(p); }

// Memory of the C allocator: a new block has no history, whoever had it before
extern "C" {
static void *fresh(void *p, size_t skip = 0) {
    if (active && raceCheck && p) { size_t n = malloc_usable_size(p); if (n > skip) shadowClear((char *)p + skip, n - skip); }
    return p;
}
void *malloc(size_t n) { return fresh(__libc_malloc(n)); }
void *calloc(size_t a, size_t n) { return fresh(__libc_calloc(a, n)); }
void *realloc(void *o, size_t n) { size_t had = o ? malloc_usable_size(o) : 0; void *p = __libc_realloc(o, n); return fresh(p, p == o ? had : 0); }
void free(void *p) { __libc_free(p); }
void *memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
// free() in the program under test
void mcrt_free(void *p) { if (p) freed(p, malloc_usable_size(p)); __libc_free(p); }
}

// ---- compiler instrumentation ----------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_read##n##_pc(void *p, void *) { access(p, n, false, PC); } \
    void __tsan_write##n##_pc(void *p, void *) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define isAcq(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define isRel(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { if (active) { visible(OpAtomicR, (void *)p); if (isAcq(mo)) acquire(byAddr((void *)p)); } return *p; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { if (active) { visible(OpAtomicW, (void *)p); Sync &s = byAddr((void *)p); if (isRel(mo)) { s.vc.clear(); release(s); } else s.vc.clear(); } *p = v; } \
    static void rmw##N(volatile T *p, int mo) { if (!active) return; visible(OpAtomicW, (void *)p); Sync &s = byAddr((void *)p); if (isAcq(mo)) acquire(s); if (isRel(mo)) release(s); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { rmw##N(p, mo); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { rmw##N(p, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { rmw##N(p, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { rmw##N(p, mo); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

void *mcrt_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *mcrt_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
size_t mcrt_strlen(const char *s) { size_t n = strlen(s); access(s, n + 1, false, PC); return n; }
int mcrt_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return memcmp(a, b, n); }
char *mcrt_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; access(s, n, false, PC); access(d, n, true, PC); return strcpy(d, s); }
char *mcrt_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, m = strlen(d); access(d, m + 1, false, PC); access(s, n, false, PC); access(d + m, n, true, PC); return strcat(d, s); }
int mcrt_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); if (n) access(d, (size_t)r < n ? r + 1 : n, true, PC); return r; }
int mcrt_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); access(d, r + 1, true, PC); return r; }
void *mcrt_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }

// ---- OpenMP ----------------------------------------------------------------------------
int omp_get_thread_num() { return F[cur].tid; }
int omp_get_num_threads() { return F[cur].team ? F[cur].team->n : 1; }
int omp_get_max_threads() { return F[cur].icv ? F[cur].icv : (ompDefault ? ompDefault : (int)ncpu); }
int omp_get_num_procs() { return ncpu; }
int omp_in_parallel() { return F[cur].team && F[cur].team->n > 1; }
int omp_get_level() { return F[cur].level; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return MAXF; }
double omp_get_wtime() { return nowS(); }
void omp_set_num_threads(int n) { if (!active) ompDefault = n; F[cur].icv = n < 1 ? 1 : n; }

static void ompRun(void (*fn)(void *), void *data, unsigned nt) {
    if (!active) { fn(data); return; }
    Fiber &me = F[cur];
    int n = nt ? (int)nt : omp_get_max_threads();
    if (me.level > 0) n = 1;
    if (n > MAXF - 8) n = MAXF - 8;
    teamSizes.push_back(n);
    Team *old = me.team; int oldTid = me.tid;
    uint64_t os = me.singleSeq, ol = me.loopSeq, ob = me.barSeq;
    Team t; t.n = n; t.barVC.clear(); t.barNext.clear();
    int self = cur;
    std::vector<int> kids;
    if (n > 1) visible(OpCreate, nullptr);
    for (int i = 1; i < n; i++) {
        int f = spawn();
        F[f].ompfn = fn; F[f].ompdata = data; F[f].team = &t; F[f].tid = i; F[f].level = me.level + 1; F[f].detached = false;
        kids.push_back(f);
    }
    me.team = &t; me.tid = 0; me.level++;
    me.singleSeq = me.loopSeq = me.barSeq = 0;
    fn(data);
    if (n > 1) visible(OpTeamJoin, &t);
    for (int f : kids) { F[self].vc.join(F[f].fin); F[f].joined = true; F[f].team = nullptr; }
    me.team = old; me.tid = oldTid; me.level--;
    me.singleSeq = os; me.loopSeq = ol; me.barSeq = ob;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { ompRun(fn, data, nt); }
void GOMP_barrier() {
    Fiber &me = F[cur];
    if (!active || !me.team || me.team->n == 1) return;
    Team *t = me.team;
    me.barSeq = t->barGen;
    t->barNext.join(me.vc); me.vc.c[cur]++;
    if (++t->arrived == t->n) {
        t->arrived = 0; t->barVC = t->barNext; t->barNext.clear(); t->barGen++;
        me.vc.join(t->barVC);
        visible(OpPoint, t);
        return;
    }
    visible(OpBarrier, t);
    F[cur].vc.join(t->barVC);
}
bool GOMP_single_start() {
    Fiber &me = F[cur];
    if (!active || !me.team || me.team->n == 1) return true;
    visible(OpPoint, me.team);
    uint64_t s = me.singleSeq++;
    return me.team->singles[s]++ == 0;
}
void *GOMP_single_copy_start() { Fiber &me = F[cur]; if (!active || !me.team || me.team->n == 1 || GOMP_single_start()) return nullptr; GOMP_barrier(); return me.team->copy; }
void GOMP_single_copy_end(void *d) { Fiber &me = F[cur]; if (active && me.team && me.team->n > 1) { me.team->copy = d; GOMP_barrier(); } }
// a task runs at once in the thread that meets it (one of its allowed schedules)
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (!cpy && size <= 0) { fn(data); return; }
    char *b = (char *)__libc_malloc(size + align + 16), *a = (char *)(((uintptr_t)b + align) & ~(uintptr_t)(align - 1));
    if (cpy) cpy(a, data); else memcpy(a, data, size);
    fn(a); __libc_free(b);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
static pthread_mutex_t critMutex, atomMutex;
void GOMP_critical_start() { pthread_mutex_lock(&critMutex); }
void GOMP_critical_end() { pthread_mutex_unlock(&critMutex); }
static std::unordered_map<void **, pthread_mutex_t *> critNames;
void GOMP_critical_name_start(void **p) {
    auto &x = critNames[p];
    if (!x) x = (pthread_mutex_t *)__libc_calloc(1, sizeof(pthread_mutex_t));
    pthread_mutex_lock(x); *p = x;
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomMutex); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomMutex); }

static Team solo;
static bool loopNext(long *b, long *e) {
    Fiber &me = F[cur];
    Team *t = me.team ? me.team : &solo;
    if (active) visible(OpPoint, t);
    LoopWork &w = t->loops[me.loopSeq - 1];
    long c = w.chunk < 1 ? 1 : w.chunk;
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *b = w.next;
    long x = w.next + c * w.incr;
    if (w.incr > 0 ? x > w.end : x < w.end) x = w.end;
    *e = x;
    w.next = x;
    return true;
}
static bool loopStart(long s, long e, long i, long c, long *b, long *x) {
    Fiber &me = F[cur];
    Team *t = me.team ? me.team : &solo;
    LoopWork &w = t->loops[me.loopSeq++];
    if (!w.init || !me.team) { w = LoopWork(); w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c; }
    return loopNext(b, x);
}
#define LOOP(k) \
    bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *b, long *x) { return loopStart(s, e, i, c, b, x); } \
    bool GOMP_loop_##k##_next(long *b, long *x) { return loopNext(b, x); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *b, long *x) { return loopStart(s, e, i, 1, b, x); }
bool GOMP_loop_runtime_next(long *b, long *x) { return loopNext(b, x); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *b, long *x) { return loopStart(s, e, i, 1, b, x); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *b, long *x) { return loopNext(b, x); }
#define ULOOP(k) \
    bool GOMP_loop_ull_##k##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *b, unsigned long long *x) { return loopStart(s, e, i, c, (long *)b, (long *)x); } \
    bool GOMP_loop_ull_##k##_next(unsigned long long *b, unsigned long long *x) { return loopNext((long *)b, (long *)x); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided) ULOOP(static)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() { long b, e; return loopNext(&b, &e) ? (unsigned)b : 0; }
unsigned GOMP_sections_start(unsigned n) { long b, e; return loopStart(1, (long)n + 1, 1, 1, &b, &e) ? (unsigned)b : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
struct PL { void (*fn)(void *); void *d; long s, e, i, c; };
static void parLoop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c) {
    // every thread calls GOMP_loop_*_next first: pre-set the work share
    if (!active) { fprintf(stderr, "parallel loop outside an execution\n"); abort(); }
    struct Boot { PL p; } bt{{fn, d, s, e, i, c}};
    ompRun([](void *x) {
        PL &p = ((Boot *)x)->p;
        Team *t = F[cur].team;
        LoopWork &w = t->loops[F[cur].loopSeq++];
        if (!w.init) { w.init = true; w.next = p.s; w.end = p.e; w.incr = p.i; w.chunk = p.c; }
        p.fn(p.d);
    }, &bt, nt);
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { parLoop(fn, d, nt, 1, (long)n + 1, 1, 1); }
#define PLOOP(k) void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parLoop(fn, d, nt, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { parLoop(fn, d, nt, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { parLoop(fn, d, nt, s, e, i, 1); }
}
