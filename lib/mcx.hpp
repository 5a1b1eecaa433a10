// Common machinery of the enumeration harnesses: jobs run in forked workers, each case is
// announced before it runs (so a crash or a hang is attributed to it), results are counted.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace mcx {

struct Shared {
    volatile uint64_t evals, states, transitions, distinct, nontrivial, outcomes;
    volatile uint64_t nviol;
    volatile uint64_t curN;        // number of the case under way
    volatile uint64_t heartbeat;
    char cur[1024];                // description of the case under way
    char sample[3][512];
    volatile int nsample;
    char viol[24][1400];
    volatile int violStored;
    volatile int capped;          // the job stopped at a time cap before covering its bound
};

struct Ctx {
    Shared *s;
    std::string job;
    bool thorough;
    uint64_t rng = 1;
    void eval(uint64_t n = 1) { s->evals += n; }
    void state(uint64_t n = 1) { s->states += n; }
    void trans(uint64_t n = 1) { s->transitions += n; }
    void nontrivial(uint64_t n = 1) { s->nontrivial += n; }
    void cur(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); vsnprintf(s->cur, sizeof s->cur, fmt, ap); va_end(ap);
    }
    void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (s->nsample >= 3) return;
        va_list ap; va_start(ap, fmt); vsnprintf(s->sample[s->nsample], 512, fmt, ap); va_end(ap);
        s->nsample = s->nsample + 1;
    }
    // key: stable identification of the failing call site / input class; text: the failing case
    void viol(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        s->nviol = s->nviol + 1;
        for (int i = 0; i < s->violStored; i++) if (!strncmp(s->viol[i], (key + "\t").c_str(), key.size() + 1)) return;
        if (s->violStored >= 24) return;
        char *d = s->viol[s->violStored];
        int n = snprintf(d, 300, "%s\t", key.c_str());
        va_list ap; va_start(ap, fmt); vsnprintf(d + n, 1400 - n, fmt, ap); va_end(ap);
        for (char *p = d + n; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
        s->violStored = s->violStored + 1;
    }
};

struct Job { std::string name; std::function<void(Ctx &)> fn; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Options {
    int procs = 8;
    double jobTimeout = 600;     // no progress of the announced case / heartbeat for stall seconds = hang
    double stall = 60;
    size_t memLimit = 0;
};

// main() of a harness: [--job NAME] [--thorough] [--list] [--procs N]
inline int run(int argc, char **argv, std::vector<Job> jobs, Options opt = Options()) {
    std::string only; bool thorough = false, list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--job") only = argv[++i];
        else if (a == "--thorough") thorough = true;
        else if (a == "--list") list = true;
        else if (a == "--procs") opt.procs = atoi(argv[++i]);
    }
    if (list) { for (auto &j : jobs) printf("%s\n", j.name.c_str()); return 0; }
    if (!only.empty()) {
        std::vector<Job> k;
        for (auto &j : jobs) if (j.name == only) k.push_back(j);
        if (k.empty()) { fprintf(stderr, "no such job\n"); return 2; }
        jobs = k;
    }
    struct Run { pid_t pid; size_t job; Shared *s; uint64_t lastSig; double lastChange, start; };
    std::vector<Run> live;
    size_t next = 0;
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (next < jobs.size() || !live.empty()) {
        while (next < jobs.size() && (int)live.size() < opt.procs) {
            Shared *s = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            memset((void *)s, 0, sizeof *s);
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                if (opt.memLimit) { struct rlimit m = {opt.memLimit, opt.memLimit}; setrlimit(RLIMIT_AS, &m); }
                Ctx c; c.s = s; c.job = jobs[next].name; c.thorough = thorough;
                try { jobs[next].fn(c); }
                catch (...) { fprintf(stderr, "%s: exception escaped\n", c.job.c_str()); _exit(77); }
                fflush(stdout);
                _exit(0);
            }
            live.push_back({p, next, s, 0, now(), now()});
            next++;
        }
        bool changed = false;
        for (size_t i = 0; i < live.size(); i++) {
            Run &r = live[i];
            int st = 0;
            pid_t w = waitpid(r.pid, &st, WNOHANG);
            bool hang = false;
            if (w == 0) {
                uint64_t sig = r.s->evals * 31 + r.s->states * 17 + r.s->transitions * 7 + r.s->heartbeat;
                for (char *p = r.s->cur; *p; p++) sig = sig * 131 + *p;
                if (sig != r.lastSig) { r.lastSig = sig; r.lastChange = now(); }
                if (now() - r.lastChange > opt.stall || now() - r.start > opt.jobTimeout) {
                    hang = true;
                    kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL);
                    waitpid(r.pid, &st, 0);
                } else continue;
            }
            Shared *s = r.s;
            auto clean = [](char *p) { for (; *p; p++) if ((unsigned char)*p < 32) *p = ' '; };
            clean(s->cur); for (int k = 0; k < s->nsample; k++) clean(s->sample[k]);
            const char *jn = jobs[r.job].name.c_str();
            for (int k = 0; k < s->violStored; k++) printf("VIOL\t%s\t%s\n", jn, s->viol[k]);
            if (hang) printf("%s\t%s\t%s\t%s\n", now() - r.start > opt.jobTimeout ? "SLOW" : "HANG", jn, "hang", s->cur);
            else if (WIFSIGNALED(st)) printf("CRASH\t%s\tsignal-%d\t%s\n", jn, WTERMSIG(st), s->cur);
            else if (WEXITSTATUS(st) == 77) printf("CRASH\t%s\texception\t%s\n", jn, s->cur);
            else if (WEXITSTATUS(st) != 0) printf("CRASH\t%s\texit-%d\t%s\n", jn, WEXITSTATUS(st), s->cur);
            for (int k = 0; k < s->nsample; k++) printf("SAMPLE\t%s\t%s\n", jn, s->sample[k]);
            printf("JOB\t%s\tevals=%llu states=%llu transitions=%llu nontrivial=%llu outcomes=%llu nviol=%llu capped=%d wall=%.2f\n", jn,
                   (unsigned long long)s->evals, (unsigned long long)s->states, (unsigned long long)s->transitions,
                   (unsigned long long)s->nontrivial, (unsigned long long)s->outcomes, (unsigned long long)s->nviol, s->capped, now() - r.start);
            munmap((void *)s, sizeof *s);
            live.erase(live.begin() + i);
            changed = true;
            break;
        }
        if (!changed) usleep(3000);
    }
    printf("ALLDONE\n");
    return 0;
}

}
