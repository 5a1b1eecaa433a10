// C05: operations of the shared field, extension, curve and reader interfaces used from several threads at once.
// Every pair of operations runs concurrently in two threads on shared operands, from a cold start (a process of its
// own in which neither has run before), under the explored schedules with the race detector; the results have to be
// those of the operations alone. Mode "readonly": the assembled code with its data section and the operands write-protected.
#include "mcx.hpp"
#include "mcrt.hpp"
#include "ops.hpp"

// ---- alone, in a process of its own
static const size_t RMAX = 1 << 16;
static bool alone(size_t i, Out &o, char *area) {
    pid_t p = fork();
    if (!p) { Out x; mcrt::once([&] { ops[i].fn(x); }); if (x.size() > RMAX - 8) _exit(3); *(size_t *)area = x.size(); memcpy(area + 8, x.data(), x.size()); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (st) return false;
    o.assign(area + 8, *(size_t *)area);
    return true;
}
static void pairs(Ctx &c, size_t i) {
    char *area = (char *)mmap(NULL, RMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Out> want(ops.size());
    for (size_t j = i; j < ops.size(); j++) { c.cur("%s alone", ops[j].name.c_str()); if (!alone(j, want[j], area)) { c.viol("alone:" + ops[j].name, "%s fails by itself", ops[j].name.c_str()); return; } }
    for (size_t j = i; j < ops.size(); j++) {
        c.cur("%s and %s", ops[i].name.c_str(), ops[j].name.c_str());
        pid_t p = fork();
        if (!p) {
            mcrt::Options o; o.preempt = 1; o.maxSeconds = 60; o.maxExec = c.thorough ? 100000 : 400;
            Out got[2];
            auto r = mcrt::explore(o, [&] {
                got[0].clear(); got[1].clear();
                std::thread a([&] { ops[i].fn(got[0]); }), b([&] { ops[j].fn(got[1]); });
                a.join(); b.join();
                for (int k = 0; k < 2; k++) if (got[k] != want[k ? j : i]) mcrt::fail("result", ops[k ? j : i].name + " returns another result than alone");
            });
            c.eval(r.execs); c.state(r.decisions); c.trans(r.points); c.nontrivial(1);
            if (!r.complete) c.s->capped = 1;
            if (!r.key.empty()) c.viol(r.key + ":" + ops[i].name, "%s and %s in two threads: %s [schedule %s]", ops[i].name.c_str(), ops[j].name.c_str(), r.text.c_str(), r.schedule.c_str());
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (st) c.viol("crash:" + ops[i].name, "%s and %s in two threads: the process ends with status %x", ops[i].name.c_str(), ops[j].name.c_str(), st);
    }
    if (i < 2) c.sample("%s with each of %zu operations", ops[i].name.c_str(), ops.size() - i);
}
static void readonly(Ctx &c) {
    mprotect(S, sizeof *S, PROT_READ);
    for (auto &o : ops) { Out x, y; c.cur("%s with write-protected data and operands", o.name.c_str()); c.eval(); c.state(); c.trans(); c.nontrivial(); o.fn(x); o.fn(y); if (x != y) c.viol("readonly:" + o.name, "%s returns another result the second time", o.name.c_str()); }
    c.sample("%zu operations with the assembly's data and the operands write-protected", ops.size());
}

int main(int argc, char **argv) {
    if (!operands()) { fprintf(stderr, "operands\n"); return 2; }
    std::vector<Job> jobs;
    std::string mode = argc > 1 ? argv[1] : "";
    std::string pre = VARIANT "-";
    if (mode == "readonly") jobs.push_back({pre + "readonly", readonly});
    else for (size_t i = 0; i < ops.size(); i++) jobs.push_back({pre + ops[i].name, [i](Ctx &c) { pairs(c, i); }});
    return run(argc, argv, jobs);
}
