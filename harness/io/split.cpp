// S01: tuple text splitting against a recursive-descent reading of the text.
#include "mcx.hpp"
#include "splitparstr.hpp"
#include <stdexcept>
#include <cctype>
using namespace mcx;

// whole text enclosed by one matching pair
static bool enclosed(const std::string &s) {
    if (s.size() < 2 || s[0] != '(' || s.back() != ')') return false;
    int d = 0;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '(') d++; if (s[i] == ')') d--; if (!d && i + 1 < s.size()) return false; }
    return true;
}
static std::string strip(std::string s) { while (enclosed(s)) s = s.substr(1, s.size() - 2); return s; }
static std::vector<std::string> want(const std::string &t) {
    std::string s;
    for (char ch : t) if (!isspace((unsigned char)ch)) s += ch;
    s = strip(s);
    std::vector<std::string> r; std::string a; int d = 0;
    for (char ch : s) {
        if (ch == ',' && !d) { r.push_back(strip(a)); a.clear(); continue; }
        if (ch == '(') d++;
        if (ch == ')') d--;
        a += ch;
    }
    r.push_back(strip(a));
    return r;
}
static bool balanced(const std::string &s) { int d = 0; for (char ch : s) { if (ch == '(') d++; if (ch == ')' && --d < 0) return false; } return d == 0; }
static std::string show(const std::vector<std::string> &v) { std::string s = "["; for (auto &x : v) s += "'" + x + "' "; return s + "]"; }

static void one(Ctx &c, const std::string &s) {
    c.eval(); c.trans();
    std::vector<std::string> got;
    try { got = splitParStr(s); }
    catch (const std::exception &e) {
        if (balanced(s)) c.viol("split:exception", "'%s': %s", s.c_str(), e.what());
        return;
    }
    if (!balanced(s)) return;      // only that it comes back
    auto w = want(s);
    if (w.size() > 1) c.nontrivial();
    if (got != w) c.viol(w.size() > 1 ? "split:components" : "split:single", "'%s' gives %s, not %s", s.c_str(), show(got).c_str(), show(w).c_str());
}

// every text over the alphabet with the given length and first symbols
static void texts(Ctx &c, const std::string &al, int len, std::string pre, bool bal) {
    std::string s = pre;
    std::function<void(int)> rec = [&](int d) {
        if ((int)s.size() == len) { if (!bal || d == 0) one(c, s); return; }
        if (len - (int)s.size() == 6) c.cur("texts '%s...' of %d symbols", s.c_str(), len);
        for (char ch : al) {
            int e = d + (ch == '(') - (ch == ')');
            if (bal && (e < 0 || e > len - (int)s.size() - 1)) continue;
            s += ch; rec(e); s.pop_back();
        }
    };
    int d = 0; for (char ch : pre) { d += (ch == '(') - (ch == ')'); if (bal && d < 0) return; }
    rec(d); c.state();
}

// printed forms of nested tuples: depth levels, every component wrapped in redundant parentheses, spaces anywhere
static void printed(Ctx &c, int depth, int maxComp, int maxWrap, const char *sp) {
    std::function<std::vector<std::string>(int)> forms = [&](int d) {
        std::vector<std::string> v;
        if (d == 0) { v = {"1", "23", "", "-4567890123456789012345678901234567890"}; return v; }
        auto sub = forms(d - 1);
        if (d > 1) { std::vector<std::string> k; for (size_t i = 0; i < sub.size(); i += std::max<size_t>(1, sub.size() / 9)) k.push_back(sub[i]); sub = k; sub.push_back("7"); }
        std::vector<std::vector<std::string>> tup = {{}};
        for (int n = 1; n <= maxComp; n++) {
            std::vector<std::vector<std::string>> nt;
            for (auto &t : tup) for (auto &x : sub) { auto q = t; q.push_back(x); nt.push_back(q); }
            for (auto &t : nt) {
                if (n < 2) continue;
                std::string s;
                for (size_t i = 0; i < t.size(); i++) s += (i ? std::string(sp) + "," + sp : "") + t[i];
                for (int w = 1; w <= maxWrap; w++) v.push_back(std::string(w, '(') + sp + s + std::string(w, ')'));
            }
            tup = nt;
            if (tup.size() > 2000) break;
        }
        return v;
    };
    auto v = forms(depth);
    for (size_t i = 0; i < v.size(); i++) {
        if (!(i & 1023)) { c.cur("printed tuples of depth %d: %.200s", depth, v[i].c_str()); c.state(); }
        for (int o = 0; o <= 9; o += 3) one(c, std::string(o, '(') + v[i] + std::string(o, ')'));
        if (v[i].size() > 2) one(c, v[i].substr(1, v[i].size() - 2));
    }
    c.sample("%zu printed tuples of depth %d, spacing '%s': e.g. %.200s", v.size(), depth, sp, v[v.size() / 2].c_str());
}

// every balanced text of up to R runs, where a run of parentheses may be long
static void runs(Ctx &c, int R, std::string pre, int d0) {
    static const int K[] = {1, 2, 6, 9, 17, 40, 130, 258};
    std::string s = pre; uint64_t n = 0;
    std::function<void(int, int, char)> rec = [&](int left, int d, char last) {
        if (!d) { if (!(n++ & 255)) c.cur("runs: %.200s", s.c_str()); one(c, s); }
        if (!left) { if (d) { std::string k = s; s.append(d, ')'); one(c, s); s = k; } return; }
        size_t m = s.size();
        for (char ch : std::string(",1")) if (ch != last) { s += ch; rec(left - 1, d, ch); s.resize(m); }
        if (last != '(') for (int k : K) { s.append(k, '('); rec(left - 1, d + k, '('); s.resize(m); }
        if (last != ')' && d) {
            int p = 0;
            for (int k : {1, 3, d / 2, d - 1, d}) if (k > p && k <= d) { p = k; s.append(k, ')'); rec(left - 1, d - k, ')'); s.resize(m); }
        }
    };
    rec(R - 1, d0, pre[0]); c.state();
    c.sample("balanced texts of up to %d runs starting with a run of %d '%c'", R, (int)pre.size(), pre[0]);
}

int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    const std::string A = "(),1 ";
    jobs.push_back({"short", [=](Ctx &c) { one(c, ""); for (int n = 1; n <= 6; n++) texts(c, "(),1 \t", n, "", false); c.sample("every text of up to 6 symbols over \"(),1 \\t\""); }});
    jobs.push_back({"bytes", [=](Ctx &c) {
        for (int x = 0; x < 256; x++) { c.cur("byte %d", x); for (const char *f : {"?", "1?2", "?1", "1?", "(?,1)", "(1,?)", "((1?,2))", "?,?", "?(1,2)?", "(1?),(?2)", "? ?", "-?,0x?", "((?))"}) { std::string s; for (const char *q = f; *q; q++) s += *q == '?' ? (char)x : *q; one(c, s); } }
        c.state(); c.sample("every byte value at every place of 13 texts");
    }});
    int L = th ? 11 : 9;
    for (char a : A) for (char b : A) { std::string pre{a, b}; jobs.push_back({"texts-" + pre, [=](Ctx &c) { for (int n = 7; n <= L; n++) texts(c, A, n, pre, false); c.sample("every text of 7..%d symbols starting \"%s\"", L, pre.c_str()); }}); }
    int M = th ? 16 : 14;
    const std::string B = "(),x";
    for (char a : B) for (char b : B) for (char d : B) { std::string pre{a, b, d}; if (pre.find(')') != std::string::npos && pre[0] == ')') continue; jobs.push_back({"balanced-" + pre, [=](Ctx &c) { for (int n = 10; n <= M; n++) texts(c, B, n, pre, true); c.sample("every balanced text of 10..%d symbols starting \"%s\"", M, pre.c_str()); }}); }
    for (int d = 1; d <= 3; d++) for (const char *sp : {"", " ", " \t\n"}) jobs.push_back({"printed-" + std::to_string(d) + "-" + std::to_string(strlen(sp)), [=](Ctx &c) { printed(c, d, th ? 4 : 3, d == 1 ? 5 : 3, sp); }});
    for (int k : {1, 2, 6, 9, 17, 40, 130, 258}) jobs.push_back({"runs-" + std::to_string(k), [=](Ctx &c) { runs(c, th ? 8 : 6, std::string(k, '('), k); }});
    for (char ch : {'1', ','}) jobs.push_back({std::string("runs-") + ch, [=](Ctx &c) { runs(c, th ? 8 : 6, std::string(1, ch), 0); }});
    Options o; o.jobTimeout = th ? 3000 : 500;
    return run(argc, argv, jobs, o);
}
