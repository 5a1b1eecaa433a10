// B02: damaged files. Every access outside the data hits a guard page.
#include "binkit.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"

static volatile uint8_t sink;
static void touch(Ctx &c, const char *what, const void *p, uint64_t n, const std::string &at) {
    c.eval();
    if (n && !Guard::get().inside(p, n)) c.viol(std::string("mal:outside-") + what, "%s: %llu bytes offered outside the data", at.c_str(), (unsigned long long)n);
    else { const uint8_t *b = (const uint8_t *)p; uint8_t x = 0; for (uint64_t i = 0; i < n; i++) x ^= b[i]; sink = x; }
}
static std::string hex(const Bytes &b) { std::string s; char t[3]; for (size_t i = 0; i < b.size() && i < 160; i++) { snprintf(t, 3, "%02x", b[i]); s += t; } if (b.size() > 160) s += "..."; return s; }

// opens the bytes and makes every kind of reading call
static void exercise(Ctx &c, const Bytes &b, const char *type, bool file, const std::string &what, bool loaders) {
    c.cur("%s (%s): %s", what.c_str(), file ? "file" : "memory", hex(b).c_str());
    c.trans();
    std::unique_ptr<BF> f;
    std::string e = attempt([&] { f = openAs(file, b, type, 2); });
    c.eval();
    if (!e.empty()) { Guard::get().releaseAll(); return; }
    c.nontrivial();
    const uint32_t ids[] = {0, 1, 2, 3, 4, 5, 9, 0x80000000u, 0xffffffffu};
    for (auto id : ids) for (uint32_t k = 0; k < 3; k++) {
        uint64_t sz = 0; void *p = 0;
        if (!attempt([&] { sz = f->getSectionSize(id, k); p = f->getSectionData(id, k); }).empty()) { if (!k) break; else continue; }
        touch(c, "section", p, sz, what);
        // read through it with every kind of call, up to and beyond the end of the data
        for (int how = 0; how < 5; how++) {
            bool open = attempt([&] { f->startReadSection(id, k); }).empty();
            if (!open) { c.viol("mal:start", "%s: section %u exists but cannot be opened", what.c_str(), id); break; }
            for (int n = 0; n < 400; n++) {
                std::string x;
                if (how == 0) x = attempt([&] { f->readU32LE(); });
                else if (how == 1) x = attempt([&] { f->readU64LE(); });
                else {
                    uint64_t len = how == 2 ? 1 + (n & 7) : how == 3 ? (n == 0 ? sz : n == 1 ? b.size() : ~0ull - n) : (1ull << (n & 63));
                    void *q = 0; x = attempt([&] { q = f->read(len); });
                    if (x.empty()) touch(c, "read", q, len, what);
                }
                if (!x.empty() && how < 3) break;
                if (how >= 3 && n > 70) break;
            }
            attempt([&] { f->endReadSection(false); });
        }
    }
    // reading and finishing with nothing open
    attempt([&] { f->endReadSection(); });
    for (int n = 0; n < 40; n++) { void *q = 0; if (attempt([&] { f->readU64LE(); }).empty() && attempt([&] { q = f->read(3); }).empty()) touch(c, "read", q, 3, what); }
    attempt([&] { f->readU32LE(); });
    f.reset();
    if (loaders) {
        for (int l = 0; l < 2; l++) {
            std::unique_ptr<BF> g;
            if (!attempt([&] { g = openAs(file, b, type, 2); }).empty()) break;
            std::string x = attempt([&] {
                if (l) {
                    auto h = ZKeyUtils::loadHeader(g.get());
                    touch(c, "vk", h->vk_alpha1, 2 * (uint64_t)h->n8q, what); touch(c, "vk", h->vk_beta1, 2 * (uint64_t)h->n8q, what); touch(c, "vk", h->vk_beta2, 4 * (uint64_t)h->n8q, what);
                    touch(c, "vk", h->vk_gamma2, 4 * (uint64_t)h->n8q, what); touch(c, "vk", h->vk_delta1, 2 * (uint64_t)h->n8q, what); touch(c, "vk", h->vk_delta2, 4 * (uint64_t)h->n8q, what);
                } else WtnsUtils::loadHeader(g.get());
            });
            (void)x;
        }
    }
    Guard::get().releaseAll();
}

static void put(Bytes &b, size_t at, uint64_t v, int n) { for (int i = 0; i < n && at + i < b.size(); i++) b[at + i] = v >> (8 * i); }

struct Field { size_t at; int n; std::string name; };
static std::vector<Field> fields(const Img &im, bool wt, bool zk) {
    std::vector<Field> f = {{0, 4, "type"}, {4, 4, "version"}, {8, 4, "section count"}};
    size_t p = 12;
    for (size_t i = 0; i < im.secs.size(); i++) {
        f.push_back({p, 4, "id " + std::to_string(i)}); f.push_back({p + 4, 8, "size " + std::to_string(i)});
        const Bytes &d = im.secs[i].data; size_t q = p + 12;
        auto u = [&](size_t o) { uint32_t v = 0; if (o + 4 <= d.size()) memcpy(&v, &d[o], 4); return v; };
        if (wt && im.secs[i].id == 1) { f.push_back({q, 4, "n8"}); f.push_back({q + 4 + u(0), 4, "nVars"}); }
        if (zk && im.secs[i].id == 1) f.push_back({q, 4, "protocol"});
        if (zk && im.secs[i].id == 2) { f.push_back({q, 4, "n8q"}); f.push_back({q + 4 + u(0), 4, "n8r"}); f.push_back({q + 8 + u(0) + u(4 + u(0)), 4, "nVars"}); }
        p += 12 + d.size();
    }
    return f;
}
static std::vector<uint64_t> values(const Bytes &b, const Field &f) {
    uint64_t old = 0; for (int i = 0; i < f.n; i++) old |= (uint64_t)b[f.at + i] << (8 * i);
    std::vector<uint64_t> v = {0, 1, 2, 3, 4, old - 1, old + 1, old + 4, old + 8, 0x7f, 0xff, 0x7fffffff, 0x80000000ull, 0xfffffff3ull, 0xfffffff4ull, 0xffffffffull, b.size(), b.size() - f.at, b.size() - f.at - f.n, b.size() - f.at - f.n + 1, b.size() - f.at - f.n - 1};
    if (f.n == 8) for (uint64_t x : std::initializer_list<uint64_t>{0x100000000ull, 1ull << 63, ~0ull, ~0ull - 1, ~0ull - 11, ~0ull - 12, (uint64_t)0 - f.at, (uint64_t)0 - f.at - 8, (uint64_t)0 - (f.at + 8), 0x7fffffffffffffffull}) v.push_back(x);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

static Img wtns(uint32_t n8, uint32_t nv) {
    Bytes h; Img::u32(h, n8); Bytes p = fill(n8, 3); h.insert(h.end(), p.begin(), p.end()); Img::u32(h, nv);
    return {"wtns", 2, {{1, h}, {2, fill((size_t)n8 * nv, 4)}}};
}
static Img zkey(uint32_t n8q, uint32_t n8r, uint32_t nc) {
    Bytes a; Img::u32(a, 1);
    Bytes h; Img::u32(h, n8q); Bytes p = fill(n8q, 3); h.insert(h.end(), p.begin(), p.end()); Img::u32(h, n8r); p = fill(n8r, 5); h.insert(h.end(), p.begin(), p.end());
    Img::u32(h, 7); Img::u32(h, 2); Img::u32(h, 8); p = fill(18 * (size_t)n8q, 6); h.insert(h.end(), p.begin(), p.end());
    return {"zkey", 1, {{1, a}, {2, h}, {3, fill(3, 1)}, {4, fill(4 + (size_t)nc * (12 + n8r), 9)}}};
}

static void damage(Ctx &c, const Img &im, bool file, bool pairs) {
    bool wt = im.type == "wtns", zk = im.type == "zkey";
    Bytes b = im.bytes(); c.state();
    exercise(c, b, im.type.c_str(), file, "intact " + im.str(), true);
    for (size_t n = 0; n < b.size(); n++) { Bytes t(b.begin(), b.begin() + n); exercise(c, t, im.type.c_str(), file, "first " + std::to_string(n) + " bytes of " + im.str(), true); c.state(); }
    for (size_t n : {1, 4, 11, 12, 13}) { Bytes t = b; t.resize(b.size() + n, 0xff); exercise(c, t, im.type.c_str(), file, im.str() + " with trailing bytes", true); }
    auto fs = fields(im, wt, zk);
    for (size_t i = 0; i < fs.size(); i++) for (uint64_t v : values(b, fs[i])) {
        Bytes t = b; put(t, fs[i].at, v, fs[i].n); c.state();
        std::string w = im.str() + " with " + fs[i].name + "=" + std::to_string(v);
        exercise(c, t, im.type.c_str(), file, w, true);
        if (!pairs) continue;
        for (size_t j = i + 1; j < fs.size(); j++) for (uint64_t u : values(b, fs[j])) { Bytes s = t; put(s, fs[j].at, u, fs[j].n); exercise(c, s, im.type.c_str(), file, w + " and " + fs[j].name + "=" + std::to_string(u), true); }
        // truncated as well
        for (size_t n = 1; n <= 16 && n < t.size(); n += 3) { Bytes s(t.begin(), t.end() - n); exercise(c, s, im.type.c_str(), file, w + " less " + std::to_string(n) + " bytes", true); }
    }
    c.sample("%s: every truncation, every header and directory field over its value alphabet%s", im.str().c_str(), pairs ? ", every pair of fields" : "");
}
// every single byte replaced by every value of an alphabet
static void bytesOf(Ctx &c, const Img &im, bool file, int step) {
    Bytes b = im.bytes();
    for (size_t i = 0; i < b.size(); i++) for (int v = 0; v < 256; v += (i < 12 + 12 * im.secs.size() ? 1 : step)) { Bytes t = b; t[i] = v; exercise(c, t, im.type.c_str(), file, im.str() + " byte " + std::to_string(i) + "=" + std::to_string(v), true); }
    c.state(b.size()); c.sample("%s: every byte of the file", im.str().c_str());
}
// every short string: the type, then words and bytes over an alphabet
static void strings(Ctx &c, bool file, int maxlen) {
    const char *al[] = {"w", "t", "\0", "\1", "\xff"};
    std::string s;
    std::function<void(int)> rec = [&](int left) {
        exercise(c, Bytes(s.begin(), s.end()), "wtns", file, "short text", true); c.state();
        if (!left) return;
        for (auto a : al) { s += std::string(a, 1); rec(left - 1); s.pop_back(); }
    };
    rec(maxlen);
    // after a proper type: every sequence of words
    const uint32_t ws[] = {0, 1, 2, 12, 0xffffffffu};
    Bytes b = {'w', 't', 'n', 's'};
    std::function<void(int)> rw = [&](int left) {
        exercise(c, b, "wtns", file, "type and words", true); c.state();
        for (int k = 1; k < 4; k++) { Bytes t = b; t.resize(b.size() + k, k); exercise(c, t, "wtns", file, "type, words and some bytes", true); }
        if (!left) return;
        for (auto w : ws) { Img::u32(b, w); rw(left - 1); b.resize(b.size() - 4); }
    };
    rw(c.thorough ? 8 : 6);
    c.sample("every text of up to %d symbols, every sequence of up to %d words after the type", maxlen, c.thorough ? 8 : 6);
}

int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    std::vector<std::pair<std::string, Img>> fam = {
        {"empty", {"abcd", 1, {}}}, {"one", {"abcd", 2, {{1, fill(9, 1)}}}}, {"two", {"abcd", 0, {{1, fill(4, 1)}, {2, fill(17, 2)}}}}, {"same", {"abcd", 2, {{5, fill(0, 1)}, {5, fill(3, 2)}, {9, fill(8, 3)}}}},
        {"wtns8", wtns(8, 3)}, {"wtns32", wtns(32, 2)}, {"wtns0", wtns(0, 1)}, {"zkey8", zkey(8, 8, 2)}, {"zkey4-12", zkey(4, 12, 1)}};
    if (th) { fam.push_back({"wtns48", wtns(48, 1)}); fam.push_back({"zkey32", zkey(32, 32, 3)}); fam.push_back({"zkey0", zkey(0, 0, 0)}); }
    for (auto &x : fam) for (bool file : {false, true}) {
        Img im = x.second; std::string n = x.first + (file ? "-file" : "-mem");
        jobs.push_back({"damage-" + n, [=](Ctx &c) { damage(c, im, file, !file || th); }});
        jobs.push_back({"bytes-" + n, [=](Ctx &c) { bytesOf(c, im, file, th ? 1 : 17); }});
    }
    for (bool file : {false, true}) jobs.push_back({std::string("strings-") + (file ? "file" : "mem"), [=](Ctx &c) { strings(c, file, th ? 8 : 6); }});
    Options o; o.jobTimeout = th ? 3000 : 500;
    return run(argc, argv, jobs, o);
}
