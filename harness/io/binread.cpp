// B01: the sectioned-file reader in lockstep with a model of its reading protocol.
#include <set>
#include "binkit.hpp"

struct Op { int kind; uint32_t id, pos; uint64_t n;    // 0 start, 1 end(check), 2 end(no check), 3 u32, 4 u64, 5 read n
    std::string str() const { static const char *k[] = {"start", "end", "end(false)", "u32", "u64", "read"}; std::string s = k[kind]; if (!kind) s += "(" + std::to_string(id) + "," + std::to_string(pos) + ")"; if (kind == 5) s += "(" + std::to_string(n) + ")"; return s; } };
struct St { int open; size_t pos; bool operator<(const St &o) const { return open != o.open ? open < o.open : pos < o.pos; } };

struct Model {
    Ctx &c; const Img &im; bool file; std::string ctx; Bytes raw; std::vector<size_t> at;
    std::map<uint32_t, std::vector<int>> dir;
    Model(Ctx &c, const Img &im, bool file) : c(c), im(im), file(file), ctx(im.str() + (file ? " (file)" : " (memory)")), raw(im.bytes()) {
        size_t p = 12;
        for (size_t i = 0; i < im.secs.size(); i++) { p += 12; at.push_back(p); p += im.secs[i].data.size(); dir[im.secs[i].id].push_back(i); }
    }
    std::vector<Op> ops() const {
        std::vector<Op> v;
        for (auto &d : dir) for (uint32_t k = 0; k <= d.second.size(); k++) v.push_back({0, d.first, k, 0});
        v.push_back({0, 77, 0, 0});
        v.push_back({1}); v.push_back({2}); v.push_back({3}); v.push_back({4});
        for (uint64_t n : {0, 1, 3, 9}) v.push_back({5, 0, 0, n});
        return v;
    }
    int section(const Op &o) const { auto d = dir.find(o.id); return d == dir.end() || o.pos >= d->second.size() ? -1 : d->second[o.pos]; }
    size_t len(const Op &o) const { return o.kind == 3 ? 4 : o.kind == 4 ? 8 : o.n; }
    // performs one call on the reader and checks it; returns false when the state after it is not specified
    bool step(BF &f, St &s, const Op &o, const std::string &hist) {
        c.trans(); c.eval();
        auto bad = [&](const char *key, const std::string &t) { c.viol(key, "%s: after%s, %s: %s", ctx.c_str(), hist.c_str(), o.str().c_str(), t.c_str()); };
        if (o.kind == 0) {
            int k = section(o);
            std::string e = attempt([&] { if (o.pos == 0 && hist.size() % 3 != 1) f.startReadSection(o.id); else f.startReadSection(o.id, o.pos); });   // both forms
            bool want = k >= 0 && s.open < 0;
            if (want && !e.empty()) { bad("read:start-refused", e); return false; }
            if (!want && e.empty()) { bad(k < 0 ? "read:absent-section-opened" : "read:opened-twice", "accepted"); return false; }
            if (want) { s.open = k; s.pos = 0; }
            return true;
        }
        if (o.kind <= 2) {
            std::string e = attempt([&] { if (o.kind == 1) f.endReadSection(); else f.endReadSection(false); });
            if (s.open < 0) { if (e.empty() && o.kind == 1) bad("read:end-without-start", "accepted"); return false; }
            bool want = o.kind == 2 || s.pos == im.secs[s.open].data.size();
            if (want && !e.empty()) { bad("read:end-refused", e); return false; }
            if (!want && e.empty()) { bad("read:incomplete-section-finished", "accepted at byte " + std::to_string(s.pos)); return false; }
            if (!want) return false;
            s.open = -1; s.pos = 0;
            return true;
        }
        if (s.open < 0) return false;     // reading with no section open is not specified (B02 covers its bounds)
        const Bytes &d = im.secs[s.open].data;
        size_t n = len(o);
        uint64_t v = 0; void *p = 0;
        std::string e = attempt([&] { if (o.kind == 3) v = f.readU32LE(); else if (o.kind == 4) v = f.readU64LE(); else p = f.read(n); });
        if (s.pos + n > d.size()) {
            // beyond the section: refused here, or reported when the section is finished
            if (e.empty() && attempt([&] { f.endReadSection(); }).empty()) bad("read:beyond-section", "neither the read nor finishing the section is refused");
            return false;
        }
        if (!e.empty()) { bad("read:refused", e); return false; }
        if (o.kind == 5) {
            if (!p || (n && !Guard::get().inside(p, n))) { bad("read:outside", "pointer outside the data"); return false; }
            if (n && memcmp(p, d.data() + s.pos, n)) bad("read:bytes", "wrong bytes at " + std::to_string(s.pos));
        } else {
            uint64_t w = 0; for (size_t i = 0; i < n; i++) w |= (uint64_t)d[s.pos + i] << (8 * i);
            if (v != w) bad("read:value", "got " + std::to_string(v) + ", not " + std::to_string(w));
        }
        if (n) c.nontrivial();
        s.pos += n;
        return true;
    }
    void directory() {
        auto f = openAs(file, raw, im.type, im.version);
        c.state();
        std::set<uint32_t> ids = {0u, 1u, 2u, 3u, 7u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
        for (auto &s : im.secs) ids.insert(s.id);
        for (size_t i = 0; i < 6; i++) for (auto id : ids) {
            Op o{0, id, (uint32_t)i, 0}; int k = section(o);
            uint64_t sz = 0; void *p = 0;
            std::string e1 = attempt([&] { sz = f->getSectionSize(id, i); }), e2 = attempt([&] { p = f->getSectionData(id, i); });
            c.eval(2); if (k >= 0) c.nontrivial();
            if (k < 0 && (e1.empty() || e2.empty())) c.viol("dir:absent", "%s: section %u position %zu does not exist but is returned", ctx.c_str(), id, i);
            if (k < 0) continue;
            const Bytes &d = im.secs[k].data;
            if (!e1.empty() || !e2.empty()) c.viol("dir:missing", "%s: section %u position %zu: %s", ctx.c_str(), id, i, (e1 + e2).c_str());
            else if (sz != d.size()) c.viol("dir:size", "%s: section %u position %zu has size %llu", ctx.c_str(), id, i, (unsigned long long)sz);
            else if (!Guard::get().inside(p, sz) || (sz && memcmp(p, d.data(), sz))) c.viol("dir:data", "%s: section %u position %zu has other bytes", ctx.c_str(), id, i);
        }
        // default position is the first
        for (auto &d : dir) {
            c.eval();
            std::string e = attempt([&] { if (f->getSectionSize(d.first) != im.secs[d.second[0]].data.size() || f->getSectionData(d.first) != f->getSectionData(d.first, 0)) c.viol("dir:default", "%s: section %u", ctx.c_str(), d.first); });
            if (!e.empty()) c.viol("dir:default", "%s: section %u: %s", ctx.c_str(), d.first, e.c_str());
        }
    }
    // every reachable protocol state, every call from it; then every call sequence up to the depth
    void protocol(int depth) {
        auto all = ops();
        std::map<St, std::vector<Op>> seen; std::vector<St> q = {{-1, 0}}; seen[q[0]] = {};
        for (size_t i = 0; i < q.size(); i++) {
            auto path = seen[q[i]];
            c.state();
            for (auto &o : all) {
                auto f = openAs(file, raw, im.type, im.version);
                St s{-1, 0}; std::string h;
                for (auto &x : path) { step(*f, s, x, h); h += " " + x.str(); }
                if (step(*f, s, o, h) && !seen.count(s)) { auto np = path; np.push_back(o); seen[s] = np; q.push_back(s); }
            }
        }
        std::vector<Op> path;
        std::function<void(int)> rec = [&](int d) {
            for (auto &o : all) {
                auto f = openAs(file, raw, im.type, im.version);
                St s{-1, 0}; std::string h; bool ok = true;
                for (auto &x : path) { ok = step(*f, s, x, h); h += " " + x.str(); }
                ok = step(*f, s, o, h);
                if (ok && d > 1) { path.push_back(o); rec(d - 1); path.pop_back(); }
            }
        };
        if (depth) rec(depth);
    }
    // a complete read of every section in every order
    void readAll() {
        int n = im.secs.size();
        std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
        do for (int how = 0; how < 3; how++) {
            auto f = openAs(file, raw, im.type, im.version);
            std::string h;
            for (int k : ord) {
                auto &v = dir[im.secs[k].id]; uint32_t pos = std::find(v.begin(), v.end(), k) - v.begin();
                St s{-1, 0}; Op st{0, im.secs[k].id, pos, 0};
                if (!step(*f, s, st, h)) break;
                h += " " + st.str();
                while (true) {
                    size_t left = im.secs[k].data.size() - s.pos; Op o{5, 0, 0, left};
                    if (!left) break;
                    if (how == 1) o = left >= 8 ? Op{4} : left >= 4 ? Op{3} : Op{5, 0, 0, 1};
                    if (how == 2) o = left >= 4 ? Op{3} : Op{5, 0, 0, left};
                    if (!step(*f, s, o, h)) break;
                    h += " " + o.str();
                }
                Op en{1}; if (!step(*f, s, en, h)) break;
                h += " end";
            }
        } while (std::next_permutation(ord.begin(), ord.end()));
    }
};

// every single bit of types, versions, identifiers and positions counts
static void bits(Ctx &c, bool file) {
    std::vector<uint32_t> vs;
    for (int b = 0; b < 32; b++) for (int d = -1; d <= (file ? 0 : 1); d++) vs.push_back((1u << b) + d);
    for (auto v : vs) {
        Img im{"zkey", v, {{1, fill(3, 1)}}}; Bytes raw = im.bytes(); c.state();
        for (auto m : vs) {
            std::string e = attempt([&] { openAs(file, raw, im.type, m); });
            Guard::get().releaseAll(); c.eval(); c.trans(); if (v <= m) c.nontrivial();
            if ((v <= m) != e.empty()) c.viol("open:version", "%s version %u opened up to version %u: %s", file ? "disk" : "memory", v, m, e.empty() ? "accepted" : e.c_str());
        }
    }
    Img im{"zkey", 1, {{1, fill(3, 1)}}};
    for (int b = 0; b < 32; b++) for (int side = 0; side < 2; side++) {
        Img x = im; std::string want = "zkey"; (side ? want : x.type)[b / 8] ^= 1 << (b % 8);
        Bytes raw = x.bytes(); c.eval(); c.trans();
        if (attempt([&] { openAs(file, raw, want, 2); }).empty()) c.viol("open:type", "type differing in bit %d is accepted", b);
        Guard::get().releaseAll();
    }
    for (uint32_t a : {0u, 1u, 2u, 0x80000001u, 0xffffffffu}) for (int b = 0; b < 32; b++) {
        uint32_t id = a ^ (1u << b);
        Img two{"zkey", 1, {{a, fill(6, 1)}, {id, fill(9, 2)}, {a, fill(4, 3)}}};
        Model m(c, two, file); c.cur("%s", m.ctx.c_str());
        m.directory(); m.readAll();
        auto f = openAs(file, m.raw, "zkey", 1);
        for (uint32_t pos : {1u << b, (1u << b) | 1u, ~(1u << b)}) {
            bool there = pos < 2; c.eval(3); c.trans();
            bool r[3] = {attempt([&] { f->getSectionSize(a, pos); }).empty(), attempt([&] { f->getSectionData(a, pos); }).empty(), attempt([&] { f->startReadSection(a, pos); f->endReadSection(false); }).empty()};
            for (int k = 0; k < 3; k++) if (r[k] != there) c.viol("dir:position", "%s: section %u position %u is %s", m.ctx.c_str(), a, pos, r[k] ? "returned" : "refused");
        }
    }
    c.sample("%s: types, versions, identifiers and positions that differ in one bit", file ? "disk" : "memory");
}

static void accept(Ctx &c) {
    // types and versions
    for (bool file : {false, true}) for (const char *t : {"wtns", "zkey", "abcd", "WTNS", "wtn\0", "\xff\xfe\x80\x01"}) for (uint32_t v : {0u, 1u, 2u, 3u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
        std::string ty(t, 4); Img im{ty, v, {{1, fill(5, 1)}}};
        Bytes b = im.bytes(); c.state();
        for (const char *u : {"wtns", "zkey", "abcd", "wtnt", "ntws", "wtn\0", "\xff\xfe\x80\x01"}) for (uint32_t m : {0u, 1u, 2u, 3u, 254u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
            std::string uy(u, 4);
            std::string e = attempt([&] { openAs(file, b, uy, m); });
            Guard::get().releaseAll();
            bool want = ty == uy && v <= m; c.eval(); c.trans(); if (want) c.nontrivial();
            if (want != e.empty()) c.viol(ty != uy ? "open:type" : "open:version", "%s file '%s' version %u opened as '%s' up to version %u: %s", file ? "disk" : "memory", t, v, u, m, e.empty() ? "accepted" : e.c_str());
        }
        for (const char *u : {"", "w", "wtnsx", "zkeyzkey", "wtn"}) {
            c.eval(); std::string uy(u);
            if (attempt([&] { openAs(file, b, uy, 0xffffffffu); }).empty()) c.viol("open:type", "file '%s' opened as '%s'", t, u);
            Guard::get().releaseAll();
        }
    }
    c.eval(3);
    if (attempt([&] { BF f("/nonexistent/really/not.bin", "wtns", 2); }).empty()) c.viol("open:absent", "a file that does not exist is opened");
    if (attempt([&] { BF f("", "wtns", 2); }).empty()) c.viol("open:absent", "an empty name is opened");
    c.cur("a directory as file");
    if (attempt([&] { BF f("/proc/self/fd", "wtns", 2); }).empty()) c.viol("open:directory", "a directory is opened");
    std::string here(256, 0); if (!getcwd(&here[0], 256)) here = "/"; here = here.c_str();
    if (attempt([&] { BF f(here, "wtns", 2); }).empty()) c.viol("open:directory", "a directory is opened");
    c.sample("every type and version of the alphabet against every expected type and maximum version");
}

// sections and positions beyond 31 and 32 bits
static void large(Ctx &c, bool file, const std::vector<std::pair<uint32_t, uint64_t>> &secs) {
    struct Free { ~Free() { Guard::get().allowBig = false; } } undo;
    Guard::get().allowBig = true;
    uint64_t size = 12; std::vector<uint64_t> at;
    std::string ctx = file ? "file" : "memory";
    for (auto &s : secs) { size += 12; at.push_back(size); size += s.second; ctx += " [" + std::to_string(s.first) + ":" + std::to_string(s.second) + "]"; }
    std::map<uint64_t, Bytes> img;      // what is not zero
    Bytes h = {'z', 'k', 'e', 'y'}; Img::u32(h, 1); Img::u32(h, secs.size()); img[0] = h;
    auto marks = [&](uint64_t n) { std::vector<uint64_t> m; for (uint64_t o : std::vector<uint64_t>{0, n > 8 ? n - 8 : 0, 1ull << 31, 1ull << 32, (1ull << 32) + 4}) if (o + 4 <= n && std::none_of(m.begin(), m.end(), [&](uint64_t x) { return x < o + 4 && o < x + 4; })) m.push_back(o); return m; };
    auto mark = [&](size_t i, uint64_t o) { return (uint32_t)(0x9E3779B9u * (i + 1) + 0x01000193u * (uint32_t)(o ^ o >> 29) | 1); };
    for (size_t i = 0; i < secs.size(); i++) {
        Bytes d; Img::u32(d, secs[i].first); Img::u64(d, secs[i].second); img[at[i] - 12] = d;
        for (uint64_t o : marks(secs[i].second)) { Bytes m; Img::u32(m, mark(i, o)); img[at[i] + o] = m; }
    }
    c.cur("%s", ctx.c_str()); c.state();
    char *src = 0; int fd = -1;
    if (file) {
        fd = syscall(SYS_memfd_create, "big", 0);
        if (ftruncate(fd, size)) { c.sample("no sparse files here"); return; }
        for (auto &m : img) if (pwrite(fd, m.second.data(), m.second.size(), m.first) < 0) { c.sample("no sparse files here"); return; }
    } else {
        src = (char *)mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if ((void *)src == MAP_FAILED) { c.sample("no address space"); return; }
        for (auto &m : img) memcpy(src + m.first, m.second.data(), m.second.size());
    }
    auto bad = [&](const char *key, const std::string &t) { c.viol(key, "%s: %s", ctx.c_str(), t.c_str()); };
    std::unique_ptr<BF> f;
    std::string e = attempt([&] { if (file) f = BinFileUtils::openExisting("/proc/self/fd/" + std::to_string(fd), "zkey", 1); else f.reset(new BF(src, size, "zkey", 1)); });
    if (!e.empty()) bad("large:refused", e);
    else for (size_t i = 0; i < secs.size(); i++) {
        auto [id, n] = secs[i];
        uint32_t pos = 0; for (size_t k = 0; k < i; k++) pos += secs[k].first == id;
        std::string who = "section " + std::to_string(id) + " position " + std::to_string(pos) + ": ";
        auto ok = [&](const char *key, const std::function<void()> &fn) { c.eval(); c.trans(); c.nontrivial(); std::string e = attempt(fn); if (!e.empty()) bad(key, who + e); };
        auto is = [&](const char *p, uint64_t o) { uint32_t v; memcpy(&v, p, 4); return v == mark(i, o); };
        ok("large:dir", [&] {
            if (f->getSectionSize(id, pos) != n) bad("large:size", who + std::to_string(f->getSectionSize(id, pos)));
            char *p = (char *)f->getSectionData(id, pos);
            if (n && !Guard::get().inside(p, n)) bad("large:data", who + "outside the data");
            else for (uint64_t o : marks(n)) if (!is(p + o, o)) bad("large:data", who + "wrong at " + std::to_string(o));
        });
        // one read; reads that stop at every mark; refused ends at every mark and at positions that differ by 2^32
        ok("large:read", [&] { f->startReadSection(id, pos); char *p = (char *)f->read(n); if (n && !Guard::get().inside(p, n)) bad("large:data", who + "outside"); else for (uint64_t o : marks(n)) if (!is(p + o, o)) bad("large:bytes", who + "wrong at " + std::to_string(o)); f->endReadSection(); });
        ok("large:read", [&] {
            f->startReadSection(id, pos); uint64_t q = 0;
            auto ms = marks(n); std::sort(ms.begin(), ms.end());
            for (uint64_t o : ms) { if (o < q) continue; f->read(o - q); if (f->readU32LE() != mark(i, o)) bad("large:value", who + "wrong at " + std::to_string(o)); q = o + 4; }
            f->read(n - q); f->endReadSection();
        });
        for (uint64_t stop : std::vector<uint64_t>{0, 1, n - 1, n - (1ull << 31), n - (1ull << 32), n + (1ull << 32)}) if (stop < size - at[i] && stop != n) {
            c.eval(); c.trans();
            std::string e1 = attempt([&] { f->startReadSection(id, pos); f->read(stop); });
            if (!e1.empty()) { if (stop < n) bad("large:read", who + e1); attempt([&] { f->endReadSection(false); }); continue; }
            if (attempt([&] { f->endReadSection(); }).empty()) bad("large:incomplete-section-finished", who + "finished at " + std::to_string(stop));
            else attempt([&] { f->endReadSection(false); });
        }
    }
    f.reset();
    if (src) munmap(src, size);
    if (fd >= 0) close(fd);
}

// more sections than a byte or a half word counts, under one identifier, a few or as many
static void many(Ctx &c, bool file, uint32_t n, int kind) {
    auto id = [&](uint32_t i) { return kind == 0 ? 6u : kind == 1 ? i % 3 : kind == 2 ? i : i * 0x01000001u + 0xfff0u; };
    Img im{"zkey", 1, {}}; std::map<uint32_t, std::vector<uint32_t>> dir;
    for (uint32_t i = 0; i < n; i++) { dir[id(i)].push_back(i); Bytes d; for (uint32_t k = 0; k < i % 4; k++) d.push_back(i * 31 + (i >> 8) * 7 + k); im.secs.push_back({id(i), d}); }
    char ctx[80]; snprintf(ctx, sizeof ctx, "%s of %u sections, identifiers of kind %d", file ? "file" : "memory", n, kind);
    c.cur("%s", ctx); c.state(); c.nontrivial();
    std::unique_ptr<BF> f; std::string e = attempt([&] { f = openAs(file, im.bytes(), "zkey", 1); });
    if (!e.empty()) { c.viol("many:refused", "%s: %s", ctx, e.c_str()); Guard::get().releaseAll(); return; }
    for (auto &d : dir) for (uint32_t k = 0; k <= d.second.size(); k++) {
        c.eval(2); c.trans();
        bool is = k < d.second.size(); const Bytes *w = is ? &im.secs[d.second[k]].data : 0;
        e = attempt([&] {
            uint64_t sz = f->getSectionSize(d.first, k); void *p = f->getSectionData(d.first, k);
            if (w && (sz != w->size() || (sz && (!Guard::get().inside(p, sz) || memcmp(p, w->data(), sz))))) throw std::logic_error("other bytes");
        });
        std::string e2 = attempt([&] { f->startReadSection(d.first, k); void *p = f->read(w ? w->size() : 0); if (w && w->size() && memcmp(p, w->data(), w->size())) throw std::logic_error("other bytes"); f->endReadSection(); });
        if (is && !(e + e2).empty()) { c.viol("many:section", "%s: section %u position %u: %s", ctx, d.first, k, (e + e2).c_str()); break; }
        if (!is && (e.empty() || e2.empty())) c.viol("many:absent", "%s: section %u position %u does not exist but is returned", ctx, d.first, k);
    }
    f.reset(); Guard::get().releaseAll();
}

int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Job> jobs;
    jobs.push_back({"accept", accept});
    // families of files
    std::vector<uint32_t> ids = {1, 2, 0, 0xffffffffu};
    std::vector<size_t> sz = th ? std::vector<size_t>{0, 1, 3, 4, 8, 9, 13, 4096} : std::vector<size_t>{0, 1, 4, 8, 13};
    for (bool file : {false, true}) for (int n = 0; n <= 3; n++) for (uint32_t first : n ? ids : std::vector<uint32_t>{0}) {
        char nm[60]; snprintf(nm, sizeof nm, "dir-%s-%d-%x", file ? "file" : "mem", n, first);
        jobs.push_back({nm, [=](Ctx &c) {
            std::vector<int> d(2 * n, 0); int count = 0;
            while (true) {
                bool skip = n && ids[d[0]] != first;
                if (!skip) {
                    Img im{"wtns", 2, {}};
                    for (int i = 0; i < n; i++) im.secs.push_back({ids[d[2 * i]], fill(sz[d[2 * i + 1]], i + 1)});
                    Model m(c, im, file); c.cur("%s", m.ctx.c_str());
                    m.directory(); m.readAll(); count++;
                }
                int i = 0; for (; i < 2 * n; i++) { if (++d[i] < (int)(i & 1 ? sz.size() : ids.size())) break; d[i] = 0; }
                if (i == 2 * n) break;
            }
            c.sample("%d files of %d sections: directory and complete reads in every order", count, n);
        }});
    }
    std::vector<std::vector<std::pair<uint32_t, size_t>>> fam = {{}, {{1, 0}}, {{1, 5}}, {{1, 12}}, {{1, 4}, {2, 9}}, {{1, 8}, {1, 4}}, {{2, 0}, {1, 3}, {2, 8}}, {{3, 1}, {3, 1}, {3, 12}}};
    for (size_t k = 0; k < fam.size(); k++) for (bool file : {false, true}) jobs.push_back({"protocol-" + std::to_string(k) + (file ? "-file" : "-mem"), [=](Ctx &c) {
        Img im{"zkey", 1, {}}; for (size_t i = 0; i < fam[k].size(); i++) im.secs.push_back({fam[k][i].first, fill(fam[k][i].second, i + 7)});
        Model m(c, im, file); c.cur("%s", m.ctx.c_str());
        m.protocol(file ? (th ? 4 : 3) : th ? 6 : 5);
        c.sample("%s: every reachable state with every call, and every call sequence", m.ctx.c_str());
    }});
    const uint64_t G2 = 1ull << 31, G4 = 1ull << 32;
    std::vector<std::vector<std::pair<uint32_t, uint64_t>>> big = {{{1, G4}}, {{1, G4 + 5}, {2, 9}}, {{1, 9}, {2, G4 - 1}, {3, 8}}, {{4, G2 + 3}, {1, 12}, {4, G2}, {2, 8}}, {{1, 4}, {1, G2}, {1, 7}}, {{2, G4 + G2}, {1, G4 + 8}, {7, 0}, {1, 6}}};
    for (size_t k = 0; k < big.size(); k++) for (bool file : {false, true}) jobs.push_back({"large-" + std::to_string(k) + (file ? "-file" : "-mem"), [=](Ctx &c) {
        large(c, file, big[k]);
        std::string t; for (auto &s : big[k]) t += " " + std::to_string(s.first) + ":" + std::to_string(s.second);
        c.sample("sparse %s with sections%s: directory, complete reads, reads that stop early", file ? "file" : "memory", t.c_str());
    }});
    for (bool file : {false, true}) jobs.push_back({std::string("bits-") + (file ? "file" : "mem"), [=](Ctx &c) { bits(c, file); }});
    for (bool file : {false, true}) for (int kind = 0; kind < 4; kind++) jobs.push_back({std::string("many-") + (file ? "file-" : "mem-") + std::to_string(kind), [=](Ctx &c) {
        for (uint32_t n : {4u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u}) many(c, file, n, kind);
        c.sample("files of up to 65537 sections: every section by identifier and position");
    }});
    Options o; o.jobTimeout = th ? 3000 : 500;
    return run(argc, argv, jobs, o);
}
