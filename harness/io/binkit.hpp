// Files, guarded memory and error classes for the binary file harnesses.
#pragma once
#include "mcx.hpp"
#include "binfile_utils.hpp"
#include <stdexcept>
#include <system_error>
#include <sys/syscall.h>
#include <fcntl.h>
using namespace mcx;
typedef std::vector<uint8_t> Bytes;

// ---- memory of the reader: every block ends at an inaccessible page and starts close to one
struct Guard {
    static const size_t SLOT = 1 << 20, N = 16, RES = N * SLOT;
    char *area; bool used[N]; size_t mapped[N], len[N]; void *user[N];
    Guard() { area = (char *)mmap(NULL, RES, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); memset(used, 0, sizeof used); memset(mapped, 0, sizeof mapped); }
    static Guard &get() { static Guard *g = new Guard(); return *g; }
    // blocks of several GB are address space until somebody writes to them
    struct Big { char *user; size_t len, map; };
    std::vector<Big> big; bool allowBig = false;
    void *allocBig(size_t n) {
        size_t pages = (n + 4095) / 4096 * 4096;
        char *a = (char *)mmap(NULL, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if ((void *)a == MAP_FAILED) return NULL;
        mprotect(a + pages, 4096, PROT_NONE);
        big.push_back({a + pages - n, n, pages + 4096});
        return big.back().user;
    }
    void *alloc(size_t n) {
        if (allowBig && n > SLOT - 8192) return allocBig(n);
        if (n > SLOT - 8192) return NULL;
        size_t pages = (n + 4095) / 4096; if (!pages) pages = 1;
        for (size_t i = 0; i < N; i++) if (!used[i]) {
            char *end = area + (i + 1) * SLOT - 4096;
            if (mapped[i] != pages) { if (mapped[i]) mprotect(end - mapped[i] * 4096, mapped[i] * 4096, PROT_NONE); mprotect(end - pages * 4096, pages * 4096, PROT_READ | PROT_WRITE); mapped[i] = pages; }
            memset(end - pages * 4096, 0xBD, pages * 4096);
            used[i] = true; len[i] = n; user[i] = end - n;
            return user[i];
        }
        fprintf(stderr, "guard slots exhausted\n"); abort();
    }
    void release(void *p) { if (!p) return; for (size_t i = 0; i < big.size(); i++) if (big[i].user == p) { munmap(big[i].user + big[i].len + 4096 - big[i].map, big[i].map); big.erase(big.begin() + i); return; } for (size_t i = 0; i < N; i++) if (used[i] && user[i] == p) { used[i] = false; return; } fprintf(stderr, "release of unknown block\n"); abort(); }
    void releaseAll() { memset(used, 0, sizeof used); }
    // (a reader that keeps its data elsewhere is judged by the bytes it returns)
    bool inside(const void *p, size_t n) { for (auto &b : big) if ((char *)p >= b.user && (char *)p + n <= b.user + b.len) return true; bool any = !big.empty(); for (size_t i = 0; i < N; i++) any |= used[i]; if (!any) return p && n < SLOT; for (size_t i = 0; i < N; i++) if (used[i] && (char *)p >= (char *)user[i] && (char *)p + n <= (char *)user[i] + len[i]) return true; return false; }
};
extern "C" void *guard_malloc(size_t n) { return Guard::get().alloc(n); }
extern "C" void guard_free(void *p) { Guard::get().release(p); }
// a mapping of a big sparse file: its data is copied and its holes stay address space
extern "C" void *guard_mmap(void *at, size_t n, int prot, int flags, int fd, off_t off) {
    if (fd < 0 || n < (1u << 26) || off) return mmap(at, n, prot, flags, fd, off);
    char *a = (char *)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void *)a == MAP_FAILED) return a;
    for (off_t d = lseek(fd, 0, SEEK_DATA); d >= 0 && (size_t)d < n; d = lseek(fd, d, SEEK_DATA)) {
        off_t e = lseek(fd, d, SEEK_HOLE); if (e < 0 || (size_t)e > n) e = n;
        while (d < e) { ssize_t k = pread(fd, a + d, e - d, d); if (k <= 0) break; d += k; }
        if (d < e) break;
    }
    mprotect(a, n, prot);
    return a;
}

// ---- files
struct Sec { uint32_t id; Bytes data; };
struct Img {
    std::string type; uint32_t version; std::vector<Sec> secs;
    static void u32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
    static void u64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back(v >> (8 * i)); }
    Bytes bytes() const {
        Bytes b(type.begin(), type.end());
        u32(b, version); u32(b, secs.size());
        for (auto &s : secs) { u32(b, s.id); u64(b, s.data.size()); b.insert(b.end(), s.data.begin(), s.data.end()); }
        return b;
    }
    std::string str() const { std::string s = type + " v" + std::to_string(version); for (auto &x : secs) s += " [" + std::to_string(x.id) + ":" + std::to_string(x.data.size()) + "]"; return s; }
};
static Bytes fill(size_t n, unsigned seed) { Bytes b(n); unsigned x = seed * 2654435761u + 12345; for (auto &v : b) { x = x * 1103515245 + 12345; v = x >> 16; } return b; }

// runs f; returns "" or the class of the error it reported (the reader throws objects or pointers)
template<class F> static std::string attempt(F f) {
    try { f(); return ""; }
    catch (std::exception *e) { std::string s = std::string("error: ") + e->what(); return s; }
    catch (const std::exception &e) { return std::string("error: ") + e.what(); }
}

typedef BinFileUtils::BinFile BF;
// the data handed over lies between guard pages too
struct Source {
    char *base; size_t cap;
    Source() { cap = 1 << 20; base = (char *)mmap(NULL, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 4096 + cap, 4096, PROT_NONE); }
    void *put(const Bytes &b) { char *p = base + 4096 + cap - b.size(); if (b.size()) memcpy(p, b.data(), b.size()); return p; }
    static Source &get() { static Source *s = new Source(); return *s; }
};
// the caller's buffer is its own again once the reader exists
static BF *openMem(const Bytes &b, const std::string &type, uint32_t maxv) { void *p = Source::get().put(b); BF *f = new BF(p, b.size(), type, maxv); memset(p, 0xE7, b.size()); return f; }
static int memFd() { static int fd = syscall(SYS_memfd_create, "bin", 0); return fd; }
static std::unique_ptr<BF> openFile(const Bytes &b, const std::string &type, uint32_t maxv) {
    int fd = memFd();
    if (ftruncate(fd, 0) || pwrite(fd, b.data(), b.size(), 0) != (ssize_t)b.size()) { fprintf(stderr, "scratch file\n"); abort(); }
    return BinFileUtils::openExisting("/proc/self/fd/" + std::to_string(fd), type, maxv);
}
static std::unique_ptr<BF> openAs(bool file, const Bytes &b, const std::string &type, uint32_t maxv) { if (file) return openFile(b, type, maxv); return std::unique_ptr<BF>(openMem(b, type, maxv)); }
