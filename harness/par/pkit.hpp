// Shared by the harnesses of the parallel algorithms: small groups, scalars as bytes, guarded inputs.
#pragma once
#include "mcx.hpp"
#include "mcrt.hpp"
#include <cassert>
#include <cstring>
#include <string>
#include <iostream>
#include <stdexcept>
#include <memory>
#define ZP_MAIN
#include "zp.hpp"
#include "num.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
#include "curve.hpp"
#include "tower.hpp"
#include "curvekit.hpp"
#include "misc.hpp"
#include "multiexp.hpp"
#include "msm.hpp"

using namespace mcx;
typedef Group<ZpC> G;
typedef G::Cv Cv;
typedef G::P P;
typedef G::A A;

static uint64_t modBytes(const uint8_t *s, size_t n, uint64_t m) { uint64_t r = 0; for (size_t i = n; i-- > 0;) r = (r * 256 + s[i]) % m; return r; }

// a curve over F_p whose group is cyclic of prime order > 3 if there is one, else the one with the longest cycle
static G *pickCurve(uint64_t p) {
    Zp::setPrime(p); SmallR::m = p;
    G *best = 0; int bestScore = -1;
    for (uint64_t a = 0; a < p; a++) for (uint64_t b = 1; b < p; b++) {
        G *g = new G(a, b);
        int sc = -1;
        if (g->ok) { int o = g->ord[g->best()]; bool pr = o == g->size(); for (int d = 2; d < o; d++) if (o % d == 0) pr = false; sc = o + (pr ? 1000 : 0); }
        if (sc > bestScore) { delete best; best = g; bestScore = sc; } else delete g;
    }
    return best;
}

struct Input {
    size_t n, w;
    std::vector<int> base;            // point indices
    std::vector<uint8_t> sc;          // n*w bytes
    Input(size_t n, size_t w) : n(n), w(w), base(n, 0), sc(n * w, 0) {}
    std::string str() const {
        std::string s = "n=" + std::to_string(n) + " width=" + std::to_string(w) + " [";
        for (size_t i = 0; i < n && i < 6; i++) {
            s += (i ? " P" : "P") + std::to_string(base[i]) + "*0x";
            size_t top = w; while (top > 1 && !sc[i * w + top - 1]) top--;
            for (size_t k = top; k-- > 0;) { char b[3]; snprintf(b, 3, "%02x", sc[i * w + k]); s += b; }
        }
        return s + (n > 6 ? " ...]" : "]");
    }
};
static int expect(const G &g, const std::vector<std::vector<int>> &mul, const Input &in, const std::function<bool(size_t)> &sel = nullptr) {
    int r = 0;
    for (size_t i = 0; i < in.n; i++) {
        if (sel && !sel(i)) continue;
        const auto &m = mul[in.base[i]];
        r = g.sum[r][m[modBytes(&in.sc[i * in.w], in.w, m.size())]];
    }
    return r;
}
