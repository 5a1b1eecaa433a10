// A64 integer subset. Any of these ends the process with a message (the job runner reports it with the case at hand):
// an access outside operands, tables and own stack frame; use of a register, flag or stack word nobody set; a reserved
// register changed; a jump outside the code; an unknown instruction; not coming back.
#include "arm64emu.hpp"
#include <elf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
uint64_t armSteps = 0;
typedef unsigned __int128 u128;

enum Op : uint8_t { BAD, ADDI, SUBI, ADDR_, SUBR, ADDX, SUBX, ADC_, SBC_, ANDR, ORRR, EORR, ANDI, ORRI, EORI, MOVZ, MOVN, MOVK, SBFM, BFM, UBFM, EXTR,
    CSEL, CCMPR, CCMPI, LSLV, LSRV, ASRV, RORV, UDIV, SDIV, CLZ, CLS, RBIT, REV, MADD, MSUB, UMULH, SMULH, UMADDL, SMADDL, ADRC, BR_, BL_, BCOND, CBZ_, CBNZ_, TBZ_, TBNZ_, BREG, BLREG, RET_,
    LDP_, STP_, LDR_, STR_, LDRS, LDRR, STRR, LDRL, NOP_ };
struct In { Op op; uint8_t sf, rd, rn, rm, ra, s, inv, sh, amt, cond, mode, size; uint64_t imm; };   // mode: 0 offset, 1 post, 3 pre

struct ArmImage {
    std::string label;
    std::vector<uint64_t> store;
    uint8_t *base; size_t size;
    std::vector<In> code;
    std::map<std::string, int> sym;
};
static void die(const char *what, const char *routine, ArmImage *im, uint64_t pc) {
    fprintf(stderr, "ARM64 %s %s at +0x%llx: %s\n", im->label.c_str(), routine, (unsigned long long)pc, what);
    fflush(stderr);
    abort();
}
static uint64_t sx(uint64_t v, int bits) { return (uint64_t)((int64_t)(v << (64 - bits)) >> (64 - bits)); }
static uint64_t ror(uint64_t v, int r, int w) { v &= w == 64 ? ~0ull : (1ull << w) - 1; r %= w; if (!r) return v; uint64_t x = (v >> r) | (v << (w - r)); return w == 64 ? x : x & ((1ull << w) - 1); }
static bool bitmask(int N, int immr, int imms, int sf, uint64_t &out) {
    int len = -1; int v = (N << 6) | (~imms & 63);
    for (int i = 6; i >= 0; i--) if (v >> i & 1) { len = i; break; }
    if (len < 1) return false;
    int es = 1 << len, S = imms & (es - 1), R = immr & (es - 1);
    if (S == es - 1) return false;
    uint64_t w = S == 63 ? ~0ull : (1ull << (S + 1)) - 1;
    w = ror(w, R, es);
    out = 0; for (int i = 0; i < 64; i += es) out |= w << i;
    if (!sf) out &= 0xffffffff;
    return true;
}
static In decode(uint32_t w) {
    In i; memset(&i, 0, sizeof i); i.op = BAD;
    i.sf = w >> 31; i.rd = w & 31; i.rn = w >> 5 & 31; i.rm = w >> 16 & 31; i.ra = w >> 10 & 31;
    auto b = [&](int hi, int lo) { return (w >> lo) & ((1u << (hi - lo + 1)) - 1); };
    if ((w & 0xfffff01f) == 0xd503201f) { i.op = NOP_; return i; }
    if (b(28, 24) == 0x10) { i.op = ADRC; uint64_t v = sx((b(23, 5) << 2) | b(30, 29), 21); i.mode = w >> 31; i.imm = i.mode ? v << 12 : v; return i; }
    if (b(28, 23) == 0x22) { i.op = b(30, 30) ? SUBI : ADDI; i.s = b(29, 29); i.imm = (uint64_t)b(21, 10) << (b(22, 22) ? 12 : 0); return i; }
    if (b(28, 23) == 0x24) { uint64_t m; if (!bitmask(b(22, 22), b(21, 16), b(15, 10), i.sf, m)) return i; i.imm = m; int o = b(30, 29); i.op = o == 1 ? ORRI : o == 2 ? EORI : ANDI; i.s = o == 3; return i; }
    if (b(28, 23) == 0x25) { int o = b(30, 29); i.amt = b(22, 21) * 16; i.imm = b(20, 5); i.op = o == 0 ? MOVN : o == 2 ? MOVZ : o == 3 ? MOVK : BAD; return i; }
    if (b(28, 23) == 0x26) { int o = b(30, 29); i.amt = b(21, 16); i.sh = b(15, 10); i.op = o == 0 ? SBFM : o == 1 ? BFM : o == 2 ? UBFM : BAD; return i; }
    if (b(28, 23) == 0x27 && b(30, 29) == 0 && b(21, 21) == 0) { i.op = EXTR; i.amt = b(15, 10); return i; }
    if (b(28, 24) == 0x0a) { int o = b(30, 29); i.sh = b(23, 22); i.inv = b(21, 21); i.amt = b(15, 10); i.op = o == 1 ? ORRR : o == 2 ? EORR : ANDR; i.s = o == 3; return i; }
    if (b(28, 24) == 0x0b) {
        i.s = b(29, 29);
        if (b(21, 21)) { i.op = b(30, 30) ? SUBX : ADDX; i.sh = b(15, 13); i.amt = b(12, 10); }
        else { i.op = b(30, 30) ? SUBR : ADDR_; i.sh = b(23, 22); i.amt = b(15, 10); if (i.sh == 3) i.op = BAD; }
        return i;
    }
    if (b(28, 21) == 0xd0 && b(15, 10) == 0) { i.op = b(30, 30) ? SBC_ : ADC_; i.s = b(29, 29); return i; }
    if (b(28, 21) == 0xd2 && b(10, 10) == 0 && b(29, 29)) { i.op = b(11, 11) ? CCMPI : CCMPR; i.inv = b(30, 30); i.cond = b(15, 12); i.imm = b(20, 16); i.amt = b(3, 0); return i; }
    if (b(28, 21) == 0xd4 && b(29, 29) == 0) { i.op = CSEL; i.cond = b(15, 12); i.inv = b(30, 30); i.amt = b(11, 10); if (i.amt > 1) i.op = BAD; return i; }
    if (b(28, 21) == 0xd6 && b(29, 29) == 0) {
        int o = b(15, 10);
        if (!b(30, 30)) i.op = o == 2 ? UDIV : o == 3 ? SDIV : o == 8 ? LSLV : o == 9 ? LSRV : o == 10 ? ASRV : o == 11 ? RORV : BAD;
        else if (b(20, 16) == 0) i.op = o == 0 ? RBIT : o == 4 ? CLZ : o == 5 ? CLS : (o == 3 && i.sf) || (o == 2 && !i.sf) ? REV : BAD;
        return i;
    }
    if (b(28, 24) == 0x1b && b(30, 29) == 0) {
        int o = b(23, 21), o0 = b(15, 15);
        i.op = o == 0 ? (o0 ? MSUB : MADD) : o == 6 && !o0 && i.sf ? UMULH : o == 2 && !o0 && i.sf ? SMULH : o == 5 && !o0 ? UMADDL : o == 1 && !o0 ? SMADDL : BAD;
        return i;
    }
    if (b(30, 26) == 0x05) { i.op = w >> 31 ? BL_ : BR_; i.imm = sx(b(25, 0), 26) * 4; return i; }
    if (b(31, 24) == 0x54 && !b(4, 4)) { i.op = BCOND; i.cond = b(3, 0); i.imm = sx(b(23, 5), 19) * 4; return i; }
    if (b(30, 25) == 0x1a) { i.op = b(24, 24) ? CBNZ_ : CBZ_; i.imm = sx(b(23, 5), 19) * 4; return i; }
    if (b(30, 25) == 0x1b) { i.op = b(24, 24) ? TBNZ_ : TBZ_; i.amt = (b(31, 31) << 5) | b(23, 19); i.imm = sx(b(18, 5), 14) * 4; i.sf = 1; return i; }
    if (b(31, 25) == 0x6b && b(20, 10) == 0x7c0 && b(4, 0) == 0) { int o = b(24, 21); i.op = o == 0 ? BREG : o == 1 ? BLREG : o == 2 ? RET_ : BAD; return i; }
    if (b(29, 27) == 5 && !b(26, 26)) {
        int o = b(31, 30), m = b(25, 23); if (o == 1 || o == 3 || m > 3) return i;
        i.size = o == 2 ? 3 : 2; i.op = b(22, 22) ? LDP_ : STP_; i.mode = m == 0 ? 0 : m == 1 ? 1 : m == 3 ? 3 : 0; i.imm = sx(b(21, 15), 7) << i.size; i.sf = i.size == 3; return i;
    }
    if (b(29, 27) == 7 && !b(26, 26)) {
        i.size = b(31, 30); int opc = b(23, 22); if (opc == 3 && i.size >= 2) return i; if (opc == 2 && i.size == 3) { i.op = NOP_; return i; }   // prefetch
        i.sf = i.size == 3 || opc == 2;
        if (b(25, 24) == 1) { i.imm = (uint64_t)b(21, 10) << i.size; i.mode = 0; i.op = opc == 0 ? STR_ : opc == 1 ? LDR_ : LDRS; return i; }
        if (b(25, 24) == 0 && !b(21, 21)) { int m = b(11, 10); if (m == 2) return i; i.imm = sx(b(20, 12), 9); i.mode = m; i.op = opc == 0 ? STR_ : opc == 1 ? LDR_ : LDRS; return i; }
        if (b(25, 24) == 0 && b(21, 21) && b(11, 10) == 2) { if (opc > 1) return i; i.sh = b(15, 13); i.amt = b(12, 12) ? i.size : 0; i.op = opc ? LDRR : STRR; return i; }
        return i;
    }
    if (b(29, 24) == 0x18) { int o = b(31, 30); if (o > 1) return i; i.size = o ? 3 : 2; i.op = LDRL; i.imm = sx(b(23, 5), 19) * 4; return i; }
    return i;
}

ArmImage *armLoad(const unsigned char *elf, size_t size, const char *label) {
    ArmImage *im = new ArmImage; im->label = label;
    auto *eh = (const Elf64_Ehdr *)elf;
    auto *sh = (const Elf64_Shdr *)(elf + eh->e_shoff);
    const char *names = (const char *)elf + sh[eh->e_shstrndx].sh_offset;
    int nsec = eh->e_shnum;
    std::vector<uint64_t> off(nsec, ~0ull); uint64_t total = 0;
    for (int i = 0; i < nsec; i++) if ((sh[i].sh_flags & SHF_ALLOC) && sh[i].sh_size) { total = (total + 255) & ~255ull; off[i] = total; total += sh[i].sh_size; }
    im->store.assign((total + 511) / 8 + 64, 0);
    im->base = (uint8_t *)(((uint64_t)im->store.data() + 255) & ~255ull); im->size = total;
    for (int i = 0; i < nsec; i++) if (off[i] != ~0ull && sh[i].sh_type != SHT_NOBITS) memcpy(im->base + off[i], elf + sh[i].sh_offset, sh[i].sh_size);
    (void)names;
    for (int i = 0; i < nsec; i++) if (sh[i].sh_type == SHT_SYMTAB) {
        auto *st = (const Elf64_Sym *)(elf + sh[i].sh_offset); const char *str = (const char *)elf + sh[sh[i].sh_link].sh_offset;
        int n = sh[i].sh_size / sizeof *st;
        for (int k = 0; k < n; k++) if (st[k].st_shndx < nsec && off[st[k].st_shndx] != ~0ull) im->sym[str + st[k].st_name] = off[st[k].st_shndx] + st[k].st_value;
        for (int r = 0; r < nsec; r++) if (sh[r].sh_type == SHT_RELA && off[sh[r].sh_info] != ~0ull) {
            auto *rl = (const Elf64_Rela *)(elf + sh[r].sh_offset); int m = sh[r].sh_size / sizeof *rl;
            for (int k = 0; k < m; k++) {
                auto &s = st[ELF64_R_SYM(rl[k].r_info)];
                uint8_t *P = im->base + off[sh[r].sh_info] + rl[k].r_offset;
                if (s.st_shndx >= nsec || off[s.st_shndx] == ~0ull) { fprintf(stderr, "ARM64 %s: undefined symbol %s\n", label, str + s.st_name); abort(); }
                uint64_t A = (uint64_t)im->base + off[s.st_shndx] + s.st_value + rl[k].r_addend; int64_t d = A - (uint64_t)P; uint32_t w; memcpy(&w, P, 4);
                switch (ELF64_R_TYPE(rl[k].r_info)) {
                case 257: memcpy(P, &A, 8); continue;                                             // ABS64
                case 282: case 283: w = (w & ~0x3ffffffu) | ((d >> 2) & 0x3ffffff); break;          // JUMP26, CALL26
                case 280: case 273: w = (w & ~0xffffe0u) | ((d >> 2 & 0x7ffff) << 5); break;        // CONDBR19, LD_PREL_LO19
                case 279: w = (w & ~0x7ffe0u) | ((d >> 2 & 0x3fff) << 5); break;                    // TSTBR14
                case 274: w = (w & ~0x60ffffe0u) | ((d & 3) << 29) | ((d >> 2 & 0x7ffff) << 5); break;   // ADR_PREL_LO21
                case 275: { int64_t pg = ((int64_t)(A & ~0xfffull) - (int64_t)((uint64_t)P & ~0xfffull)) >> 12; w = (w & ~0x60ffffe0u) | ((pg & 3) << 29) | ((pg >> 2 & 0x7ffff) << 5); break; }
                case 277: w = (w & ~0x3ffc00u) | ((A & 0xfff) << 10); break;                        // ADD_ABS_LO12_NC
                case 286: w = (w & ~0x3ffc00u) | (((A & 0xfff) >> 3) << 10); break;                 // LDST64_ABS_LO12_NC
                default: fprintf(stderr, "ARM64 %s: relocation type %d\n", label, (int)ELF64_R_TYPE(rl[k].r_info)); abort();
                }
                memcpy(P, &w, 4);
            }
        }
    }
    for (uint64_t p = 0; p + 4 <= total; p += 4) { uint32_t w; memcpy(&w, im->base + p, 4); im->code.push_back(decode(w)); }
    return im;
}
int armEntry(ArmImage *im, const char *name) { auto it = im->sym.find(name); return it == im->sym.end() ? -1 : it->second; }

static const int STK = 4096;
uint64_t armCall(ArmImage *im, int entry, const char *name, const char *sig, int n, uint64_t a, uint64_t b, uint64_t c) {
    if (entry < 0) { fprintf(stderr, "ARM64 %s: no routine %s\n", im->label.c_str(), name); abort(); }
    static thread_local uint64_t stackMem[STK / 8 + 32]; static thread_local uint64_t stackDef[STK / 8 + 32];
    static thread_local uint64_t stamp = 0; stamp++;
    uint64_t top = ((uint64_t)stackMem + STK) & ~15ull, lo = (uint64_t)stackMem;
    uint64_t R[32]; const uint64_t K = 0xA11C0DE5EED00000ull;
    for (int i = 0; i < 31; i++) R[i] = K + i * 0x101;
    uint32_t def = 0; uint64_t arg[3] = {a, b, c};
    struct { uint64_t lo, hi; bool w; } rg[3]; int nr = 0;
    for (int i = 0; sig[i]; i++) {
        R[i] = arg[i]; def |= 1u << i;
        if (sig[i] != 'v') { rg[nr].lo = arg[i]; rg[nr].hi = arg[i] + 8 * n; rg[nr].w = sig[i] != 'r'; nr++; }
    }
    const uint64_t RETADDR = 0x7e57ed0000000000ull;
    R[30] = RETADDR; uint64_t sp = top; bool N = 0, Z = 0, C = 0, V = 0, flags = false;
    uint64_t pc = entry; const uint64_t codeEnd = im->code.size() * 4; const uint64_t ib = (uint64_t)im->base;
    auto F = [&](const char *m) { die(m, name, im, pc); };
    auto rd = [&](int r) -> uint64_t { if (r == 31) return 0; if (!(def >> r & 1)) F("uses a register that holds nothing of its own"); return R[r]; };
    auto rdsp = [&](int r) -> uint64_t { return r == 31 ? sp : rd(r); };
    auto wr = [&](int r, uint64_t v, int sf) { if (r == 31) return; if (r == 18) F("changes the platform register"); R[r] = sf ? v : (uint32_t)v; def |= 1u << r; };
    auto wrsp = [&](int r, uint64_t v, int sf) { if (r == 31) { sp = v; if (sp & 15) F("misaligns the stack"); if (sp > top || sp < lo) F("moves the stack pointer out of its frame"); } else wr(r, v, sf); };
    auto acc = [&](uint64_t ad, int sz, bool wrt) -> int {     // 0 operand/table, 1 stack
        if (ad >= lo && ad + sz <= top) { if (ad < sp) F("touches memory below the stack pointer"); return 1; }
        for (int i = 0; i < nr; i++) if (ad >= rg[i].lo && ad + sz <= rg[i].hi && (!wrt || rg[i].w)) return 0;
        if (!wrt && ad >= ib && ad + sz <= ib + im->size) return 0;
        F(wrt ? "writes outside its operands" : "reads outside its operands"); return 0;
    };
    auto load = [&](uint64_t ad, int sz, bool &ok) -> uint64_t {
        ok = true;
        if (acc(ad, sz, false) == 1) { uint64_t k = (ad - lo) / 8; if ((stackDef[k] >> 1) != stamp) F("reads a stack word it did not write"); ok = stackDef[k] & 1; }
        uint64_t v = 0; memcpy(&v, (void *)ad, sz); return v;
    };
    auto store = [&](uint64_t ad, uint64_t v, int sz, bool ok) {
        if (acc(ad, sz, true) == 1) { uint64_t k = (ad - lo) / 8; stackDef[k] = stamp << 1 | ok; }
        else if (!ok) F("stores a register that holds nothing of its own");
        memcpy((void *)ad, &v, sz);
    };
    auto shift = [&](uint64_t v, int t, int k, int w) -> uint64_t { if (w == 32) v = (uint32_t)v; if (!k) return v; switch (t) { case 0: return v << k; case 1: return v >> k; case 2: return w == 64 ? (uint64_t)((int64_t)v >> k) : (uint64_t)(uint32_t)((int32_t)v >> k); default: return ror(v, k, w); } };
    auto ext = [&](uint64_t v, int t, int k) -> uint64_t { switch (t & 3) { case 0: v = t & 4 ? (int8_t)v : (uint8_t)v; break; case 1: v = t & 4 ? (int16_t)v : (uint16_t)v; break; case 2: v = t & 4 ? (int32_t)v : (uint32_t)v; break; } return v << k; };
    auto addc = [&](uint64_t x, uint64_t y, int ci, int sf, bool s) -> uint64_t {
        if (!sf) { x = (uint32_t)x; y = (uint32_t)y; uint64_t r = x + y + ci; if (s) { N = r >> 31 & 1; Z = !(uint32_t)r; C = r >> 32; V = ((~(x ^ y) & (x ^ r)) >> 31) & 1; flags = true; } return (uint32_t)r; }
        u128 t = (u128)x + y + ci; uint64_t r = t;
        if (s) { N = r >> 63; Z = !r; C = t >> 64; V = (~(x ^ y) & (x ^ r)) >> 63; flags = true; }
        return r;
    };
    auto logf = [&](uint64_t r, int sf) { if (!sf) r = (uint32_t)r; N = sf ? r >> 63 : r >> 31 & 1; Z = !r; C = V = 0; flags = true; };
    auto cond = [&](int k) -> bool {
        if (!flags) F("tests flags it did not set");
        bool r; switch (k >> 1) { case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break; case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true; }
        return k & 1 ? !r : r;
    };
    uint64_t steps = 0;
    while (true) {
        if (pc >= codeEnd || (pc & 3)) F("runs outside the code");
        if (++steps > 2000000) F("does not come back");
        const In &i = im->code[pc / 4]; uint64_t next = pc + 4; const int W = i.sf ? 64 : 32;
        switch (i.op) {
        case BAD: F("unknown instruction"); break;
        case NOP_: break;
        case ADDI: { uint64_t r = addc(rdsp(i.rn), i.imm, 0, i.sf, i.s); if (i.s) wr(i.rd, r, i.sf); else wrsp(i.rd, r, i.sf); break; }
        case SUBI: { uint64_t r = addc(rdsp(i.rn), ~i.imm, 1, i.sf, i.s); if (i.s) wr(i.rd, r, i.sf); else wrsp(i.rd, r, i.sf); break; }
        case ADDR_: wr(i.rd, addc(rd(i.rn), shift(rd(i.rm), i.sh, i.amt, W), 0, i.sf, i.s), i.sf); break;
        case SUBR: wr(i.rd, addc(rd(i.rn), ~shift(rd(i.rm), i.sh, i.amt, W), 1, i.sf, i.s), i.sf); break;
        case ADDX: { uint64_t r = addc(rdsp(i.rn), ext(rd(i.rm), i.sh, i.amt), 0, i.sf, i.s); if (i.s) wr(i.rd, r, i.sf); else wrsp(i.rd, r, i.sf); break; }
        case SUBX: { uint64_t r = addc(rdsp(i.rn), ~ext(rd(i.rm), i.sh, i.amt), 1, i.sf, i.s); if (i.s) wr(i.rd, r, i.sf); else wrsp(i.rd, r, i.sf); break; }
        case ADC_: if (!flags) F("uses the carry before setting it"); wr(i.rd, addc(rd(i.rn), rd(i.rm), C, i.sf, i.s), i.sf); break;
        case SBC_: if (!flags) F("uses the carry before setting it"); wr(i.rd, addc(rd(i.rn), ~rd(i.rm), C, i.sf, i.s), i.sf); break;
        case ANDR: case ORRR: case EORR: {
            if (i.op == EORR && i.rn == i.rm && !i.inv && !i.amt) { wr(i.rd, 0, i.sf); break; }
            if (i.op == ORRR && i.rn == 31 && !i.inv && !i.amt && i.rm != 31 && !(def >> i.rm & 1)) { if (i.rd == 18) F("changes the platform register"); if (i.rd != 31) { R[i.rd] = R[i.rm]; def &= ~(1u << i.rd); } break; }   // plain move of a saved register
            uint64_t x = rd(i.rn), y = shift(rd(i.rm), i.sh, i.amt, W); if (i.inv) y = ~y;
            uint64_t r = i.op == ANDR ? x & y : i.op == ORRR ? x | y : x ^ y; if (i.s) logf(r, i.sf); wr(i.rd, r, i.sf); break; }
        case ANDI: { uint64_t r = rd(i.rn) & i.imm; if (i.s) { logf(r, i.sf); wr(i.rd, r, i.sf); } else wrsp(i.rd, r, i.sf); break; }
        case ORRI: wrsp(i.rd, rd(i.rn) | i.imm, i.sf); break;
        case EORI: wrsp(i.rd, rd(i.rn) ^ i.imm, i.sf); break;
        case MOVZ: wr(i.rd, i.imm << i.amt, i.sf); break;
        case MOVN: wr(i.rd, ~(i.imm << i.amt), i.sf); break;
        case MOVK: wr(i.rd, (rd(i.rd) & ~(0xffffull << i.amt)) | i.imm << i.amt, i.sf); break;
        case SBFM: case BFM: case UBFM: {
            uint64_t x = rd(i.rn); if (!i.sf) x = (uint32_t)x;
            int r = i.amt, s = i.sh, len, pos; uint64_t f;
            if (s >= r) { len = s - r + 1; pos = 0; f = x >> r; } else { len = s + 1; pos = W - r; f = x; }
            uint64_t m = len == 64 ? ~0ull : (1ull << len) - 1; f &= m;
            if (i.op == UBFM) f <<= pos; else if (i.op == SBFM) f = sx(f, len) << pos; else f = (rd(i.rd) & ~(m << pos)) | f << pos;
            wr(i.rd, f, i.sf); break; }
        case EXTR: { uint64_t h = rd(i.rn), l = rd(i.rm); if (!i.sf) { h = (uint32_t)h; l = (uint32_t)l; } wr(i.rd, i.amt ? (l >> i.amt) | (h << (W - i.amt)) : l, i.sf); break; }
        case CSEL: { bool t = cond(i.cond); uint64_t x = rd(i.rn), y = rd(i.rm); if (i.inv) y = ~y; if (i.amt) y++; wr(i.rd, t ? x : y, i.sf); break; }
        case CCMPR: case CCMPI: { uint64_t y = i.op == CCMPI ? i.imm : rd(i.rm); uint64_t x = rd(i.rn); if (cond(i.cond)) { if (i.inv) addc(x, ~y, 1, i.sf, true); else addc(x, y, 0, i.sf, true); } else { N = i.amt >> 3 & 1; Z = i.amt >> 2 & 1; C = i.amt >> 1 & 1; V = i.amt & 1; } break; }
        case LSLV: wr(i.rd, shift(rd(i.rn), 0, rd(i.rm) & (W - 1), W), i.sf); break;
        case LSRV: wr(i.rd, shift(rd(i.rn), 1, rd(i.rm) & (W - 1), W), i.sf); break;
        case ASRV: wr(i.rd, shift(rd(i.rn), 2, rd(i.rm) & (W - 1), W), i.sf); break;
        case RORV: wr(i.rd, shift(rd(i.rn), 3, rd(i.rm) & (W - 1), W), i.sf); break;
        case UDIV: { uint64_t x = rd(i.rn), y = rd(i.rm); if (!i.sf) { x = (uint32_t)x; y = (uint32_t)y; } wr(i.rd, y ? x / y : 0, i.sf); break; }
        case SDIV: { int64_t x = rd(i.rn), y = rd(i.rm); if (!i.sf) { x = (int32_t)x; y = (int32_t)y; } wr(i.rd, y == 0 ? 0 : y == -1 ? -(uint64_t)x : x / y, i.sf); break; }
        case CLZ: { uint64_t x = rd(i.rn); if (!i.sf) x = (uint32_t)x; wr(i.rd, x ? __builtin_clzll(x) - (64 - W) : W, i.sf); break; }
        case CLS: { int64_t x = rd(i.rn); if (!i.sf) x = (int32_t)x; uint64_t y = x < 0 ? ~x : x; wr(i.rd, (y ? __builtin_clzll(y) : 64) - (64 - W) - 1, i.sf); break; }
        case RBIT: { uint64_t x = rd(i.rn), y = 0; for (int k = 0; k < W; k++) if (x >> k & 1) y |= 1ull << (W - 1 - k); wr(i.rd, y, i.sf); break; }
        case REV: { uint64_t x = rd(i.rn); wr(i.rd, i.sf ? __builtin_bswap64(x) : __builtin_bswap32(x), i.sf); break; }
        case MADD: wr(i.rd, rd(i.ra) + rd(i.rn) * rd(i.rm), i.sf); break;
        case MSUB: wr(i.rd, rd(i.ra) - rd(i.rn) * rd(i.rm), i.sf); break;
        case UMULH: wr(i.rd, (u128)rd(i.rn) * rd(i.rm) >> 64, 1); break;
        case SMULH: wr(i.rd, (unsigned __int128)((__int128)(int64_t)rd(i.rn) * (int64_t)rd(i.rm)) >> 64, 1); break;
        case UMADDL: wr(i.rd, rd(i.ra) + (uint64_t)(uint32_t)rd(i.rn) * (uint32_t)rd(i.rm), 1); break;
        case SMADDL: wr(i.rd, rd(i.ra) + (int64_t)(int32_t)rd(i.rn) * (int32_t)rd(i.rm), 1); break;
        case ADRC: wr(i.rd, (i.mode ? (ib + pc) & ~0xfffull : ib + pc) + i.imm, 1); break;
        case BR_: next = pc + i.imm; break;
        case BL_: wr(30, ib + pc + 4, 1); next = pc + i.imm; break;
        case BCOND: if (cond(i.cond)) next = pc + i.imm; break;
        case CBZ_: { uint64_t x = rd(i.rd); if (!i.sf) x = (uint32_t)x; if (!x) next = pc + i.imm; break; }
        case CBNZ_: { uint64_t x = rd(i.rd); if (!i.sf) x = (uint32_t)x; if (x) next = pc + i.imm; break; }
        case TBZ_: if (!(rd(i.rd) >> i.amt & 1)) next = pc + i.imm; break;
        case TBNZ_: if (rd(i.rd) >> i.amt & 1) next = pc + i.imm; break;
        case BREG: next = rd(i.rn) - ib; break;
        case BLREG: { uint64_t t = rd(i.rn); wr(30, ib + pc + 4, 1); next = t - ib; break; }
        case RET_:
            if (R[i.rn] == RETADDR && i.rn != 31) {
                if (sp != top) F("returns with a displaced stack pointer");
                for (int k = 19; k < 30; k++) if (R[k] != K + k * 0x101) F("returns with a callee-saved register changed");
                if (!strpbrk(sig, "wx")) rd(0);
                armSteps += steps;
                return R[0];
            }
            next = rd(i.rn) - ib; break;
        case LDP_: case STP_: {
            uint64_t base = rdsp(i.rn), ad = i.mode == 1 ? base : base + i.imm; int sz = 1 << i.size;
            if (i.rn == 31 && (base & 15)) F("misaligned stack access");
            bool wb = i.mode != 0; bool early = wb && i.rn == 31 && i.op == STP_ && i.mode == 3;
            if (early) wrsp(31, base + i.imm, 1);
            if (i.op == STP_) {
                auto val = [&](int r, bool &ok) { ok = r == 31 || (def >> r & 1); return r == 31 ? 0 : R[r]; };
                bool o1, o2; uint64_t v1 = val(i.rd, o1), v2 = val(i.ra, o2); store(ad, v1, sz, o1); store(ad + sz, v2, sz, o2);
            } else {
                bool o1, o2; uint64_t v1 = load(ad, sz, o1), v2 = load(ad + sz, sz, o2);
                wr(i.rd, v1, i.sf); wr(i.ra, v2, i.sf);
                if (!o1 && i.rd != 31) def &= ~(1u << i.rd);
                if (!o2 && i.ra != 31) def &= ~(1u << i.ra);
            }
            if (wb && !early) wrsp(i.rn, base + i.imm, 1);
            break; }
        case LDR_: case STR_: case LDRS: {
            uint64_t base = rdsp(i.rn), ad = i.mode == 1 ? base : base + i.imm; int sz = 1 << i.size; bool wb = i.mode == 1 || i.mode == 3;
            bool early = wb && i.rn == 31 && i.op == STR_ && i.mode == 3; if (early) wrsp(31, base + i.imm, 1);
            if (i.op == STR_) { bool ok = i.rd == 31 || (def >> i.rd & 1); store(ad, i.rd == 31 ? 0 : R[i.rd], sz, ok); }
            else { bool ok; uint64_t v = load(ad, sz, ok); if (i.op == LDRS) v = sx(v, sz * 8); wr(i.rd, v, 1); if (!ok && i.rd != 31) def &= ~(1u << i.rd); }
            if (wb && !early) wrsp(i.rn, base + i.imm, 1);
            break; }
        case LDRR: case STRR: {
            uint64_t ad = rdsp(i.rn) + (i.sh == 3 || i.sh == 7 ? rd(i.rm) << i.amt : ext(rd(i.rm), i.sh, i.amt)); int sz = 1 << i.size;
            if (i.op == STRR) { bool ok = i.rd == 31 || (def >> i.rd & 1); store(ad, i.rd == 31 ? 0 : R[i.rd], sz, ok); }
            else { bool ok; uint64_t v = load(ad, sz, ok); wr(i.rd, v, 1); if (!ok && i.rd != 31) def &= ~(1u << i.rd); }
            break; }
        case LDRL: { bool ok; wr(i.rd, load(ib + pc + i.imm, 1 << i.size, ok), 1); break; }
        }
        pc = next;
    }
}
