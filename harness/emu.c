/*
 * An interpreter for the 32-bit MIPS32r2 user-mode integer instructions, either byte order, that stops at misaligned
 * accesses, at accesses outside what the program and the caller's buffers occupy, at trapping instructions, and at
 * anything it does not know.  The library compiled for that machine (guest.elf, named by VP_GUEST) runs on it.
 */
#include "mach.h"
#include <elf.h>
#include <setjmp.h>
#define MEM 0x1000000u
#define STK_TOP 0x700000u
#define STK_LEN 0x40000u
#define ARENA 0x800000u
#define RET 0xF00000u
#define RNG 0xF00010u
static u8 *M, *PERM; static int be; static u32 R[32], HI, LO; u64 m_insns; static u64 budget;
static u32 text_lo, text_hi; static struct ins { u8 op, s, t, d; int32_t imm; } *D;
static struct sym { char *n; u32 v, sz; } *SY; static int nsy;
const char *m_name = "the 32-bit machine";
enum { I_BAD, OUTSIDE, SLL, SRL, ROTR, SRA, SLLV, SRLV, ROTRV, SRAV, JR, JALR, MOVZ, MOVN, SYNC, MFHI, MTHI, MFLO, MTLO, MULT, MULTU, DIV, DIVU, ADD, ADDU, SUB, SUBU, AND, OR, XOR, NOR, SLT, SLTU, TEQ, TNE, TRAP,
    BLTZ, BGEZ, BLTZAL, BGEZAL, J, JAL, BEQ, BNE, BLEZ, BGTZ, ADDI, ADDIU, SLTI, SLTIU, ANDI, ORI, XORI, LUI, MUL, MADD, MADDU, MSUB, MSUBU, CLZ, CLO, EXT, INS, WSBH, SEB, SEH,
    LB, LH, LWL, LW, LBU, LHU, LWR, SB, SH, SWL, SW, SWR };
static u32 rd32(const u8 *p) { u32 w; memcpy(&w, p, 4); return be ? __builtin_bswap32(w) : w; }
static const char *where(u32 pc) { const char *b = "?"; u32 bv = 0; for (int i = 0; i < nsy; i++) if (SY[i].v <= pc && SY[i].v >= bv) b = SY[i].n, bv = SY[i].v; return b; }
static const struct sym *sym(const char *n) { for (int i = 0; i < nsy; i++) if (!strcmp(SY[i].n, n)) return &SY[i]; return 0; }
static void bad(const char *what, u32 a, int size, u32 pc) {
    for (u32 q = a - 64; a > ARENA && q < a + 64; q++) if (PERM[q] & 4) { u32 e = q; while (PERM[e + 1] & 4) e++; while (PERM[q - 1] & 4) q--; viol("%s: %s of %d bytes at address %x in %s (near a buffer of %u bytes at %x)", m_name, what, size, a, where(pc), e - q + 1, q); }
    viol("%s: %s of %d bytes at address %x in %s", m_name, what, size, a, where(pc));
}
static void decode(u32 a) {
    struct ins *o = &D[(a - text_lo) / 4]; u32 w = rd32(M + a), op = w >> 26, s = w >> 21 & 31, t = w >> 16 & 31, d = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63; int32_t im = (int16_t)w; int k = I_BAD;
    o->s = s; o->t = t; o->d = d; o->imm = im;
    switch (op) {
    case 0: o->imm = sa; switch (fn) {
        case 0: k = SLL; break; case 2: k = s & 1 ? ROTR : SRL; break; case 3: k = SRA; break; case 4: k = SLLV; break; case 6: k = sa & 1 ? ROTRV : SRLV; break; case 7: k = SRAV; break;
        case 8: k = JR; break; case 9: k = JALR; break; case 10: k = MOVZ; break; case 11: k = MOVN; break; case 12: case 13: k = TRAP; break; case 15: k = SYNC; break;
        case 16: k = MFHI; break; case 17: k = MTHI; break; case 18: k = MFLO; break; case 19: k = MTLO; break; case 24: k = MULT; break; case 25: k = MULTU; break; case 26: k = DIV; break; case 27: k = DIVU; break;
        case 32: k = ADD; break; case 33: k = ADDU; break; case 34: k = SUB; break; case 35: k = SUBU; break; case 36: k = AND; break; case 37: k = OR; break; case 38: k = XOR; break; case 39: k = NOR; break; case 42: k = SLT; break; case 43: k = SLTU; break; case 52: k = TEQ; break; case 54: k = TNE; break; } break;
    case 1: o->imm = a + 4 + im * 4; k = t == 0 ? BLTZ : t == 1 ? BGEZ : t == 16 ? BLTZAL : t == 17 ? BGEZAL : I_BAD; break;
    case 2: case 3: o->imm = ((a + 4) & 0xf0000000u) | (w & 0x3ffffff) << 2; k = op == 2 ? J : JAL; break;
    case 4: case 5: case 6: case 7: o->imm = a + 4 + im * 4; k = op == 4 ? BEQ : op == 5 ? BNE : op == 6 ? BLEZ : BGTZ; break;
    case 8: k = ADDI; break; case 9: k = ADDIU; break; case 10: k = SLTI; break; case 11: k = SLTIU; break;
    case 12: k = ANDI; o->imm = w & 0xffff; break; case 13: k = ORI; o->imm = w & 0xffff; break; case 14: k = XORI; o->imm = w & 0xffff; break; case 15: k = LUI; o->imm = (int32_t)(w << 16); break;
    case 28: k = fn == 2 ? MUL : fn == 0 ? MADD : fn == 1 ? MADDU : fn == 4 ? MSUB : fn == 5 ? MSUBU : fn == 32 ? CLZ : fn == 33 ? CLO : I_BAD; break;
    case 31: o->imm = sa | d << 8; if (fn == 0) k = EXT; else if (fn == 4) k = INS; else if (fn == 32) k = sa == 2 ? WSBH : sa == 16 ? SEB : sa == 24 ? SEH : I_BAD; break;
    case 32: k = LB; break; case 33: k = LH; break; case 34: k = LWL; break; case 35: k = LW; break; case 36: k = LBU; break; case 37: k = LHU; break; case 38: k = LWR; break;
    case 40: k = SB; break; case 41: k = SH; break; case 42: k = SWL; break; case 43: k = SW; break; case 46: k = SWR; break;
    case 51: k = SYNC; break;   /* prefetch */
    }
    if (((op == 1 && k) || (op >= 4 && op <= 7)) && ((u32)o->imm < text_lo || (u32)o->imm >= text_hi)) k = I_BAD;
    o->op = k;
}
static int (*cb_rng)(unsigned char *, size_t);
static inline int perm4(u32 a, u32 m) { u32 w; memcpy(&w, PERM + a, 4); return (w & m) == m; }
#define OKR(a, n) ((a) < MEM - 4 && (n == 1 ? PERM[a] & 1 : n == 2 ? (PERM[a] & PERM[(a) + 1] & 1) : perm4(a, 0x01010101u)))
#define OKW(a, n) ((a) < MEM - 4 && (n == 1 ? PERM[a] & 2 : n == 2 ? (PERM[a] & PERM[(a) + 1] & 2) : perm4(a, 0x02020202u)))
#define LD(n) do { if (a & (n - 1)) bad("misaligned load", a, n, pc); if (!OKR(a, n)) bad("load outside everything it was given,", a, n, pc); } while (0)
#define ST(n) do { if (a & (n - 1)) bad("misaligned store", a, n, pc); if (!OKW(a, n)) bad("store outside everything it was given,", a, n, pc); } while (0)
static u32 run(u32 entry) {
    u32 pc = entry, np = entry + 4, out = 0, from = 0; u64 cnt = 0; R[31] = RET; R[0] = 0;
    if (entry < text_lo || entry >= text_hi) exit(3);
#define GO(t) do { nn = (t); if (nn - text_lo >= text_hi - text_lo || (nn & 3)) { out = nn; from = pc; nn = text_hi; } } while (0)     /* text_hi: an instruction that says "outside" */
    for (;;) {
        const struct ins *o = &D[(pc - text_lo) / 4]; u32 s = R[o->s], t = R[o->t], d = o->d, a = s + (u32)o->imm, nn = np + 4; int32_t imm = o->imm;
        if (++cnt > budget) viol("%s: no end after %llu instructions (in %s)", m_name, (unsigned long long)cnt, where(pc));
        switch (o->op) {
        case SLL: R[d] = t << imm; break; case SRL: R[d] = t >> imm; break; case ROTR: R[d] = imm ? t >> imm | t << (32 - imm) : t; break; case SRA: R[d] = (u32)((int32_t)t >> imm); break;
        case SLLV: R[d] = t << (s & 31); break; case SRLV: R[d] = t >> (s & 31); break; case ROTRV: s &= 31; R[d] = s ? t >> s | t << (32 - s) : t; break; case SRAV: R[d] = (u32)((int32_t)t >> (s & 31)); break;
        case JR: GO(s); break; case JALR: R[d] = np + 4; GO(s); break;
        case MOVZ: if (!t) R[d] = s; break; case MOVN: if (t) R[d] = s; break; case SYNC: break;
        case MFHI: R[d] = HI; break; case MTHI: HI = s; break; case MFLO: R[d] = LO; break; case MTLO: LO = s; break;
        case MULT: { int64_t v = (int64_t)(int32_t)s * (int32_t)t; HI = (u64)v >> 32; LO = (u32)v; break; } case MULTU: { u64 v = (u64)s * t; HI = v >> 32; LO = (u32)v; break; }
        case DIV: if (t) { if (s == 0x80000000u && t == 0xffffffffu) { LO = s; HI = 0; } else { LO = (int32_t)s / (int32_t)t; HI = (int32_t)s % (int32_t)t; } } break;
        case DIVU: if (t) { LO = s / t; HI = s % t; } break;
        case ADD: { int32_t v; if (__builtin_add_overflow((int32_t)s, (int32_t)t, &v)) bad("overflow trap", s, 4, pc); R[d] = v; break; } case ADDU: R[d] = s + t; break;
        case SUB: { int32_t v; if (__builtin_sub_overflow((int32_t)s, (int32_t)t, &v)) bad("overflow trap", s, 4, pc); R[d] = v; break; } case SUBU: R[d] = s - t; break;
        case AND: R[d] = s & t; break; case OR: R[d] = s | t; break; case XOR: R[d] = s ^ t; break; case NOR: R[d] = ~(s | t); break; case SLT: R[d] = (int32_t)s < (int32_t)t; break; case SLTU: R[d] = s < t; break;
        case TEQ: if (s == t) bad("trap (division by zero)", pc, 4, pc); break; case TNE: if (s != t) bad("trap", pc, 4, pc); break; case TRAP: bad("trap", pc, 4, pc); break;
        case BLTZ: if ((int32_t)s < 0) nn = imm; break; case BGEZ: if ((int32_t)s >= 0) nn = imm; break; case BLTZAL: R[31] = np + 4; if ((int32_t)s < 0) nn = imm; break; case BGEZAL: R[31] = np + 4; if ((int32_t)s >= 0) nn = imm; break;
        case J: GO((u32)imm); break; case JAL: R[31] = np + 4; GO((u32)imm); break;
        case BEQ: if (s == t) nn = imm; break; case BNE: if (s != t) nn = imm; break; case BLEZ: if ((int32_t)s <= 0) nn = imm; break; case BGTZ: if ((int32_t)s > 0) nn = imm; break;
        case ADDI: { int32_t v; if (__builtin_add_overflow((int32_t)s, imm, &v)) bad("overflow trap", s, 4, pc); R[o->t] = v; break; } case ADDIU: R[o->t] = a; break;
        case SLTI: R[o->t] = (int32_t)s < imm; break; case SLTIU: R[o->t] = s < (u32)imm; break; case ANDI: R[o->t] = s & imm; break; case ORI: R[o->t] = s | imm; break; case XORI: R[o->t] = s ^ imm; break; case LUI: R[o->t] = imm; break;
        case MUL: R[d] = s * t; break;
        case MADD: case MSUB: { u64 v = (u64)HI << 32 | LO, m = (u64)((int64_t)(int32_t)s * (int32_t)t); v = o->op == MADD ? v + m : v - m; HI = v >> 32; LO = (u32)v; break; }
        case MADDU: case MSUBU: { u64 v = (u64)HI << 32 | LO, m = (u64)s * t; v = o->op == MADDU ? v + m : v - m; HI = v >> 32; LO = (u32)v; break; }
        case CLZ: R[d] = s ? __builtin_clz(s) : 32; break; case CLO: R[d] = ~s ? __builtin_clz(~s) : 32; break;
        case EXT: { unsigned p = imm & 31, z = (imm >> 8) + 1; R[o->t] = s >> p & (z == 32 ? ~0u : (1u << z) - 1); break; }
        case INS: { unsigned p = imm & 31, z = (imm >> 8) - p + 1; u32 m = (z == 32 ? ~0u : (1u << z) - 1) << p; R[o->t] = (t & ~m) | (s << p & m); break; }
        case WSBH: R[d] = (t & 0x00ff00ff) << 8 | (t >> 8 & 0x00ff00ff); break; case SEB: R[d] = (int8_t)t; break; case SEH: R[d] = (int16_t)t; break;
        case LB: LD(1); R[o->t] = (int8_t)M[a]; break; case LBU: LD(1); R[o->t] = M[a]; break;
        case LH: LD(2); R[o->t] = (int16_t)(be ? M[a] << 8 | M[a + 1] : M[a + 1] << 8 | M[a]); break; case LHU: LD(2); R[o->t] = be ? M[a] << 8 | M[a + 1] : M[a + 1] << 8 | M[a]; break;
        case LW: LD(4); R[o->t] = rd32(M + a); break;
        case SB: ST(1); M[a] = t; break; case SH: ST(2); M[a + !be] = t >> 8; M[a + be] = t; break; case SW: { ST(4); u32 w = be ? __builtin_bswap32(t) : t; memcpy(M + a, &w, 4); break; }
        /* the four partial-word instructions, written bytewise: x = bytes counted from the most significant end of the word */
        case LWL: case LWR: case SWL: case SWR: {
            int left = o->op == LWL || o->op == SWL, b = a & 3, bebyte = be ? b : 3 - b, cnt4 = left ? 4 - bebyte : bebyte + 1;
            for (int i = 0; i < cnt4; i++) {
                int rb = left ? i : 4 - cnt4 + i;                       /* register byte, 0 most significant */
                int mb = left ? bebyte + i : i;                         /* byte within the word in memory, counted big-endian */
                u32 ma = (a & ~3u) + (be ? mb : 3 - mb); int sh = 24 - 8 * rb;
                if (o->op == LWL || o->op == LWR) { if (!OKR(ma, 1)) bad("load outside everything it was given,", ma, 1, pc); R[o->t] = (R[o->t] & ~(255u << sh)) | (u32)M[ma] << sh; }
                else { if (!OKW(ma, 1)) bad("store outside everything it was given,", ma, 1, pc); M[ma] = t >> sh; }
            }
            break; }
        case OUTSIDE:
            cnt--;
            if (pc != text_hi || !out) bad("running off the end of the program", pc, 4, pc);
            if (out == RET) { m_insns += cnt; return R[2]; }
            if (out == RNG) {
                u32 p = R[4], n = R[5], i; for (i = 0; i < n; i++) if (!OKW(p + i, 1)) bad("random bytes asked for outside every buffer,", p + i, 1, R[31]);
                R[2] = cb_rng(M + p, n); out = 0; pc = from; GO(R[31]); pc = nn; np = pc + 4; continue;
            }
            bad("jump out of the program", out, 4, from); break;
        default: printf("unknown instruction %08x at %x in %s\n", rd32(M + pc), pc, where(pc)); fflush(stdout); _exit(3);
        }
        R[0] = 0; pc = np; np = nn;
    }
}
static u32 call(const char *fn, int n, const u32 *arg) {
    static struct { const char *n; const struct sym *s; } cache[16]; const struct sym *f = 0; int i;
    for (i = 0; i < 16 && cache[i].n; i++) if (cache[i].n == fn) f = cache[i].s;
    if (!f) { f = sym(fn); if (!f) { printf("no symbol %s\n", fn); fflush(stdout); _exit(3); } if (i < 16) cache[i].n = fn, cache[i].s = f; }
    const struct sym *gp = sym("_gp"); R[28] = gp ? gp->v : 0; R[29] = STK_TOP - 64;
    for (i = 0; i < n; i++) if (i < 4) R[4 + i] = arg[i]; else { u32 w = be ? __builtin_bswap32(arg[i]) : arg[i]; memcpy(M + R[29] + 4 * i, &w, 4); }
    return run(f->v);
}
static u32 G(const void *p) { return p ? (u32)((const u8 *)p - M) : 0; }
#define CALL(fn, ...) call(fn, sizeof((u32[]){ __VA_ARGS__ }) / 4, (u32[]){ __VA_ARGS__ })
static void load(const char *path) {
    FILE *f = fopen(path, "rb"); if (!f) { perror(path); exit(3); }
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); u8 *e = malloc(n); if (fread(e, 1, n, f) != (size_t)n) exit(3); fclose(f);
    be = e[EI_DATA] == ELFDATA2MSB;
#define H16(p) (be ? (p)[0] << 8 | (p)[1] : (p)[1] << 8 | (p)[0])
#define FLD(b, ty, m) (sizeof(((ty *)0)->m) == 2 ? (u32)H16((b) + offsetof(ty, m)) : rd32((b) + offsetof(ty, m)))
    u32 ph = FLD(e, Elf32_Ehdr, e_phoff), sh = FLD(e, Elf32_Ehdr, e_shoff); int pn = FLD(e, Elf32_Ehdr, e_phnum), sn = FLD(e, Elf32_Ehdr, e_shnum);
    M = mmap(0, MEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); PERM = mmap(0, MEM + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < pn; i++) {
        const u8 *p = e + ph + i * sizeof(Elf32_Phdr); if (FLD(p, Elf32_Phdr, p_type) != PT_LOAD) continue;
        u32 va = FLD(p, Elf32_Phdr, p_vaddr), fs = FLD(p, Elf32_Phdr, p_filesz), ms = FLD(p, Elf32_Phdr, p_memsz), fl = FLD(p, Elf32_Phdr, p_flags);
        if (va + ms > STK_TOP - STK_LEN) exit(3);
        memcpy(M + va, e + FLD(p, Elf32_Phdr, p_offset), fs); memset(PERM + va, fl & PF_W ? 3 : 1, ms);
        if (fl & PF_X) { text_lo = va; text_hi = va + ms; }
    }
    memset(PERM + STK_TOP - STK_LEN, 3, STK_LEN); fill(M + STK_TOP - STK_LEN, STK_LEN, 77);
    text_hi = (text_hi + 3) & ~3u; D = calloc((text_hi - text_lo) / 4 + 2, sizeof *D); for (u32 a = text_lo; a < text_hi; a += 4) decode(a);
    D[(text_hi - text_lo) / 4].op = D[(text_hi - text_lo) / 4 + 1].op = OUTSIDE;
    for (int i = 0; i < sn; i++) {
        const u8 *s = e + sh + i * sizeof(Elf32_Shdr); if (FLD(s, Elf32_Shdr, sh_type) != SHT_SYMTAB) continue;
        const u8 *st = e + sh + FLD(s, Elf32_Shdr, sh_link) * sizeof(Elf32_Shdr), *str = e + FLD(st, Elf32_Shdr, sh_offset), *y = e + FLD(s, Elf32_Shdr, sh_offset); int k = FLD(s, Elf32_Shdr, sh_size) / sizeof(Elf32_Sym);
        SY = calloc(k + 1, sizeof *SY);
        for (int j = 0; j < k; j++, y += sizeof(Elf32_Sym)) { int ty = y[offsetof(Elf32_Sym, st_info)] & 15; const char *nm = (const char *)str + FLD(y, Elf32_Sym, st_name); if ((ty == STT_FUNC || ty == STT_OBJECT || !strcmp(nm, "_gp")) && *nm) SY[nsy++] = (struct sym){ strdup(nm), FLD(y, Elf32_Sym, st_value), FLD(y, Elf32_Sym, st_size) }; }
    }
    free(e);
}
struct mset MS[96]; int NMS;
static u32 ctx_size, ctx_align, next_;
struct mset *ms_by_name(const char *n) { for (int i = 0; i < NMS; i++) if (!strcmp(MS[i].name, n)) return &MS[i]; return 0; }
static void add(const char *name, int fam, int n, int k, int t, int d, int mh, int mode, int a22, int real) {
    struct mset *o = &MS[NMS]; memset(o, 0, sizeof *o); snprintf(o->name, sizeof o->name, "%s", name); o->real = real;
    o->r = (rps_t){ .n = n, .k = k, .t = t, .h = d * mh, .d = d, .mh = mh, .fam = fam, .sha2adr = a22 || fam == FAM_SHA2, .absmode = mode };
    if (real) { char b[60]; snprintf(b, sizeof b, "ts_ps_%s_simple", name); const struct sym *s = sym(b); if (!s) return; o->ps = s->v; }
    else {
        if (!sym("g_mk")) return;
        struct mset *b = 0; for (int i = 0; i < NMS && !b; i++) if (MS[i].real && (fam == FAM_ABS ? (MS[i].r.fam == FAM_SHA2) == (a22 != 0) : MS[i].r.fam == fam && MS[i].r.n == n)) b = &MS[i];
        if (!b) return;
        o->ps = CALL("g_mk", (u32)b->ps, (u32)(n | k << 8 | t << 16 | d << 24), (u32)(mh | mode << 8 | (fam == FAM_ABS) << 16)); if (!o->ps) return;
    }
    NMS++;
}
void mach_init(void) {
    const char *p = getenv("VP_GUEST"); if (!p) exit(3);
    budget = 200000000; load(p); next_ = ARENA;
    ctx_size = call("g_ctx_size", 0, 0); ctx_align = call("g_ctx_align", 0, 0); u32 fa = call("g_facts", 0, 0);
    static char nm[80]; snprintf(nm, sizeof nm, "the %u-bit %s-endian machine (%s)", 8 * (fa & 15), be ? "big" : "little", fa >> 12 & 1 ? "signed char" : "unsigned char"); m_name = nm;
    for (int i = 0; i < NSETS; i++) add(SETS[i].name, SETS[i].r.fam, SETS[i].r.n, SETS[i].r.k, SETS[i].r.t, SETS[i].r.d, SETS[i].r.mh, 0, 0, 1);
    add("toy_shake_16", FAM_SHAKE, 16, 2, 2, 2, 2, 0, 0, 0); add("toy_shake_24", FAM_SHAKE, 24, 3, 1, 2, 1, 0, 0, 0); add("toy_shake_32", FAM_SHAKE, 32, 2, 2, 2, 1, 0, 0, 0);
    add("toy_sha2_16", FAM_SHA2, 16, 2, 2, 2, 2, 0, 0, 0); add("toy_sha2_24", FAM_SHA2, 24, 3, 1, 2, 1, 0, 0, 0); add("toy_sha2_32", FAM_SHA2, 32, 2, 2, 2, 1, 0, 0, 0);
    static const struct { const char *nm; int n, k, t, d, mh; } st[] = { {"16_k2t2d2m2",16,2,2,2,2}, {"24_k3t1d3m1",24,3,1,3,1}, {"32_k1t3d2m3",32,1,3,2,3}, {"128f",16,33,6,22,3},{"128s",16,14,12,7,9},{"192f",24,33,8,22,3},{"192s",24,17,14,7,9},{"256f",32,35,9,17,4},{"256s",32,22,14,8,8} };
    for (unsigned i = 0; i < sizeof st / sizeof *st; i++) for (int a = 0; a < 2; a++) { char b[40]; snprintf(b, sizeof b, "abs%d_%s", a ? 22 : 32, st[i].nm); add(b, FAM_ABS, st[i].n, st[i].k, st[i].t, st[i].d, st[i].mh, i < 3 ? 0 : 2, a, 0); }
    m_insns = 0;
}
/* several times what any call needs: a hash takes 5 000 to 25 000 instructions */
static void limit(const struct mset *s, size_t len) { if (!s) return; const rps_t *r = &s->r; budget = 200000000ULL + 5000ULL * len + 100000ULL * ((u64)r->d * ((1ULL << r->mh) * (2 * r->n + 3) * 17) + 3ULL * r->k * (1ULL << r->t)) / (r->absmode ? 4 : 1); }
size_t m_ctx_size(void) { return ctx_size; }
u8 *m_alloc(size_t len, unsigned off) {
    u32 a = ((next_ + 15) & ~15u) + 64 + off % 16; if (a + len + 128 > RET) { printf("arena full\n"); fflush(stdout); _exit(3); }
    next_ = a + len + 64; memset(PERM + a, 7, len); return M + a;
}
void m_reset(void) { memset(PERM + ARENA, 0, next_ - ARENA + 64); next_ = ARENA; }
struct ts_context *m_ctx(void) { u8 *p = m_alloc(ctx_size, 16 - ctx_align); fill(p, ctx_size, 99); return (struct ts_context *)p; }
int m_gen(const struct mset *s, u8 *sk, u8 *pk, int (*rng)(unsigned char *, size_t)) { cb_rng = rng; limit(s, 0); return CALL("ts_gen_key", G(sk), G(pk), (u32)s->ps, RNG); }
void m_init_sign(struct ts_context *c, const void *msg, size_t len, const struct mset *s, const u8 *sk, int (*rng)(unsigned char *, size_t)) { cb_rng = rng; limit(s, len); CALL("ts_init_sign", G(c), G(msg), (u32)len, (u32)s->ps, G(sk), rng ? RNG : 0); }
unsigned m_sign(u8 *d, unsigned k, struct ts_context *c) { return CALL("ts_sign", G(d), k, G(c)); }
void m_init_verify(struct ts_context *c, const void *msg, size_t len, const struct mset *s, const u8 *pk) { limit(s, len); CALL("ts_init_verify", G(c), G(msg), (u32)len, (u32)s->ps, G(pk)); }
int m_update(const u8 *p, unsigned k, struct ts_context *c) { return CALL("ts_update_verify", G(p), k, G(c)); }
int m_verify(struct ts_context *c) { return CALL("ts_verify", G(c)); }
unsigned m_size(const struct mset *s, int w) { return call(w == 0 ? "ts_size_private_key" : w == 1 ? "ts_size_public_key" : "ts_size_signature", 1, (u32[]){ (u32)s->ps }); }
