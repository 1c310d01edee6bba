#include "explore.h"
unsigned xs_pos; void *xs_extra; size_t xs_extra_len;
unsigned (*xs_call_sign)(unsigned char *, unsigned, struct ts_context *) = ts_sign;
int (*xs_call_update)(const unsigned char *, unsigned, struct ts_context *) = ts_update_verify;
int (*xs_call_verify)(struct ts_context *) = ts_verify;

static u8 *huge; static size_t hugelen = (1ULL << 32) + 65536;
static u8 *hugebuf(void) {
    if (!huge) {
        huge = mmap(0, hugelen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (huge == MAP_FAILED) { huge = 0; }
    }
    return huge;
}
void xs_start(struct xs *x, const struct tset *s, unsigned maxpos) {
    memset(x, 0, sizeof *x); x->s = s; x->L = ref_sig_len(&s->r); x->maxpos = maxpos;
    x->st = calloc(maxpos + 1, sizeof *x->st); x->imgsize = sizeof(struct ts_context) + lib_static_size() + xs_extra_len; x->maxper = 6;
}
void xs_free(struct xs *x) {
    for (unsigned p = 0; p <= x->maxpos; p++) { for (int i = 0; i < x->st[p].n; i++) free(x->st[p].v[i].b); free(x->st[p].v); }
    free(x->st); x->st = 0;
}
int xs_save(struct xs *x, unsigned pos) {
    static u8 *tmp; static size_t ts; if (ts < x->imgsize) { tmp = realloc(tmp, x->imgsize); ts = x->imgsize; }
    memcpy(tmp, CTX, sizeof *CTX); lib_static_save(tmp + sizeof *CTX); if (xs_extra_len) memcpy(tmp + x->imgsize - xs_extra_len, xs_extra, xs_extra_len);
    u64 a = hash64(tmp, x->imgsize, 1), b = hash64(tmp, x->imgsize, 77);
    struct posstates *ps = &x->st[pos];
    for (int i = 0; i < ps->n; i++) if (ps->v[i].h1 == a && ps->v[i].h2 == b) return 0;
    if (ps->n >= x->maxper) { x->capped = 1; return 0; }
    ps->v = realloc(ps->v, (ps->n + 1) * sizeof *ps->v);
    ps->v[ps->n].b = malloc(x->imgsize); memcpy(ps->v[ps->n].b, tmp, x->imgsize);
    ps->v[ps->n].h1 = a; ps->v[ps->n].h2 = b; ps->n++; x->nstates++;
    return 1;
}
void xs_load(struct xs *x, unsigned pos, int i) { memcpy(CTX, x->st[pos].v[i].b, sizeof *CTX); lib_static_load(x->st[pos].v[i].b + sizeof *CTX); if (xs_extra_len) memcpy(xs_extra, x->st[pos].v[i].b + x->imgsize - xs_extra_len, xs_extra_len); }

static int add(unsigned *o, int c, u64 v) { if (v > 0xffffffffULL) return c; for (int i = 0; i < c; i++) if (o[i] == v) return c; o[c] = (unsigned)v; return c + 1; }
int chunk_menu(int kind, unsigned n, unsigned p, unsigned L, unsigned *o) {
    unsigned rest = p < L ? L - p : 0; int c = 0;
    if (kind == MENU_STEP) {
        c = add(o, c, 0); c = add(o, c, 1);
        if (p % n == 0 || p % n == n - 1) { c = add(o, c, n); c = add(o, c, n + 1); }
        if (rest <= 2 * n) { c = add(o, c, rest); c = add(o, c, rest + 1); c = add(o, c, 0xffffffffu); }
        return c;
    }
    if (kind == MENU_ALL) {
        for (unsigned k = 0; k <= rest + n + 1; k++) o[c++] = k;
        if (p % n == 0 || rest <= n) { u64 v[] = { 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu - n, 0xfffffffeu, 0xffffffffu }; for (unsigned i = 0; i < sizeof v / sizeof *v; i++) c = add(o, c, v[i]); }
        return c;
    }
    unsigned blk = p / n, off = p % n;
    if (kind == MENU_DENSE) {
        for (unsigned k = 0; k <= n + 2; k++) o[c++] = k;
        u64 v[] = { 2*n-1, 2*n, 2*n+1, 3*n+1 }; for (unsigned i = 0; i < sizeof v / sizeof *v; i++) c = add(o, c, v[i]);
        if (off == 0) { u64 w[] = { 4*n, 5*n+2, 8*n, 128, 255, 256, 257, 512 }; for (unsigned i = 0; i < sizeof w / sizeof *w; i++) c = add(o, c, w[i]); }
    } else { unsigned v[] = { 0, 1, 2, n - 1, n, n + 1, 2 * n + 1, 42 }; for (unsigned i = 0; i < sizeof v / sizeof *v; i++) c = add(o, c, v[i]); }
    unsigned every = kind == MENU_DENSE ? 3 : 16;
    if (rest <= n || (blk % every == 0 && (off == 0 || off == 1 || off == n - 1))) { c = add(o, c, rest); if (rest) c = add(o, c, rest - 1); c = add(o, c, rest + 1); c = add(o, c, rest + n); }
    if (rest <= n || (blk % (8 * every) == 0 && off <= 1)) { u64 v[] = { 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu - n, 0xfffffffeu, 0xffffffffu }; for (unsigned i = 0; i < sizeof v / sizeof *v; i++) c = add(o, c, v[i]); }
    return c;
}

void explore_signer(struct xs *x, int menu) {
    const struct tset *s = x->s; unsigned n = s->r.n, L = x->L; int cap = L + 4 * n + 64 + 200;
    unsigned *ks = malloc(cap * sizeof *ks); u8 *d = gbuf(L, 1), *end = d + L;
    xs_save(x, 0);
    for (unsigned p = 0; p <= L; p++) for (int i = 0; i < x->st[p].n; i++) {
        if (x->probe) x->probe(x, p, i);
        int nk = chunk_menu(menu, n, p, L, ks);
        for (int j = 0; j < nk; j++) {
            unsigned k = ks[j], want = k < L - p ? k : L - p; u8 *dest = end - want; u8 canary[8];
            cur("sign: %ld bytes delivered (state %ld), request %ld of %ld left", p, i, k, L - p);
            xs_load(x, p, i);
            unsigned slack = (unsigned)(dest - d) < 8 ? (unsigned)(dest - d) : 8;
            memset(dest - slack, 0xA7, slack); memset(canary, 0xA7, 8);
            xs_pos = p; unsigned got = xs_call_sign(dest, k, CTX);
            x->ntrans++;
            if (got != want) viol("%s: after %u of %u signature bytes, a request for %u returned %u instead of %u", s->name, p, L, k, got, want);
            if (memcmp(dest, x->sig + p, want)) {
                unsigned q = 0; while (dest[q] == x->sig[p + q]) q++;
                viol("%s: after %u bytes, a request for %u delivered a wrong byte at signature offset %u (%02x instead of %02x)", s->name, p, k, p + q, dest[q], x->sig[p + q]);
            }
            if (memcmp(dest - slack, canary, slack)) viol("%s: after %u bytes, a request for %u wrote in front of the buffer", s->name, p, k);
            xs_save(x, p + want);
        }
    }
    sample("%s: signer, chunk menu %d, %llu states, %llu transitions, signature %u bytes, e.g. position %u --request %u--> position %u", s->name, menu, (unsigned long long)x->nstates, (unsigned long long)x->ntrans, L, n, n + 1, 2 * n + 1);
    if (x->capped) note_capped("more than 6 distinct context images at one position; further images were not expanded");
    /* end-to-end runs without any saving and restoring in between: the state images are faithful */
    unsigned lin[] = { 1, 7, n - 1, n, n + 1, 2 * n + 1, 4 * n, L, L + 1 };
    for (unsigned c = 0; c < sizeof lin / sizeof *lin; c++) {
        cur("sign: in requests of %ld", lin[c], 0, 0, 0); xs_load(x, 0, 0);
        for (unsigned p = 0; p < L;) { unsigned want = lin[c] < L - p ? lin[c] : L - p; xs_pos = p; unsigned got = xs_call_sign(d + p, lin[c], CTX); if (got != want) viol("%s: requests of %u: %u of %u delivered, then %u instead of %u", s->name, lin[c], p, L, got, want); p += got; }
        if (memcmp(d, x->sig, L)) viol("%s: requests of %u give another signature", s->name, lin[c]);
        xs_pos = L; if (xs_call_sign(d, 5, CTX)) viol("%s: requests of %u: bytes after the end", s->name, lin[c]);
        if (x->at_end) x->at_end(x, L);
        EXECS(1);
    }
    STATES(x->nstates); TRANS(x->ntrans);
    free(ks); gfree(d, L, 1);
}

void explore_verifier(struct xs *x, int menu, int genuine, unsigned surplus, int queries) {
    const struct tset *s = x->s; unsigned n = s->r.n, L = x->L; int cap = L + 4 * n + 64 + 200;
    unsigned top = L + surplus; unsigned *ks = malloc(cap * sizeof *ks); u8 *buf = gbuf(top + 1, 1), *end = buf + top + 1;
    u8 *stream = malloc(top + 1); memcpy(stream, x->sig, L); for (unsigned i = L; i <= top; i++) stream[i] = (i & 1) ? 0 : x->sig[i - L];
    /* per state: whether a call on the way already reported failure */
    xs_save(x, 0);
    for (unsigned p = 0; p <= top; p++) for (int i = 0; i < x->st[p].n; i++) {
        if (x->probe) x->probe(x, p, i);
        /* asking for the verdict */
        if (queries) {
            cur("verify: %ld bytes fed (state %ld), verdict", p, i, 0, 0);
            xs_load(x, p, i); xs_pos = p; int v = xs_call_verify(CTX), want = genuine && p == L; x->ntrans++;
            if ((v != 0) != want || (v != 0 && v != 1)) viol("%s: %s signature, %u of %u bytes fed: final verdict %d instead of %d", s->name, genuine ? "genuine" : "altered", p, L, v, want);
            xs_save(x, p);
        }
        if (p > L) {       /* nothing fed later may bring it back: the whole signature again, in both shapes */
            cur("verify: %ld bytes fed (state %ld), then a whole signature again", p, i, 0, 0);
            for (int shape = 0; shape < 2; shape++) {
                xs_load(x, p, i);
                if (!shape) xs_call_update(x->sig, L, CTX); else for (unsigned q = 0; q < L; q += n) xs_call_update(x->sig + q, n, CTX);
                x->ntrans++;
                if (xs_call_verify(CTX)) viol("%s: success after %u surplus bytes followed by another complete signature", s->name, p - L);
            }
            cur("verify: %ld bytes fed (state %ld), then bytes that complete the element", p, i, 0, 0);
            xs_load(x, p, i); xs_call_update(x->sig, n - (p - L) % n, CTX); x->ntrans++;
            if (xs_call_verify(CTX)) viol("%s: success after %u surplus bytes and further ones", s->name, p - L);
            xs_load(x, p, i); xs_call_update(x->sig + L - n, n, CTX); x->ntrans++;
            if (xs_call_verify(CTX)) viol("%s: success after %u surplus bytes and further ones", s->name, p - L);
        }
        int nk = chunk_menu(menu, n, p, L, ks);
        for (int j = 0; j < nk; j++) {
            unsigned k = ks[j]; const u8 *src;
            cur("verify: %ld bytes fed (state %ld), next chunk %ld of %ld left", p, i, k, (long)L - p);
            if (p + (u64)k <= top) { src = end - k; memcpy((u8 *)src, stream + p, k); }
            else {
                if (!surplus) continue;             /* nothing beyond the end wanted */
                if (!hugebuf()) continue;
                memcpy(huge, stream + p, top - p); src = huge;
            }
            xs_load(x, p, i); xs_pos = p;
            int r = xs_call_update(src, k, CTX); x->ntrans++;
            if (genuine && p + (u64)k <= L && r != 1) viol("%s: genuine signature, %u of %u bytes fed, a chunk of %u was reported as %d", s->name, p, L, k, r);
            if (r != 0 && r != 1) viol("%s: %u bytes fed, a chunk of %u returned %d", s->name, p, k, r);
            int v = xs_call_verify(CTX), want = genuine && p + (u64)k == L;
            if ((v != 0) != want) viol("%s: %s signature, %u of %u bytes fed, then a chunk of %u: final verdict %d instead of %d", s->name, genuine ? "genuine" : "altered", p, L, k, v, want);
            if (p + (u64)k <= top) xs_save(x, p + k);
            else {   /* far beyond the end: still failing after one more element */
                xs_call_update(x->sig, n, CTX); if (xs_call_verify(CTX)) viol("%s: success again after %u surplus bytes", s->name, k);
            }
        }
    }
    sample("%s: verifier (%s signature), menu %d, %llu states, %llu transitions, positions 0..%u of %u", s->name, genuine ? "genuine" : "altered", menu, (unsigned long long)x->nstates, (unsigned long long)x->ntrans, top, L);
    if (x->capped) note_capped("more than 6 distinct context images at one position; further images were not expanded");
    unsigned lin[] = { 1, 7, n - 1, n, n + 1, 2 * n + 1, 4 * n, L };
    for (unsigned c = 0; c < sizeof lin / sizeof *lin; c++) {
        cur("verify: in pieces of %ld", lin[c], 0, 0, 0); xs_load(x, 0, 0); memcpy(buf, stream, L);
        for (unsigned p = 0; p < L; p += lin[c]) { xs_pos = p; int r = xs_call_update(buf + p, lin[c] < L - p ? lin[c] : L - p, CTX); if (genuine && r != 1) viol("%s: genuine signature in pieces of %u: reported as %d at %u", s->name, lin[c], r, p); }
        if ((xs_call_verify(CTX) != 0) != genuine) viol("%s: %s signature in pieces of %u: verdict %d", s->name, genuine ? "genuine" : "altered", lin[c], !genuine);
        if (x->at_end) x->at_end(x, L);
        EXECS(1);
    }
    STATES(x->nstates); TRANS(x->ntrans);
    free(ks); free(stream); gfree(buf, top + 1, 1);
}
