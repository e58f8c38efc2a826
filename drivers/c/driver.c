/* Executes encode, decode and call-script traces from the model checker against
 * the C library. Every allocation the library makes is accounted for: double and
 * foreign frees, writes after free, overruns and leaks are reported per trace.
 * Caller data is placed against a guard page. Protocol: see harness/ext.go. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include "polyglot.h"

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

/* ---- allocation accounting ------------------------------------------------ */
#define CANARY 16
#define MAXB 65536
static int tracking;
static unsigned long long allocated; /* bytes requested by the library since reset */
static char memerr[256];
struct blk { unsigned char *p; size_t n; int freed; };
static struct blk blks[MAXB];
static int nblk;

static void report(const char *m) { if (!memerr[0]) strncpy(memerr, m, sizeof memerr - 1); }

static struct blk *find(void *p) {
    for (int i = nblk - 1; i >= 0; i--) if (blks[i].p == p) return &blks[i];
    return NULL;
}
static void *track(size_t n, size_t align, int zero) {
    allocated += n;
    int big = n >= (1u << 20); /* not touched, so that absurd requests cost no memory */
    unsigned char *p = align > 16 ? __libc_memalign(align, n + CANARY) : big && zero ? __libc_calloc(1, n + CANARY) : __libc_malloc(n + CANARY);
    if (!p) return NULL;
    if (!big) memset(p, zero ? 0 : 0xA5, n); else if (zero && align > 16) memset(p, 0, n);
    memset(p + n, 0x5C, CANARY);
    if (nblk >= MAXB) _exit(97); /* only a panic printing its backtrace gets here */
    blks[nblk++] = (struct blk){p, n, 0};
    return p;
}
static void check_canary(struct blk *b) {
    for (int i = 0; i < CANARY; i++) if (b->p[b->n + i] != 0x5C) { report("write past the end of an allocation"); return; }
}
void *malloc(size_t n) { return tracking ? track(n, 1, 0) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return tracking ? track(a * b, 1, 1) : __libc_calloc(a, b); }
void *memalign(size_t al, size_t n) { return tracking ? track(n, al, 0) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void free(void *p) {
    if (!p) return;
    if (!nblk && !tracking) { __libc_free(p); return; }
    struct blk *b = find(p);
    if (b) {
        if (b->freed) { report("double free"); return; }
        check_canary(b);
        if (b->n >= (1u << 20)) { b->freed = 2; __libc_free(b->p); return; }
        memset(b->p, 0xF5, b->n); /* poison; really freed at the end of the trace */
        b->freed = 1;
        return;
    }
    if (tracking) { report("free of a pointer the library did not allocate"); return; }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    struct blk *b = nblk ? find(p) : NULL;
    if (!b) {
        if (tracking) { report("realloc of a pointer the library did not allocate"); return NULL; }
        return __libc_realloc(p, n);
    }
    if (b->freed) { report("realloc of freed memory"); return NULL; }
    size_t old = b->n;
    void *q = track(n, 1, 0);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
/* Called by the allocator that the build adds to the library, before each release. */
void polymc_release(void *p, size_t n, size_t align) {
    if (!nblk) return;
    struct blk *b = find(p);
    (void)align;
    if (b && !b->freed && b->n != n) report("memory released with another size than it was allocated with");
}
/* Ends a trace: returns the number of blocks never freed. */
static int settle(void) {
    int live = 0;
    for (int i = 0; i < nblk; i++) {
        struct blk *b = &blks[i];
        if (b->freed == 2) continue;
        if (!b->freed) { live++; check_canary(b); }
        else for (size_t k = 0; k < b->n; k++) if (b->p[k] != 0xF5) { report("write after free"); break; }
        __libc_free(b->p);
    }
    nblk = 0;
    return live;
}
#define LIB(x) do { tracking = 1; x; tracking = 0; } while (0)

/* ---- guarded caller memory ------------------------------------------------- */
#define GUARD_MAX (4u << 20)
static unsigned char *guard_base;
static long page;
static unsigned char *guarded(size_t n) { /* n bytes ending exactly at an inaccessible page */
    if (!guard_base) {
        page = sysconf(_SC_PAGESIZE);
        guard_base = mmap(NULL, GUARD_MAX + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(guard_base + GUARD_MAX, page, PROT_NONE);
    }
    if (n > GUARD_MAX) { fprintf(stderr, "driver: too big\n"); exit(3); }
    return guard_base + GUARD_MAX - n;
}

/* ---- protocol ---------------------------------------------------------------- */
static unsigned char *req; static size_t rp;
static unsigned char *out; static size_t on, oc;
static uint8_t g8(void) { return req[rp++]; }
static uint16_t g16(void) { uint16_t v; memcpy(&v, req + rp, 2); rp += 2; return v; }
static uint32_t g32(void) { uint32_t v; memcpy(&v, req + rp, 4); rp += 4; return v; }
static uint64_t g64(void) { uint64_t v; memcpy(&v, req + rp, 8); rp += 8; return v; }
static void need(size_t n) { if (on + n > oc) { oc = (on + n) * 2; out = __libc_realloc(out, oc); } }
static void p8(uint8_t v) { need(1); out[on++] = v; }
static void p16(uint16_t v) { need(2); memcpy(out + on, &v, 2); on += 2; }
static void p32(uint32_t v) { need(4); memcpy(out + on, &v, 4); on += 4; }
static void p64(uint64_t v) { need(8); memcpy(out + on, &v, 8); on += 8; }
static void pb(const void *b, size_t n) { need(n); if (n) memcpy(out + on, b, n); on += n; }
static void pbl(const void *b, size_t n) { p32(n); pb(b, n); }

typedef struct { uint8_t k, a, b; uint64_t n; uint32_t dl; unsigned char *d; } op;
static op getop(void) { op o; o.k = g8(); o.a = g8(); o.b = g8(); o.n = g64(); o.dl = g32(); o.d = req + rp; rp += o.dl; return o; }

/* Kinds and statuses go by the names in the header, as in a caller's program. */
static polyglot_kind_t kind(uint8_t k) {
    switch (k) {
    case 0: return POLYGLOT_KIND_NONE;
    case 1: return POLYGLOT_KIND_ARRAY;
    case 2: return POLYGLOT_KIND_MAP;
    case 3: return POLYGLOT_KIND_ANY;
    case 4: return POLYGLOT_KIND_BYTES;
    case 5: return POLYGLOT_KIND_STRING;
    case 6: return POLYGLOT_KIND_ERROR;
    case 7: return POLYGLOT_KIND_BOOL;
    case 8: return POLYGLOT_KIND_U8;
    case 9: return POLYGLOT_KIND_U16;
    case 10: return POLYGLOT_KIND_U32;
    case 11: return POLYGLOT_KIND_U64;
    case 12: return POLYGLOT_KIND_I32;
    case 13: return POLYGLOT_KIND_I64;
    case 14: return POLYGLOT_KIND_F32;
    case 15: return POLYGLOT_KIND_F64;
    }
    return k;
}
static uint8_t status(polyglot_status_t st) {
    if (st == POLYGLOT_STATUS_PASS) return 0;
    if (st == POLYGLOT_STATUS_FAILURE) return 1;
    if (st == POLYGLOT_STATUS_NULL_PTR) return 2;
    return st <= 2 ? 0x80 + st : st;
}

static void encode(polyglot_status_t *st, polyglot_encoder_t *e, op *o, int datanull) {
    char *s = NULL; unsigned char *b = NULL;
    float f; double g; uint32_t w;
    if (!datanull) {
        if (o->k == 5 || o->k == 6) { s = (char *)guarded(o->dl + 1); memcpy(s, o->d, o->dl); s[o->dl] = 0; }
        if (o->k == 4) { b = guarded(o->dl); if (o->dl) memcpy(b, o->d, o->dl); }
    }
    switch (o->k) {
    case 0: LIB(polyglot_encode_none(st, e)); break;
    case 1: LIB(polyglot_encode_array(st, e, (uint32_t)o->n, kind(o->a))); break;
    case 2: LIB(polyglot_encode_map(st, e, (uint32_t)o->n, kind(o->a), kind(o->b))); break;
    case 4: LIB(polyglot_encode_bytes(st, e, b, o->dl)); break;
    case 5: LIB(polyglot_encode_string(st, e, s)); break;
    case 6: LIB(polyglot_encode_error(st, e, s)); break;
    case 7: LIB(polyglot_encode_bool(st, e, o->n != 0)); break;
    case 8: LIB(polyglot_encode_u8(st, e, (uint8_t)o->n)); break;
    case 9: LIB(polyglot_encode_u16(st, e, (uint16_t)o->n)); break;
    case 10: LIB(polyglot_encode_u32(st, e, (uint32_t)o->n)); break;
    case 11: LIB(polyglot_encode_u64(st, e, o->n)); break;
    case 12: LIB(polyglot_encode_i32(st, e, (int32_t)o->n)); break;
    case 13: LIB(polyglot_encode_i64(st, e, (int64_t)o->n)); break;
    case 14: w = (uint32_t)o->n; memcpy(&f, &w, 4); LIB(polyglot_encode_f32(st, e, f)); break;
    case 15: memcpy(&g, &o->n, 8); LIB(polyglot_encode_f64(st, e, g)); break;
    default: fprintf(stderr, "driver: op\n"); exit(3);
    }
    /* The caller may reuse its memory at once. */
    if (s) memset(s, 'Z', o->dl);
    if (b) memset(b, 0xDD, o->dl);
}

typedef struct { uint64_t n; void *obj; int type; /* 4 bytes, 5 string, 6 error */ } dres;
static dres decode(polyglot_status_t *st, polyglot_decoder_t *d, uint8_t k, uint8_t a, uint8_t b) {
    dres r = {0, NULL, 0};
    float f; double g; uint32_t w;
    switch (k) {
    case 0: LIB(r.n = polyglot_decode_none(st, d)); break;
    case 1: LIB(r.n = polyglot_decode_array(st, d, kind(a))); break;
    case 2: LIB(r.n = polyglot_decode_map(st, d, kind(a), kind(b))); break;
    case 4: LIB(r.obj = polyglot_decode_bytes(st, d)); r.type = 4; break;
    case 5: LIB(r.obj = polyglot_decode_string(st, d)); r.type = 5; break;
    case 6: LIB(r.obj = polyglot_decode_error(st, d)); r.type = 6; break;
    case 7: LIB(r.n = polyglot_decode_bool(st, d)); break;
    case 8: LIB(r.n = polyglot_decode_u8(st, d)); break;
    case 9: LIB(r.n = polyglot_decode_u16(st, d)); break;
    case 10: LIB(r.n = polyglot_decode_u32(st, d)); break;
    case 11: LIB(r.n = polyglot_decode_u64(st, d)); break;
    case 12: LIB(r.n = (uint64_t)(int64_t)polyglot_decode_i32(st, d)); break;
    case 13: LIB(r.n = (uint64_t)polyglot_decode_i64(st, d)); break;
    case 14: LIB(f = polyglot_decode_f32(st, d)); memcpy(&w, &f, 4); r.n = w; break;
    case 15: LIB(g = polyglot_decode_f64(st, d)); memcpy(&r.n, &g, 8); break;
    default: fprintf(stderr, "driver: op\n"); exit(3);
    }
    return r;
}
static void content(dres *r, const void **p, size_t *n) {
    *p = NULL; *n = 0;
    if (!r->obj) return;
    if (r->type == 4) { polyglot_buffer_t *b = r->obj; *n = b->length; if (b->length) *p = b->data; }
    else { *p = r->obj; *n = strlen(r->obj); }
}
static void release(dres *r) {
    void *o = r->obj;
    r->obj = NULL;
    if (r->type == 4) LIB(polyglot_free_decode_bytes(o));
    else if (r->type == 5) LIB(polyglot_free_decode_string(o));
    else if (r->type == 6) LIB(polyglot_free_decode_error(o));
}

static void put_res(uint8_t flag, uint8_t err, uint64_t n, const void *d, size_t dl, uint32_t rem, uint64_t alloc) {
    p8(flag); p8(err); p64(n); pbl(d, dl); p32(rem); p64(alloc);
}

static void do_encode(void) {
    g8(); g32(); g32(); /* the library allocates its own buffer */
    int nops = g16();
    char msg[256] = "";
    polyglot_status_t st = 0xEE;
    polyglot_encoder_t *e;
    memerr[0] = 0;
    LIB(e = polyglot_new_encoder(&st));
    if (st != POLYGLOT_STATUS_PASS || !e) strcpy(msg, "new_encoder failed");
    for (int i = 0; i < nops; i++) {
        op o = getop();
        if (msg[0]) continue;
        st = 0xEE;
        encode(&st, e, &o, 0);
        if (st != POLYGLOT_STATUS_PASS) snprintf(msg, sizeof msg, "status %d after encoding kind %d", st, o.k);
    }
    uint32_t n = 0; unsigned char *b = NULL;
    if (!msg[0]) {
        st = 0xEE;
        LIB(n = polyglot_encoder_size(&st, e));
        b = guarded(n);
        if (n > 0) memset(b, 0xEE, n);
        st = 0xEE;
        LIB(polyglot_encoder_buffer(&st, e, b, n));
        if (st != POLYGLOT_STATUS_PASS) snprintf(msg, sizeof msg, "status %d from encoder_buffer", st);
    }
    LIB(polyglot_free_encoder(e));
    int live = settle();
    if (!msg[0] && memerr[0]) strcpy(msg, memerr);
    if (!msg[0] && live) snprintf(msg, sizeof msg, "%d allocations leaked", live);
    if (msg[0]) { p8(1); pbl(msg, strlen(msg)); }
    else { p8(0); pbl(b, n); }
}

static void do_decode(void) {
    uint32_t n = g32();
    unsigned char *in = guarded(n);
    if (n) memcpy(in, req + rp, n);
    rp += n;
    int nops = g16();
    size_t at = on;
    uint16_t done = 0;
    p16(0);
    memerr[0] = 0;
    polyglot_status_t st = 0xEE;
    polyglot_decoder_t *d;
    LIB(d = polyglot_new_decoder(&st, in, n));
    int bad = st != POLYGLOT_STATUS_PASS || !d;
    if (n) memset(in, 0xDD, n); /* the decoder keeps its own copy */
    struct { dres r; size_t at, n; int mut; } kept[32]; /* objects and where their content was noted */
    int nkept = 0;
    for (int i = 0; i < nops; i++) {
        uint8_t k = g8(), a = g8(), b = g8();
        if (bad == 2) continue;
        done++;
        if (bad) { put_res(2, 0xff, 0, "new_decoder failed", 18, -1, 0); bad = 2; continue; }
        st = 0xEE;
        allocated = 0;
        dres r = decode(&st, d, k, a, b);
        unsigned long long al = allocated;
        const void *p; size_t pn;
        content(&r, &p, &pn);
        if (st != POLYGLOT_STATUS_PASS && st != POLYGLOT_STATUS_FAILURE) {
            char m[64]; snprintf(m, sizeof m, "status is %d after the call", st);
            put_res(2, 0xff, 0, m, strlen(m), -1, al); bad = 2;
        } else if (k == 0) {
            put_res(st == POLYGLOT_STATUS_PASS && r.n ? 0 : 1, 0xfe, 0, NULL, 0, -1, al);
        } else if (r.type && !r.obj && st == POLYGLOT_STATUS_PASS) {
            put_res(2, 0xff, 0, "null object with success", 24, -1, al); bad = 2;
        } else {
            put_res(st == POLYGLOT_STATUS_PASS ? 0 : 1, 0xfe, r.n, p, pn, -1, al);
        }
        if (r.obj && nkept < 32) { kept[nkept].r = r; kept[nkept].at = on - 12 - pn; kept[nkept].n = pn; kept[nkept++].mut = 0; }
        else if (r.obj) release(&r);
        if (memerr[0] && bad != 2) { put_res(2, 0xff, 0, memerr, strlen(memerr), -1, al); done++; bad = 2; }
    }
    if (bad != 1) LIB(polyglot_free_decoder(d));
    /* Decoded objects outlive the input and the decoder, and do not share memory. */
    const char *alias = NULL;
    for (int m = -1; m < nkept; m++) {
        const void *p; size_t pn;
        if (m >= 0) {
            if (kept[m].r.type != 4) continue;
            content(&kept[m].r, &p, &pn);
            if (pn) memset((void *)p, 0xCC, pn);
            kept[m].mut = 1;
        }
        for (int i = 0; i < nkept && !alias; i++) {
            content(&kept[i].r, &p, &pn);
            int same = pn == kept[i].n;
            for (size_t q = 0; same && q < pn; q++)
                same = ((const unsigned char *)p)[q] == (kept[i].mut ? 0xCC : out[kept[i].at + q]);
            if (!same) alias = m < 0 ? "a decoded object changed after the decoder was freed or other values were decoded" : "changing one decoded object changed another";
        }
    }
    for (int i = 0; i < nkept; i++) release(&kept[i].r);
    if (alias && bad != 2) { put_res(3, 0xff, 0, alias, strlen(alias), -1, 0); done++; }
    int live = settle();
    if (bad != 2 && (live || memerr[0])) {
        char m[320];
        if (memerr[0]) snprintf(m, sizeof m, "%s", memerr); else snprintf(m, sizeof m, "%d allocations leaked", live);
        put_res(2, 0xff, 0, m, strlen(m), -1, 0);
        done++;
    }
    memcpy(out + at, &done, 2);
}

/* Call scripts: every call names its slots and which pointers are null. Each
 * answer is status, value, null-result flag, content, then the content of every
 * live encoder, so that unwanted effects show. A quiet script makes no calls of its own. */
#define SLOTS 8
static void do_script(void) {
    polyglot_encoder_t *enc[SLOTS] = {0};
    polyglot_decoder_t *dec[SLOTS] = {0};
    dres obj[SLOTS] = {{0}};
    int ncalls = g16(), quiet = ncalls & 0x8000;
    ncalls &= 0x7fff;
    memerr[0] = 0;
    p16(ncalls);
    for (int i = 0; i < ncalls; i++) {
        uint8_t fn = g8(), slot = g8(), nullm = g8(), init = g8();
        int32_t arg = (int32_t)g32();
        op o = getop();
        int hnull = nullm & 1, dnull = nullm & 2;
        polyglot_status_t st = init;
        uint64_t n = 0; uint8_t isnull = 0; const void *p = NULL; size_t pn = 0;
        unsigned char *b;
        switch (fn) {
        case 0: LIB(enc[slot] = polyglot_new_encoder(&st)); isnull = !enc[slot]; break;
        case 1: LIB(polyglot_free_encoder(hnull ? NULL : enc[slot])); if (!hnull) enc[slot] = NULL; break;
        case 2: LIB(n = polyglot_encoder_size(&st, hnull ? NULL : enc[slot])); break;
        case 3: { /* buffer of (size + arg) bytes, or just arg if quiet */
            polyglot_status_t t; uint32_t sz = 0;
            if (!hnull && !quiet) LIB(sz = polyglot_encoder_size(&t, enc[slot]));
            int64_t want = (int64_t)sz + arg; if (want < 0) want = 0;
            b = guarded(want); memset(b, 0xEE, want);
            LIB(polyglot_encoder_buffer(&st, hnull ? NULL : enc[slot], dnull ? NULL : b, (uint32_t)want));
            p = b; pn = want; n = sz; break; }
        case 4: encode(&st, hnull ? NULL : enc[slot], &o, dnull); break;
        case 5: b = guarded(o.dl); if (o.dl) memcpy(b, o.d, o.dl);
            LIB(dec[slot] = polyglot_new_decoder(&st, dnull ? NULL : b, o.dl));
            isnull = !dec[slot]; if (o.dl) memset(b, 0xDD, o.dl); break;
        case 6: LIB(polyglot_free_decoder(hnull ? NULL : dec[slot])); if (!hnull) dec[slot] = NULL; break;
        case 7: { dres r = decode(&st, hnull ? NULL : dec[slot], o.k, o.a, o.b);
            n = r.n; isnull = r.type && !r.obj; content(&r, &p, &pn);
            if (r.obj) { obj[arg] = r; } break; }
        case 8: { dres r = obj[slot]; if (hnull) { r.obj = NULL; r.type = o.k; }
            release(&r); if (!hnull) obj[slot].obj = NULL; break; }
        case 9: content(&obj[slot], &p, &pn); break;
        default: fprintf(stderr, "driver: fn\n"); exit(3);
        }
        p8(status(st)); p64(n); p8(isnull); pbl(p, pn);
        /* contents of both encoder slots that scripts use */
        for (int s = 0; s < 2; s++) {
            if (!enc[s] || quiet) { p32(0xffffffffu); continue; }
            polyglot_status_t t = 0; uint32_t sz;
            LIB(sz = polyglot_encoder_size(&t, enc[s]));
            unsigned char *q = __libc_malloc(sz + 1);
            LIB(polyglot_encoder_buffer(&t, enc[s], q, sz));
            pbl(q, sz);
            __libc_free(q);
        }
    }
    int live = settle();
    p32(live);
    pbl(memerr, strlen(memerr));
}

static int readn(void *b, size_t n) {
    size_t p = 0;
    while (p < n) { ssize_t r = read(0, (char *)b + p, n - p); if (r <= 0) return 0; p += r; }
    return 1;
}
int main(void) {
    uint32_t h[2];
    while (readn(h, 8)) {
        req = __libc_malloc(h[0] + 1); rp = 0; on = 0;
        if (!readn(req, h[0])) return 0;
        p32(0);
        for (uint32_t i = 0; i < h[1]; i++) {
            switch (g8()) {
            case 'E': do_encode(); break;
            case 'D': do_decode(); break;
            case 'S': do_script(); break;
            default: fprintf(stderr, "driver: record\n"); return 3;
            }
        }
        uint32_t n = on - 4; memcpy(out, &n, 4);
        size_t p = 0;
        while (p < on) { ssize_t w = write(1, out + p, on - p); if (w <= 0) return 0; p += w; }
        __libc_free(req);
    }
    return 0;
}
