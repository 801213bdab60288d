/* Native runtime of the vf_* intrinsics: replays a recorded assignment or searches at random.
   usage: prog HARNESS replay FILE | prog HARNESS search SEED COUNT SECONDS */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

static int mode; /* 0 replay, 1 random */
typedef struct { char name[64]; int kind; uint64_t v; unsigned char* b; size_t n; } Rec;
static Rec* recs; static size_t nrec, pos;
static FILE* trace;
static uint64_t rs = 88172645463325252ULL;
static int mayfail;
static int failmode; static long failcount;
static long live_allocs;

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static void out(const char* name, int kind, uint64_t v, const unsigned char* b, size_t n)
{
    if (!trace) return;
    if (kind) { fprintf(trace, "%s bytes ", name); for (size_t i = 0; i < n; i++) fprintf(trace, "%02x", b[i]); fprintf(trace, "\n"); }
    else fprintf(trace, "%s int %llu\n", name, (unsigned long long)v);
    fflush(trace);
}
static Rec* nextrec(const char* name, int kind)
{
    while (pos < nrec) {
        Rec* r = &recs[pos];
        if (!strcmp(r->name, name) && r->kind == kind) { pos++; return r; }
        /* tolerate records of choices that no longer exist */
        if (!strcmp(r->name, "alloc_fails")) { pos++; continue; }
        return NULL;
    }
    return NULL;
}
static uint64_t pick(const char* name, int w, uint64_t lo, uint64_t hi, uint64_t small)
{
    uint64_t v;
    if (mode == 0) {
        Rec* r = nextrec(name, 0);
        v = r ? r->v : lo;
    } else {
        switch (rnd() % 8) {
        case 0: v = lo; break;
        case 1: v = hi <= small ? hi : lo + rnd() % (small - lo + 1); break;
        case 2: v = lo + 1; break;
        case 3: { int b = rnd() % 14; v = lo + (rnd() & ((1ull << b) - 1)); break; }
        case 4: v = small - (rnd() % 3 ? 0 : rnd() % 2); break;
        default: v = small > lo ? lo + rnd() % (small - lo + 1) : lo;
        }
        if (v < lo) v = lo;
        if (v > hi) v = hi;
    }
    if (w < 64) v &= (1ull << w) - 1;
    out(name, 0, v, 0, 0);
    return v;
}
static uint64_t full(const char* name, int w)
{
    uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
    if (mode == 1) {
        uint64_t v;
        switch (rnd() % 6) {
        case 0: v = rnd() % 4; break;
        case 1: v = rnd() % 300; break;
        case 2: v = m - rnd() % 3; break;
        case 3: v = (1ull << (rnd() % w)) - (rnd() & 1); break;
        default: v = rnd();
        }
        v &= m;
        out(name, 0, v, 0, 0);
        return v;
    }
    return pick(name, w, 0, m, m);
}
uint64_t vf_u64(const char* n) { return full(n, 64); }
uint32_t vf_u32(const char* n) { return full(n, 32); }
uint16_t vf_u16(const char* n) { return full(n, 16); }
uint8_t vf_u8(const char* n) { return full(n, 8); }
int vf_bool(const char* n) { return (int)(mode == 0 ? pick(n, 32, 0, 1, 1) & 1 : ({ uint64_t v = rnd() & 1; out(n, 0, v, 0, 0); v; })); }
uint64_t vf_range(const char* n, uint64_t lo, uint64_t hi, uint64_t s) { uint64_t v = pick(n, 64, lo, hi, s); if (v < lo || v > hi) _exit(77); return v; }
void vf_assume(int c) { if (!c) _exit(77); }
void vf_assert(int c, const char* what) { if (!c) { fprintf(stderr, "VF-ASSERT-FAILED: %s\n", what); fflush(stderr); _exit(66); } }
void vf_cover(const char* w) { (void)w; }
void* vf_raw(const char* name, size_t n) { (void)name; char* p = (char*)malloc(n); if (!p && n) _exit(77); return p; }
void* vf_obj(const char* name, size_t n)
{
    unsigned char* p = (unsigned char*)malloc(n);
    if (!p && n) _exit(77);
    if (mode == 0) { Rec* r = nextrec(name, 1); memset(p, 0, n); if (r) memcpy(p, r->b, r->n < n ? r->n : n); }
    else { int k = rnd() % 4; for (size_t i = 0; i < n; i++) p[i] = k == 0 ? (unsigned char)(rnd() % 3) : k == 1 ? (unsigned char)(i + 1) : (unsigned char)rnd(); }
    out(name, 1, 0, p, n);
    return p;
}
char* vf_cstr(const char* name, size_t max, size_t small)
{
    char ln[80]; snprintf(ln, sizeof ln, "%s.len", name);
    size_t n = pick(ln, 64, 0, max, small);
    if (n > max) _exit(77);
    unsigned char* p = (unsigned char*)malloc(n + 1);
    if (mode == 0) { Rec* r = nextrec(name, 1); memset(p, 'x', n); if (r) memcpy(p, r->b, r->n < n ? r->n : n); }
    else { int k = rnd() % 3; for (size_t i = 0; i < n; i++) p[i] = k == 0 ? 'a' + rnd() % 2 : k == 1 ? 1 + rnd() % 255 : 32 + rnd() % 90; }
    p[n] = 0;
    for (size_t i = 0; i < n; i++) if (!p[i]) p[i] = 'x';
    out(name, 1, 0, p, n);
    return (char*)p;
}
void* vf_lazy_(const char* name, size_t count, size_t cap, size_t elem, void (*init)(size_t, void*)) { (void)name; (void)count; (void)cap; (void)elem; (void)init; abort(); }
void vf_inv(int (*f)(void)) { (void)f; }
void vf_term(uint64_t (*f)(void)) { (void)f; }
void vf_inv_clear(void) {}
void vf_watch(uint64_t v) { (void)v; }
void vf_unroll(int n) { (void)n; }
void vf_havoc(void* p, size_t n)
{
    unsigned char* q = (unsigned char*)p;
    if (mode == 0) { Rec* r = nextrec("havoc", 1); if (r) memcpy(q, r->b, r->n < n ? r->n : n); else for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(rnd() >> 24); }
    else for (size_t i = 0; i < n; i++) q[i] = rnd();
    out("havoc", 1, 0, q, n);
}
/* allocations of the code under test (through malloc/realloc/free of the harness unit) */
void vf_shared(void* p, size_t n, void* l, const int* h) { (void)p; (void)n; (void)l; (void)h; }
void vf_lazy_reset(const void* p) { (void)p; }
void vf_guard(const void* p, size_t n, const int* f) { (void)p; (void)n; (void)f; }
int vf_live(void) { return (int)live_allocs; }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
int vf_valid(const void* p, size_t n) { return p && __asan_region_is_poisoned((void*)p, n) == NULL; }
int vf_alive(const void* p) { return p && !__asan_address_is_poisoned(p); }
#else
int vf_valid(const void* p, size_t n) { (void)n; return p != NULL; }
int vf_alive(const void* p) { return p != NULL; }
#endif
void vf_heapify(void* p) { (void)p; live_allocs++; }
size_t vf_objsize(const void* p) { extern size_t malloc_usable_size(void*); return malloc_usable_size((void*)p); }
void vf_malloc_may_fail(int v) { mayfail = v; }
int vf_is_proof(void) { return 0; }
int vf_is_verifier(void) { return 0; }
void vf_stop(void) { _exit(0); }
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int vf_and(int a, int b) { return a && b; }
int vf_imp(int a, int b) { return !a || b; }
uint8_t vf_peek(const void* p, size_t i, size_t n) { return i < n ? ((const uint8_t*)p)[i] : 0; }
uint64_t vf_peek64(const void* p, size_t i, size_t n) { return i < n ? ((const uint64_t*)p)[i] : 0; }
static int fails(size_t n)
{
    if (n >= ((size_t)1 << 46)) return 1;
    if (!mayfail) return 0;
    int f;
    if (mode == 0) { Rec* r = NULL; if (pos < nrec && !strcmp(recs[pos].name, "alloc_fails")) r = &recs[pos++]; f = r ? (int)r->v : 0; }
    else f = failmode == 0 ? 0 : failmode == 1 ? (failcount-- == 0) : (rnd() % 4 == 0);
    out("alloc_fails", 0, f, 0, 0);
    return f;
}
void* vf_malloc(size_t n) { if (fails(n)) return NULL; void* p = malloc(n); if (p) live_allocs++; return p; }
void* vf_calloc(size_t a, size_t b) { if (fails(a * b)) return NULL; void* p = calloc(a, b); if (p) live_allocs++; return p; }
void* vf_realloc(void* p, size_t n)
{
    if (p && n == 0) { live_allocs--; free(p); return NULL; }
    if (fails(n)) return NULL;
    void* q = realloc(p, n);
    if (q && !p) live_allocs++;
    return q;
}
void vf_free(void* p) { if (p) live_allocs--; free(p); }

static void run(const char* h)
{
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, h);
    if (!f) { fprintf(stderr, "no harness %s\n", h); _exit(3); }
    struct rlimit rl = {10, 12};
    setrlimit(RLIMIT_CPU, &rl);
    f();
    fflush(NULL);
    _exit(0);
}
int main(int argc, char** argv)
{
    if (argc < 4) return 3;
    if (!strcmp(argv[2], "replay")) {
        FILE* f = fopen(argv[3], "r");
        static char line[1 << 22]; recs = (Rec*)calloc(1 << 16, sizeof(Rec));
        while (f && fgets(line, sizeof line, f)) {
            char* sp = strchr(line, ' '); if (!sp) continue; *sp = 0;
            char* kind = sp + 1; char* sp2 = strchr(kind, ' '); if (!sp2) continue; *sp2 = 0;
            char* val = sp2 + 1;
            Rec* r = &recs[nrec++]; snprintf(r->name, 64, "%s", line);
            if (!strcmp(kind, "int")) { r->kind = 0; r->v = strtoull(val, 0, 10); }
            else { r->kind = 1; size_t l = strspn(val, "0123456789abcdef"); r->n = l / 2; r->b = (unsigned char*)malloc(r->n + 1);
                for (size_t i = 0; i < r->n; i++) { unsigned x; sscanf(val + 2 * i, "%2x", &x); r->b[i] = x; } }
        }
        mode = 0;
        run(argv[1]);
    }
    mode = 1;
    uint64_t seed = strtoull(argv[3], 0, 10); long count = atol(argv[4]); double secs = atof(argv[5]);
    const char* tf = argv[6];
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long ran = 0, disc = 0;
    for (long i = 0; i < count; i++) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
        int p[2]; if (pipe(p)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); dup2(p[1], 2); dup2(p[1], 1);
            rs = (seed + 0x9E3779B97F4A7C15ULL * (uint64_t)(i + 1)) | 1; for (int k = 0; k < 4; k++) rnd();
            failmode = rnd() % 3; failcount = rnd() % 12;
            trace = fopen(tf, "w");
            run(argv[1]);
        }
        close(p[1]);
        static char buf[1 << 16]; size_t n = 0; ssize_t k; static char junk[4096];
        while (n < sizeof buf - 1 && (k = read(p[0], buf + n, sizeof buf - 1 - n)) > 0) n += k;
        while (read(p[0], junk, sizeof junk) > 0) {}
        buf[n] = 0; close(p[0]);
        int st; waitpid(pid, &st, 0); ran++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { disc++; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fputs(buf, stderr); return 3; }
        printf("FAIL iteration=%ld status=%d ran=%ld\n%s\n", i, st, ran, buf);
        return 1;
    }
    printf("PASS ran=%ld discarded=%ld\n", ran, disc);
    return 0;
}
void* vf_loop_buf(void) { return 0; }
