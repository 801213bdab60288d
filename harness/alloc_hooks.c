/* allocation hooks: malloc & co of the library are the functions under contract, the system's own are ghosts */
#include "vf.h"
#include "hawktracer/alloc_hooks.h"
#include <sys/cdefs.h>

enum { MALLOC, CALLOC, REALLOC, FREE };
static int g_sys, g_op, g_pre, g_post;
static uint64_t g_ptr, g_n1, g_n2, g_ret, g_ud;

static void sys(int op, uint64_t p, uint64_t a, uint64_t b)
{
    g_sys++;
    vf_assert(op == g_op, "the matching system function is called");
    vf_assert(p == g_ptr && a == g_n1 && b == g_n2, "the system function gets the caller's arguments");
    vf_assert(!g_post, "the after hook runs after the system function");
}
static void hook(int op, int post, uint64_t ret, uint64_t p, uint64_t a, uint64_t b, uint64_t ud)
{
    vf_assert(op == g_op, "only the hooks of this operation run");
    vf_assert(p == g_ptr && a == g_n1 && b == g_n2, "a hook sees the true arguments");
    vf_assert(ud == g_ud, "a hook gets the registered user data");
    if (post) { vf_assert(g_sys == 1, "the after hook runs after the system function"); vf_assert(ret == g_ret, "the after hook sees the true result"); g_post++; }
    else { vf_assert(g_sys == 0, "the before hook runs before the system function"); vf_assert(ret == 0, "there is no result before the call"); g_pre++; }
}
#define I(p) ((uint64_t)(uintptr_t)(p))
void* G_libc_malloc(size_t n) { sys(MALLOC, 0, n, 0); return (void*)(uintptr_t)g_ret; }
void* G_libc_calloc(size_t n, size_t m) { sys(CALLOC, 0, n, m); return (void*)(uintptr_t)g_ret; }
void* G_libc_realloc(void* p, size_t n) { sys(REALLOC, I(p), n, 0); return (void*)(uintptr_t)g_ret; }
void G_libc_free(void* p) { sys(FREE, I(p), 0, 0); }
static void pre_malloc(void* r, size_t n, void* ud) { hook(MALLOC, 0, I(r), 0, n, 0, I(ud)); }
static void post_malloc(void* r, size_t n, void* ud) { hook(MALLOC, 1, I(r), 0, n, 0, I(ud)); }
static void pre_calloc(void* r, size_t n, size_t m, void* ud) { hook(CALLOC, 0, I(r), 0, n, m, I(ud)); }
static void post_calloc(void* r, size_t n, size_t m, void* ud) { hook(CALLOC, 1, I(r), 0, n, m, I(ud)); }
static void pre_realloc(void* r, void* p, size_t n, void* ud) { hook(REALLOC, 0, I(r), I(p), n, 0, I(ud)); }
static void post_realloc(void* r, void* p, size_t n, void* ud) { hook(REALLOC, 1, I(r), I(p), n, 0, I(ud)); }
static void pre_free(void* p, void* ud) { hook(FREE, 0, 0, I(p), 0, 0, I(ud)); }
static void post_free(void* p, void* ud) { hook(FREE, 1, g_ret, I(p), 0, 0, I(ud)); }

#undef malloc
#undef calloc
#undef realloc
#undef free
#undef __THROW
#define __THROW
#define malloc X_malloc
#define calloc X_calloc
#define realloc X_realloc
#define free X_free
#define __libc_malloc G_libc_malloc
#define __libc_calloc G_libc_calloc
#define __libc_realloc G_libc_realloc
#define __libc_free G_libc_free
#include "lib/platform/linux/alloc_hooks.c"

/* any choice of own hooks, all or none of the others, any operation through the public function or the hook free variant, any arguments */
void H_hooks(void)
{
    g_ud = vf_u64("ud");
    int op = g_op = (int)vf_range("op", 0, 3, 3);
    int pre = vf_bool("pre"), post = vf_bool("post"), others = vf_bool("others");
    int h[8];
    vf_unroll(8);
    for (int i = 0; i < 8; i++) h[i] = i == 2 * op ? pre : i == 2 * op + 1 ? post : others;
    int some = vf_bool("register");
    if (some)
        ht_alloc_hooks_register_hooks(h[0] ? pre_malloc : NULL, h[1] ? post_malloc : NULL, h[2] ? pre_calloc : NULL, h[3] ? post_calloc : NULL,
                                      h[4] ? pre_realloc : NULL, h[5] ? post_realloc : NULL, h[6] ? pre_free : NULL, h[7] ? post_free : NULL, (void*)(uintptr_t)g_ud);
    int skip = vf_bool("skip");
    uint64_t n = vf_u64("n"), m = vf_u64("m"), p = vf_u64("p"), r = g_ret = vf_u64("ret");
    uint64_t got = r;
    if (op == MALLOC) { g_n1 = n; got = I(skip ? ht_alloc_hooks_malloc_skip_hook(n) : X_malloc(n)); vf_cover("malloc"); }
    else if (op == CALLOC) { g_n1 = n; g_n2 = m; got = I(skip ? ht_alloc_hooks_calloc_skip_hook(n, m) : X_calloc(n, m)); vf_cover("calloc"); }
    else if (op == REALLOC) { g_ptr = p; g_n1 = n; got = I(skip ? ht_alloc_hooks_realloc_skip_hook((void*)(uintptr_t)p, n) : X_realloc((void*)(uintptr_t)p, n)); vf_cover("realloc"); }
    else { g_ptr = p; if (skip) ht_alloc_hooks_free_skip_hook((void*)(uintptr_t)p); else X_free((void*)(uintptr_t)p); vf_cover("free"); }
    vf_assert(g_sys == 1, "the system function is called exactly once");
    vf_assert(got == r, "its result is returned");
    vf_assert(g_pre == (some && !skip && pre), "the before hook runs exactly once if registered, never in the hook free variant");
    vf_assert(g_post == (some && !skip && post), "the after hook runs exactly once if registered, never in the hook free variant");
}
