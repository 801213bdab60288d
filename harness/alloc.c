/* lib/alloc.c: which allocator serves a request, with which arguments; global_timeline etc. are proved against these wrappers */
#include "vf.h"
#include "lib/alloc.c"
#include "hawktracer/init.h"

static int g_calls; static void* g_ptr; static size_t g_size; static void* g_ud; static uint64_t g_ret;
static void* G_alloc(void* p, size_t n, void* ud)
{
    g_calls++; g_ptr = p; g_size = n; g_ud = ud;
    return (void*)(uintptr_t)g_ret;
}
/* with an allocator installed each request goes to it, once, with its size and the user data, and its answer is passed on */
void H_custom(void)
{
    uint64_t ud = vf_u64("ud"), ptr = vf_u64("ptr"), op = vf_range("op", 0, 2, 2);
    size_t n = vf_u64("n");
    g_ret = vf_u64("ret");
    int before = vf_live();
    ht_allocator_set(G_alloc, (void*)(uintptr_t)ud);
    if (op == 0)
    {
        vf_cover("alloc");
        void* r = ht_alloc(n);
        vf_assert(g_calls == 1 && g_ptr == NULL && g_size == n && (uint64_t)(uintptr_t)g_ud == ud, "an allocation asks the configured allocator once for the right size");
        vf_assert((uint64_t)(uintptr_t)r == g_ret, "the block of the configured allocator is returned");
    }
    else if (op == 1)
    {
        vf_cover("realloc");
        void* r = ht_realloc((void*)(uintptr_t)ptr, n);
        vf_assert(g_calls == 1 && (uint64_t)(uintptr_t)g_ptr == ptr && g_size == n && (uint64_t)(uintptr_t)g_ud == ud, "a resize asks the configured allocator once, for the block and its new size");
        vf_assert((uint64_t)(uintptr_t)r == g_ret, "the block of the configured allocator is returned");
    }
    else
    {
        vf_cover("free");
        ht_free((void*)(uintptr_t)ptr);
        if (ptr != 0)
            vf_assert(g_calls == 1 && (uint64_t)(uintptr_t)g_ptr == ptr && g_size == 0 && (uint64_t)(uintptr_t)g_ud == ud, "a release asks the configured allocator once, for size 0");
        else
            vf_assert(g_calls == 0, "releasing nothing does not ask for a zero sized block");
    }
    vf_assert(vf_live() == before, "the system allocator is not used when another one is configured");
}
/* without one, and after it was removed again, the system allocator serves everything */
void H_default(void)
{
    size_t n = vf_range("n", 1, VF_BIG, 16), m = vf_range("m", 1, VF_BIG, 16), w = vf_range("w", 0, VF_BIG, 16);
    uint8_t x = vf_u8("x");
    if (vf_bool("removed"))
    {
        ht_allocator_set(G_alloc, (void*)(uintptr_t)vf_u64("ud"));
        ht_allocator_set(NULL, NULL);
        vf_cover("removed");
    }
    vf_malloc_may_fail(1);
    int before = vf_live();
    char* p = (char*)ht_alloc(n);
    if (p == NULL) { vf_cover("oom"); vf_assert(vf_live() == before, "a failed allocation holds nothing"); return; }
    vf_assert(vf_live() == before + 1 && vf_valid(p, n), "a block of the requested size is allocated");
    if (w < n) p[w] = (char)x;
    char* q = (char*)ht_realloc(p, m);
    if (q == NULL) { vf_cover("roOM"); vf_assert(vf_live() == before + 1 && vf_valid(p, n), "a failed resize keeps the block"); if (w < n) vf_assert(p[w] == (char)x, "and its contents"); ht_free(p); }
    else
    {
        vf_cover("resized");
        vf_assert(vf_live() == before + 1 && vf_valid(q, m), "the block has the new size");
        if (w < n && w < m) vf_assert(q[w] == (char)x, "a resize keeps the contents");
        ht_free(q);
    }
    vf_assert(vf_live() == before, "a released block is gone");
    ht_free(NULL);
    vf_assert(vf_live() == before && g_calls == 0, "no other allocator is used");
}
