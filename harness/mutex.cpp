/* The lock of the library: creates, locks, unlocks and destroys exactly its own system lock; failures are reported. */
#include "vf.h"
#include "hawktracer/ht_config.h"
extern "C" {
#include "hawktracer/base_types.h"
void* ht_alloc(size_t n) { return malloc(n); }
void ht_free(void* p) { free(p); }
}
#include <mutex>
#include "lib/mutex.cpp"
static int g_init, g_fini, g_locks, g_unlocks, g_held; static void* g_m;
extern "C" {
int vf_mutex_init(void* m) { vf_assert(!g_init && vf_valid(m, sizeof(std::mutex)), "initialised once"); g_init++; g_m = m; return 1; }
void vf_mutex_fini(void* m) { vf_assert(m == g_m && g_init && !g_fini && !g_held, "destroyed once, while free"); g_fini++; }
int vf_mutex_lock(void* m) { vf_assert(m == g_m && g_init && !g_fini, "own lock"); if (vf_bool("refused")) return 0; g_locks++; g_held = 1; return 1; }
int vf_mutex_try_lock(void* m) { vf_assert(m == g_m && g_init && !g_fini, "own lock"); if (vf_bool("busy")) return 0; g_locks++; g_held = 1; return 1; }
void vf_mutex_unlock(void* m) { vf_assert(m == g_m && g_held, "only a held lock is released"); g_unlocks++; g_held = 0; }
}
extern "C" void H_mutex(void)
{
    int live = vf_live();
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_Mutex* m = ht_mutex_create();
    if (!m) { vf_cover("oom"); vf_assert(vf_live() == live && !g_init, "nothing is left of a lock that could not be created"); return; }
    vf_assert(g_init == 1 && !g_held, "a new lock is free");
    HT_ErrorCode e = ht_mutex_lock(m);
    vf_assert((e == HT_ERR_OK) == (g_held == 1), "locking succeeds exactly when the lock is held");
    vf_assert(g_locks == g_held, "locked once");
    if (e == HT_ERR_OK)
    {
        vf_cover("locked");
        vf_assert(ht_mutex_unlock(m) == HT_ERR_OK && g_unlocks == 1 && !g_held, "unlocked once");
    }
    vf_assert(ht_mutex_destroy(m) == HT_ERR_OK && g_fini == 1 && vf_live() == live, "destroyed and released once");
    vf_cover("post");
}
