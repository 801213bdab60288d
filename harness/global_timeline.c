/* Global timeline: created on first use, once per thread, with the configured buffer size; destroyed with the thread.
   The C build of the file (thread-local pointer and pthread key); the C++ build wraps the same creation function. */
#include "env.h"
#include "hawktracer/timeline.h"
#include "hawktracer/feature_callstack.h"
#include "hawktracer/feature_cached_string.h"
#include <pthread.h>
static int g_tl, g_created, g_feat, g_destroyed; static size_t g_cap; static void (*g_dtor)(void*); static void* g_specific; static int g_once;
HT_Timeline* ht_timeline_create(size_t cap, HT_Boolean ts, HT_Boolean ser, const char* name, HT_ErrorCode* err)
{
    (void)err;
    vf_assert(!ts && ser && name != NULL, "serializing, used by one thread, listeners shared by name");
    g_created++; g_cap = cap;
    return (HT_Timeline*)&g_tl;
}
void ht_timeline_destroy(HT_Timeline* t) { vf_assert(t == (HT_Timeline*)&g_tl, "own timeline"); g_destroyed++; }
HT_ErrorCode ht_feature_callstack_enable(HT_Timeline* t) { vf_assert(t == (HT_Timeline*)&g_tl, "own timeline"); g_feat |= 1; return HT_ERR_OK; }
HT_ErrorCode ht_feature_cached_string_enable(HT_Timeline* t, HT_Boolean ts) { (void)ts; vf_assert(t == (HT_Timeline*)&g_tl, "own timeline"); g_feat |= 2; return HT_ERR_OK; }
static int spec_once(pthread_once_t* o, void (*f)(void)) { (void)o; if (!g_once) { g_once = 1; f(); } return 0; }
static int spec_key(pthread_key_t* k, void (*d)(void*)) { (void)k; g_dtor = d; return 0; }
static int spec_set(pthread_key_t k, const void* v) { (void)k; g_specific = (void*)v; return 0; }
#define pthread_once spec_once
#define pthread_key_create spec_key
#define pthread_setspecific spec_set
#include "lib/global_timeline.cpp"
void H_global(void)
{
    size_t n = vf_u64("size");
    int set = vf_bool("set");
    size_t def = ht_global_timeline_get_buffer_size();
    if (set) ht_global_timeline_set_buffer_size(n);
    vf_cover("pre");
    vf_assert(ht_global_timeline_get_buffer_size() == (set ? n : def), "the configured size is kept");
    HT_Timeline* t = ht_global_timeline_get();
    vf_assert(t == (HT_Timeline*)&g_tl && g_created == 1 && g_cap == (set ? n : def) && g_feat == 3, "created with the configured buffer size and both features");
    vf_assert(ht_global_timeline_get() == t && g_created == 1, "created once");
    vf_assert(g_specific == t && g_dtor != NULL, "released with the thread");
    if (g_dtor) g_dtor(g_specific);
    vf_assert(g_destroyed == 1, "released once");
}
/* no-native H_global */
