/* env.h for C++ units: the C sources of the library come in as declarations, their code through separate C units. */
#ifndef ENV_CPP_H
#define ENV_CPP_H
#include "vf.h"
extern "C" {
#include "hawktracer/base_types.h"
#include "hawktracer/alloc.h"
#include "internal/mutex.h"
}
struct _HT_Mutex { int held; };
static int g_held;
static int g_mutexes;
extern "C" {
void* ht_alloc(size_t n) { return malloc(n); }
void* ht_realloc(void* p, size_t n) { return realloc(p, n); }
void ht_free(void* p) { free(p); }
HT_Mutex* ht_mutex_create(void)
{
    HT_Mutex* m = (HT_Mutex*)ht_alloc(sizeof(HT_Mutex));
    if (m) { m->held = 0; g_mutexes++; }
    return m;
}
HT_ErrorCode ht_mutex_destroy(HT_Mutex* m)
{
    vf_assert(m != NULL && !m->held, "mutex exists and is free when destroyed");
    g_mutexes--;
    ht_free(m);
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_lock(HT_Mutex* m)
{
    vf_assert(m != NULL && !m->held, "a lock that is already held is not taken again");
    m->held = 1;
    g_held++;
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_unlock(HT_Mutex* m)
{
    vf_assert(m != NULL && m->held, "only a held lock is released");
    m->held = 0;
    g_held--;
    return HT_ERR_OK;
}
}
static void locks_released(void) { vf_assert(g_held == 0, "every lock taken is released"); }
#endif
