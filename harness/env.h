/* Environment of a C unit: assumed contracts of the platform layer (mutex, clock, event id source). */
#ifndef ENV_H
#define ENV_H
#include "vf.h"
#include "hawktracer/base_types.h"
#include "hawktracer/alloc.h"
#include "internal/mutex.h"

/* A mutex is a non-recursive lock.  g_held counts locks held, so a function that returns with g_held==0 released
   everything it took; taking a held lock (self deadlock), releasing a free one or using a destroyed one fails. */
struct _HT_Mutex { int held; };
static int g_held;
static int g_mutexes;
HT_Mutex* ht_mutex_create(void)
{
    HT_Mutex* m = (HT_Mutex*)ht_alloc(sizeof(HT_Mutex));
    if (m) { m->held = 0; g_mutexes++; }
    return m;
}
HT_ErrorCode ht_mutex_destroy(HT_Mutex* m)
{
    vf_assert(m != NULL, "mutex exists when destroyed");
    vf_assert(!m->held, "mutex is not destroyed while held");
    g_mutexes--;
    ht_free(m);
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_lock(HT_Mutex* m)
{
    vf_assert(m != NULL, "mutex exists when locked");
    vf_assert(!m->held, "a lock that is already held is not taken again");
    m->held = 1;
    g_held++;
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_unlock(HT_Mutex* m)
{
    vf_assert(m != NULL, "mutex exists when unlocked");
    vf_assert(m->held, "only a held lock is released");
    m->held = 0;
    g_held--;
    return HT_ERR_OK;
}
static void locks_released(void) { vf_assert(g_held == 0, "every lock taken is released"); }
#endif
