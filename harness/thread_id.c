/* Thread ids: taken once per thread, in a single atomic step from a counter shared by all threads. */
#include "vf.h"
#include "lib/thread.c"
static vf_step g_log;
/* no-native H_thread_id */
void H_thread_id(void)
{
    vf_shared(&_ht_current_thread_id, sizeof _ht_current_thread_id, &g_log, NULL);
    vf_cover("pre");
    HT_ThreadId a = ht_thread_get_current_thread_id();
    vf_assert(g_log.steps == 1 && (HT_ThreadId)g_log.new_value == (HT_ThreadId)(g_log.old_value + 1), "a thread takes its id in a single atomic step");
    vf_assert(a == (HT_ThreadId)g_log.new_value || a == (HT_ThreadId)g_log.old_value, "no other thread gets the same id");
    vf_assume((HT_ThreadId)g_log.new_value != 0);
    HT_ThreadId b = ht_thread_get_current_thread_id();
    vf_assert(a == b && g_log.steps == 1, "a thread keeps its id");
}
