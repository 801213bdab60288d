/* Task scheduler on the real task list: scheduling, removal, ticks and life cycle of concrete task sets. */
#include "vf.h"
#include "hawktracer/base_types.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/task_scheduler.c"

static uint64_t g_clock;
HT_TimestampNs ht_monotonic_clock_get_timestamp(void)
{
    uint64_t t = vf_u64("clock");
    vf_assume(t >= g_clock && t < ((uint64_t)1 << 62));
    return g_clock = t;
}
static HT_Boolean G_never(void* ud) { (void)ud; vf_assert(0, "no task runs outside a tick"); return HT_TRUE; }

/* scheduling on a list of any length (its entries are opaque) */
void H_schedule(void)
{
    HT_TaskScheduler* s = (HT_TaskScheduler*)malloc(sizeof(HT_TaskScheduler));
    vf_assume(s != NULL);
    s->tasks.min_capacity = 16;
    s->tasks.capacity = vf_range("capacity", 16, VF_BIG, 20);
    size_t n = s->tasks.size = vf_range("size", 0, VF_BIG, 20);
    vf_assume(n <= s->tasks.capacity);
    s->tasks.data = (void**)vf_obj("list", s->tasks.capacity * sizeof(void*));
    vf_heapify(s->tasks.data);
    HT_TaskId id0 = s->next_task_id = (HT_TaskId)vf_range("next", 0, 0x7fffffff, 3);
    size_t w = vf_range("w", 0, VF_BIG, 20);
    void* old = w < n ? s->tasks.data[w] : NULL;
    uint64_t ud = vf_u64("ud");
    HT_DurationNs period = vf_range("period", 0, (uint64_t)1 << 62, 100);
    HT_TaskSchedulingMode mode = vf_bool("mode") ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER;
    HT_TaskCallback cb = vf_bool("nocb") ? NULL : G_never;
    int live = vf_live();
    g_clock = vf_range("now", 0, (uint64_t)1 << 61, 50);
    uint64_t before = g_clock;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_TaskId id = ht_task_scheduler_schedule_task(s, mode, period, cb, (void*)(uintptr_t)ud);
    if (id != HT_TASK_SCHEDULER_INVALID_TASK_ID)
    {
        vf_cover("scheduled");
        HT_Task* t = (HT_Task*)s->tasks.data[n];
        vf_assert(cb != NULL && id0 != 0x7fffffff, "invalid requests are refused");
        vf_assert(id == id0 && s->next_task_id > id, "every task gets an id of its own");
        vf_assert(s->tasks.size == n + 1 && vf_live() == live + 1, "the task is added to the list");
        vf_assert(t->id == id && t->callback == cb && (uint64_t)(uintptr_t)t->user_data == ud && t->period == period && t->mode == mode, "the task is the requested one");
        vf_assert(t->next_action_ts >= before + period && t->next_action_ts <= g_clock + period, "the task is due one period from now");
    }
    else
    {
        vf_cover("refused");
        vf_assert(s->tasks.size == n && vf_live() == live, "a refused request changes nothing and leaks nothing");
        vf_assert(s->next_task_id >= id0, "ids are not reused");
    }
    if (w < n) vf_assert(s->tasks.data[w] == old, "the other tasks stay scheduled");
}
void H_create_destroy(void)
{
    HT_ErrorCode err = (HT_ErrorCode)77;
    int live = vf_live();
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_TaskScheduler* s = ht_task_scheduler_create(vf_bool("noerr") ? NULL : &err);
    vf_assert(err == (HT_ErrorCode)77 || err == (s ? HT_ERR_OK : HT_ERR_OUT_OF_MEMORY), "the outcome is reported");
    if (!s) { vf_cover("oom"); vf_assert(vf_live() == live, "a failed creation leaks nothing"); return; }
    vf_assert(s->tasks.size == 0 && s->next_task_id == 0, "a new scheduler has no tasks");
    vf_unroll(3);
    if (vf_bool("one")) ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 1, G_never, NULL);
    if (vf_bool("two")) ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 2, G_never, NULL);
    ht_task_scheduler_destroy(s);
    vf_cover("post");
    vf_assert(vf_live() == live, "everything is released");
}
/* small task sets, all values */
#define MAXT 4
static HT_TaskScheduler* s;
static HT_Task* T[MAXT];
static size_t n;
static int runs[MAXT], again[MAXT];
static uint64_t due0[MAXT], back[MAXT], firstclock;
static size_t slot_of(HT_Task* t)
{
    size_t k = s->tasks.size;
    for (size_t i = 0; i < s->tasks.size; i++) if (s->tasks.data[i] == (void*)t) k = i;
    return k;
}
static HT_Boolean G_run(void* ud)
{
    size_t i = (size_t)(uintptr_t)ud;
    vf_assert(i < n, "the callback gets the task's user data");
    vf_assert(T[i]->next_action_ts <= g_clock, "only a task that is due runs");
    runs[i]++;
    back[i] = ht_monotonic_clock_get_timestamp();
    return again[i] ? HT_TRUE : HT_FALSE;
}
static void tasks(size_t maxn)
{
    s = (HT_TaskScheduler*)malloc(sizeof(HT_TaskScheduler));
    vf_assume(s != NULL);
    n = vf_range("n", 0, maxn, maxn);
    vf_unroll((int)maxn + 2);
    s->tasks.min_capacity = 16;
    s->tasks.capacity = vf_is_proof() ? 16 : vf_range("capacity", 16, 70, 70);
    s->tasks.size = n;
    s->tasks.data = (void**)malloc(s->tasks.capacity * sizeof(void*));
    vf_assume(s->tasks.data != NULL);
    s->next_task_id = (HT_TaskId)vf_range("next", 4, 0x7fffffff, 6);
    for (size_t i = 0; i < n; i++)
    {
        HT_Task* t = T[i] = (HT_Task*)malloc(sizeof(HT_Task));
        vf_assume(t != NULL);
        t->callback = G_run;
        t->user_data = (void*)(uintptr_t)i;
        t->period = vf_range("period", 0, 1000, 1000);
        t->next_action_ts = due0[i] = vf_range("due", 0, 1000, 1000);
        t->id = (HT_TaskId)i;
        t->mode = vf_bool("ignore") ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER;
        again[i] = vf_bool("again");
        runs[i] = 0;
        s->tasks.data[i] = t;
    }
    g_clock = vf_range("now", 0, 1000, 1000);
}
void B_tick(void)
{
    tasks(vf_is_verifier() ? 3 : MAXT);
    HT_DurationNs period[MAXT];
    for (size_t i = 0; i < n; i++) period[i] = T[i]->period;
    int live = vf_live();
    firstclock = g_clock;
    vf_cover("pre");
    ht_task_scheduler_tick(s);
    vf_cover("post");
    size_t left = 0;
    for (size_t i = 0; i < n; i++)
    {
        vf_assert(runs[i] <= 1, "a task runs at most once per tick");
        if (due0[i] <= firstclock) vf_assert(runs[i] == 1, "every due task runs");
        if (runs[i] == 0 || again[i])
        {
            left++;
            vf_assert(vf_alive(T[i]) && slot_of(T[i]) < s->tasks.size, "a task that did not ask to stop stays scheduled");
            uint64_t nx = T[i]->next_action_ts;
            if (runs[i] == 0) vf_assert(nx == due0[i], "a task that did not run keeps its date");
            else if (T[i]->mode == HT_TASK_SCHEDULING_IGNORE_DELAYS) vf_assert(nx == due0[i] + period[i], "rescheduled one period after the planned time");
            else vf_assert(nx >= back[i] + period[i] && nx <= g_clock + period[i], "rescheduled one period from now");
        }
        else
            vf_assert(!vf_alive(T[i]) && slot_of(T[i]) == s->tasks.size, "a task that asked to stop is removed and released");
    }
    vf_assert(s->tasks.size == left && vf_live() == live - (int)(n - left), "nothing else is removed or released");
}
void B_remove(void)
{
    tasks(MAXT);
    HT_TaskId id = (HT_TaskId)(vf_range("id", 0, 6, 6) - 1);
    int live = vf_live();
    vf_cover("pre");
    HT_Boolean r = ht_task_scheduler_remove_task(s, id);
    vf_cover("post");
    int known = id >= 0 && (size_t)id < n;
    vf_assert((r == HT_TRUE) == known, "removal reports whether the task existed");
    vf_assert(s->tasks.size == n - (size_t)known && vf_live() == live - known, "exactly the given task is removed and released");
    for (size_t i = 0; i < n; i++)
        if ((HT_TaskId)i == id) vf_assert(!vf_alive(T[i]) && slot_of(T[i]) == s->tasks.size, "the given task is gone");
        else vf_assert(vf_alive(T[i]) && slot_of(T[i]) < s->tasks.size && T[i]->next_action_ts == due0[i] && runs[i] == 0, "the other tasks are unaffected");
}
void B_gcd(void)
{
    uint64_t a = vf_range("a", 1, 7, 7), b = vf_range("b", 0, 7, 7), d = vf_range("d", 1, 7, 7);
    if (!vf_is_verifier()) { a = vf_u64("A") >> vf_range("sa", 0, 63, 63); a += a == 0; b = vf_u64("B") >> vf_range("sb", 0, 63, 63); uint64_t m = vf_range("m", 1, 1000, 1000); a = a / m * m; b = b / m * m; a += a == 0; d = m; }
    vf_unroll(8);
    vf_cover("pre");
    uint64_t g = _greatest_common_divisor(a, b);
    vf_cover("post");
    vf_assert(g != 0 && a % g == 0 && b % g == 0, "the result divides both");
    vf_assert(!(a % d == 0 && b % d == 0) || g % d == 0, "every common divisor divides the result");
}
