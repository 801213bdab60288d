/* One tick of the task scheduler over any number of tasks, and the suggested tick period.  The task list is abstract here: reading
   position i yields the task at that position, whatever it is; removing a task may rearrange the positions behind it.  Tasks live in
   one array (one task per reading); memory safety of the real list is decided in scheduler.c and containers.c. */
/* no-native H_tick */
/* no-native H_optimal_period */
#include "vf.h"
#include "hawktracer/base_types.h"
#include "hawktracer/alloc.h"
#include "internal/bag.h"
#include "lib/task_scheduler.c"

#define N VF_BIG
static HT_Task* tasks;            /* task number k is the one read k-th */
static HT_TaskScheduler* s;
static size_t g_read, g_pos, g_removed, g_freed, g_n;   /* tasks read so far; positions settled or under way; removed, freed tasks */
static int g_ticking;
static uint64_t g_clock, g_start, g_started;
/* the task under way */
static uint64_t g_due_at, g_period, g_ud, g_back, g_freed_before, g_removed_before;
static int g_called, g_again, g_mode;

static uint64_t time_passes(void)
{
    uint64_t t = vf_u64("clock");
    vf_assume(t >= g_clock && t < ((uint64_t)1 << 62));
    return g_clock = t;
}
HT_TimestampNs ht_monotonic_clock_get_timestamp(void)
{
    uint64_t t = time_passes();
    if (!g_started) { g_started = 1; g_start = t; }
    return t;
}
static HT_Boolean G_callback(void* ud)
{
    HT_Task* t = &tasks[g_read - 1];
    vf_assert(g_read > 0 && (uint64_t)(uintptr_t)ud == g_ud, "the callback of the task gets the task's user data");
    vf_assert(!g_called, "a task runs at most once per tick");
    vf_assert(g_due_at <= g_clock, "only a task that is due runs");
    vf_assert(t->next_action_ts == g_due_at, "a task is rescheduled after it has run");
    g_called = 1;
    g_again = vf_bool("again");
    g_back = time_passes();
    return g_again ? HT_TRUE : HT_FALSE;
}
static void any_task(size_t i, void* p)
{
    HT_Task* t = &tasks[g_read];
    if (!g_ticking) return;
    vf_assert(i == g_pos, "the tasks are visited one after the other, none twice");
    g_pos = i + 1;
    g_read++;
    t->callback = G_callback;
    g_ud = vf_u64("user_data");
    t->user_data = (void*)(uintptr_t)g_ud;
    t->period = g_period = vf_range("period", 0, (uint64_t)1 << 62, 100);
    t->next_action_ts = g_due_at = vf_range("due", 0, (uint64_t)1 << 62, 100);
    g_mode = vf_bool("ignore");
    t->mode = g_mode ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER;
    g_called = g_again = 0;
    g_freed_before = g_freed; g_removed_before = g_removed;
    *(void**)p = t;
}
void ht_bag_void_ptr_remove_nth(HT_BagVoidPtr* bag, size_t n)
{
    vf_assert(bag == &s->tasks && g_pos > 0 && n == g_pos - 1, "the task that asked to stop is removed from the list");
    vf_assert(g_removed == g_removed_before && g_called && !g_again, "only a task that asked to stop is removed, once");
    g_removed++;
    bag->size--;
    g_pos = n;
    vf_lazy_reset(bag->data);
}
void ht_free(void* p)
{
    vf_assert(g_read > 0 && p == (void*)&tasks[g_read - 1], "the released task is the one that asked to stop");
    vf_assert(g_freed == g_freed_before && g_called && !g_again, "only a task that asked to stop is released, once");
    g_freed++;
}
/* the task read last has been dealt with */
static int SETTLED(void)
{
    HT_Task* t = &tasks[g_read == 0 ? 0 : g_read - 1];
    int ok = vf_and(vf_and(g_clock >= g_back, g_clock < ((uint64_t)1 << 62)), vf_and(g_clock >= g_start, vf_imp(g_read > 0, g_started == 1)));
    int idle = vf_and(vf_and(g_due_at > g_start, t->next_action_ts == g_due_at), vf_and(g_freed == g_freed_before, g_removed == g_removed_before));
    uint64_t nxt = t->next_action_ts;
    int next_ok = vf_ite(g_mode, nxt == g_due_at + g_period, vf_and(nxt >= g_back + g_period, nxt <= g_clock + g_period));
    int again = vf_and(vf_and(g_freed == g_freed_before, g_removed == g_removed_before), vf_and(next_ok, t->period == g_period));
    int gone = vf_and(g_freed == g_freed_before + 1, g_removed == g_removed_before + 1);
    int r = vf_ite(g_called, vf_ite(g_again, again, gone), idle);
    return vf_and(ok, vf_imp(g_read > 0, r));
}
static int SIZES(void) { return vf_and(vf_and(vf_and(s->tasks.size + g_removed == g_n, g_removed <= g_n), g_read == g_pos + g_removed), vf_and(g_pos <= s->tasks.size, g_freed == g_removed)); }

static void scheduler(void)
{
    s = (HT_TaskScheduler*)vf_obj("scheduler", sizeof(HT_TaskScheduler));
    tasks = (HT_Task*)vf_obj("tasks", sizeof(HT_Task) * N * 4);
    g_n = vf_range("n", 0, N, 6);
    s->tasks.capacity = g_n; s->tasks.min_capacity = 16;
    s->tasks.size = g_n;
}
void H_tick(void)
{
    scheduler();
    s->tasks.data = (void**)vf_lazy_("list", g_n, g_n, sizeof(void*), any_task);
    g_ticking = 1;
    g_clock = vf_range("now", 0, (uint64_t)1 << 61, 50);
    g_started = 0; g_start = g_clock; g_back = g_clock;
    vf_inv(SETTLED);
    vf_inv(SIZES);
    vf_cover("pre");
    ht_task_scheduler_tick(s);
    g_ticking = 0;
    vf_cover("post");
    vf_assert(SETTLED() && SIZES(), "the last task is dealt with too");
    vf_assert(g_pos == s->tasks.size, "every task is visited");
}

/* suggested tick period: folds the greatest common divisor (proved separately) over the non-zero periods */
static uint64_t g_acc, g_pending;
static void any_period(size_t i, void* p)
{
    HT_Task* t = &tasks[g_read];
    if (!g_ticking) return;
    vf_assert(i == g_pos, "every task is considered once");
    vf_assert(g_pending == 0, "every period is taken into account");
    g_pos = i + 1;
    g_read++;
    uint64_t per = vf_range("period", 0, (uint64_t)1 << 62, 100);
    t->period = per;
    g_pending = g_acc == 0 ? 0 : per;
    g_acc = g_acc == 0 ? per : g_acc;
    *(void**)p = t;
}
HT_DurationNs C___greatest_common_divisor(HT_DurationNs a, HT_DurationNs b)
{
    vf_assert((a == g_acc && b == g_pending) || (b == g_acc && a == g_pending), "the divisor so far is combined with the period of the task");
    uint64_t g = vf_u64("gcd");
    vf_assume(g != 0 && g <= a && g <= b);
    g_pending = 0;
    g_acc = g;
    return g;
}
static int NOPENDING(void) { return vf_and(g_pending == 0, vf_and(g_pos <= g_n, g_read == g_pos)); }
void H_optimal_period(void)
{
    scheduler();
    s->tasks.data = (void**)vf_lazy_("list", g_n, g_n, sizeof(void*), any_period);
    g_ticking = 1;
    g_acc = g_pending = 0;
    vf_inv(NOPENDING);
    vf_cover("pre");
    HT_DurationNs r = ht_task_scheduler_get_optimal_tick_period(s);
    vf_cover("post");
    vf_assert(g_pending == 0 && g_pos == g_n, "every task is considered");
    vf_assert(r == g_acc, "the result is the greatest common divisor of the non-zero periods");
}
