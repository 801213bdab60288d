/* C++ scoped tracepoint: starts once with its label, stops exactly once when the scope is left. */
#include "vf.h"
#include "hawktracer/scoped_tracepoint.h"
static int g_tl, g_open, g_starts, g_stops; static uint64_t g_label; static int g_kind;
static HT_Timeline* const g_timeline = (HT_Timeline*)&g_tl;
extern "C" {
void ht_feature_callstack_start_int(HT_Timeline* t, HT_CallstackEventLabel l) { vf_assert(t == g_timeline, "own timeline"); g_starts++; g_open++; g_label = l; g_kind = 0; }
void ht_feature_callstack_start_string(HT_Timeline* t, const char* l) { vf_assert(t == g_timeline, "own timeline"); g_starts++; g_open++; g_label = (uint64_t)(uintptr_t)l; g_kind = 1; }
void ht_feature_callstack_stop(HT_Timeline* t) { vf_assert(t == g_timeline && g_open > 0, "own timeline"); g_stops++; g_open--; }
}
static int leave(int how, uint64_t l)
{
    HT_TP_SCOPED_INT(g_timeline, l);
    vf_assert(g_starts == 1 && g_open == 1 && g_label == l && g_kind == 0, "open inside the scope with its label");
    if (how) return 1;
    return 0;
}
extern "C" void H_scoped_int(void)
{
    uint64_t l = vf_u64("label");
    vf_cover("pre");
    leave(vf_bool("early"), l);
    vf_assert(g_starts == 1 && g_stops == 1 && g_open == 0, "stopped exactly once when the scope is left");
}
extern "C" void H_scoped_string(void)
{
    uint64_t l = vf_u64("label");
    vf_cover("pre");
    {
        HT_TP_SCOPED_STRING(g_timeline, (const char*)(uintptr_t)l);
        vf_assert(g_starts == 1 && g_open == 1 && g_label == l && g_kind == 1, "open inside the scope with its label");
        { HT_TP_SCOPED_INT(g_timeline, 7); vf_assert(g_starts == 2 && g_open == 2 && g_label == 7, "nested"); }
        vf_assert(g_stops == 1 && g_open == 1, "the inner one stops first");
    }
    vf_assert(g_starts == 2 && g_stops == 2 && g_open == 0, "stopped exactly once when the scope is left");
}
