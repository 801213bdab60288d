/* Serialized events: packed layout, announced size, no byte beyond it.  Each class is checked for all field values and
   all strings by locating every field in its serialized form (one arbitrary byte of each string). */
#include "vf.h"
#include "lib/events.c"
#include "lib/event_utils.c"
HT_EventKlassId ht_registry_register_event_klass(HT_EventKlass* k) { return k->klass_id; }

/* user classes: every field kind, a structure that is not the first field, a two level base chain */
HT_DECLARE_EVENT_KLASS(UserInner, HT_Event, (STRING, const char*, s), (INTEGER, int16_t, v))
HT_DECLARE_EVENT_KLASS(UserAll, HT_CallstackBaseEvent,
    (INTEGER, uint8_t, a), (INTEGER, int32_t, b), (STRING, const char*, s1), (STRUCT, UserInner, inner),
    (INTEGER, int64_t, c), (DOUBLE, double, d), (POINTER, void*, p), (STRING, const char*, s2), (INTEGER, uint16_t, e))
HT_DECLARE_EVENT_KLASS(UserDerived, UserAll, (INTEGER, uint8_t, last))

static const void* g_fp[24]; static size_t g_fn[24]; static int g_fs[24];
static int g_nf;
static size_t g_off;
static void field(const void* p, size_t n, int is_str) { g_fp[g_nf] = p; g_fn[g_nf] = n; g_fs[g_nf++] = is_str; g_off += n; }
static void raw(const void* p, size_t n) { field(p, n, 0); }
static void str(const char* s) { field(s ? s : "", s ? strlen(s) + 1 : 1, 1); }
static const char* any_str(const char* name)
{
    if (vf_bool("null")) return NULL;
    return vf_cstr(name, VF_BIG, 5);
}
static void start(void) { vf_unroll(24); g_off = 0; g_nf = 0; }
static void base(HT_Event* e, HT_EventKlass* k)
{
    e->klass = k; e->timestamp = vf_u64("timestamp"); e->id = vf_u64("id");
    k->klass_id = vf_u32("klass_id");
    raw(&k->klass_id, 4); raw(&e->timestamp, 8); raw(&e->id, 8);
}
static void check(HT_Event* e)
{
    size_t n = e->klass->get_size(e);
    vf_assert(n == g_off, "the announced size is the size of the packed form");
    HT_Byte* out = (HT_Byte*)vf_obj("out", n);
    size_t w = e->klass->serialize(e, out);
    vf_cover("serialized");
    vf_assert(w == n, "exactly the announced number of bytes is written");
    size_t off = 0;
    for (int k = 0; k < g_nf; k++)
    {
        if (g_fs[k])
        {
            size_t j = vf_range("j", 0, VF_BIG, 6);
            if (j < g_fn[k]) { vf_cover("string"); vf_assert(out[off + j] == ((const HT_Byte*)g_fp[k])[j], "strings in declared order, with their terminator, unaltered"); }
        }
        else
            for (size_t j = 0; j < g_fn[k]; j++)
                vf_assert(out[off + j] == ((const HT_Byte*)g_fp[k])[j], "fields in declared order, native byte order, no padding");
        off += g_fn[k];
    }
}
#define INT(x, bits) do { x = vf_u##bits(#x); raw(&x, bits / 8); } while (0)
#define STR(x) do { x = any_str(#x); str(x); } while (0)

void H_event(void) { HT_Event e; start(); base(&e, HT_EVENT_KLASS_GET(HT_Event)); check(&e); }
void H_endianness(void) { HT_EndiannessInfoEvent e; start(); base(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)); INT(e.endianness, 8); check(HT_EVENT(&e)); }
void H_klass_info(void)
{
    HT_EventKlassInfoEvent e; start(); base(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent));
    INT(e.info_klass_id, 32); STR(e.event_klass_name); INT(e.field_count, 8); check(HT_EVENT(&e));
}
void H_field_info(void)
{
    HT_EventKlassFieldInfoEvent e; start(); base(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent));
    INT(e.info_klass_id, 32); STR(e.field_type); STR(e.field_name); INT(e.size, 64); INT(e.data_type, 8); check(HT_EVENT(&e));
}
static void callstack(HT_CallstackBaseEvent* e, HT_EventKlass* k) { base(HT_EVENT(e), k); INT(e->duration, 64); INT(e->thread_id, 32); }
void H_callstack_base(void) { HT_CallstackBaseEvent e; start(); callstack(&e, HT_EVENT_KLASS_GET(HT_CallstackBaseEvent)); check(HT_EVENT(&e)); }
void H_callstack_int(void) { HT_CallstackIntEvent e; start(); callstack(&e.base, HT_EVENT_KLASS_GET(HT_CallstackIntEvent)); INT(e.label, 64); check(HT_EVENT(&e)); }
void H_callstack_string(void) { HT_CallstackStringEvent e; start(); callstack(&e.base, HT_EVENT_KLASS_GET(HT_CallstackStringEvent)); STR(e.label); check(HT_EVENT(&e)); }
void H_string_mapping(void)
{
    HT_StringMappingEvent e; start(); base(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_StringMappingEvent));
    INT(e.identifier, 64); STR(e.label); check(HT_EVENT(&e));
}
void H_system_info(void)
{
    HT_SystemInfoEvent e; start(); base(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_SystemInfoEvent));
    INT(e.version_major, 8); INT(e.version_minor, 8); INT(e.version_patch, 8); check(HT_EVENT(&e));
}
static void user_all(UserAll* e, HT_EventKlass* k)
{
    callstack(&e->base, k);
    INT(e->a, 8); INT(e->b, 32); STR(e->s1);
    base(HT_EVENT(&e->inner), HT_EVENT_KLASS_GET(UserInner)); STR(e->inner.s); INT(e->inner.v, 16);
    INT(e->c, 64);
    uint64_t d = vf_u64("d"); memcpy(&e->d, &d, 8); raw(&e->d, 8);
    e->p = (void*)(uintptr_t)vf_u64("p"); raw(&e->p, 8);
    STR(e->s2); INT(e->e, 16);
}
void H_user_all(void) { UserAll e; start(); user_all(&e, HT_EVENT_KLASS_GET(UserAll)); check(HT_EVENT(&e)); }
void H_user_derived(void) { UserDerived e; start(); user_all(&e.base, HT_EVENT_KLASS_GET(UserDerived)); INT(e.last, 8); check(HT_EVENT(&e)); }
/* the in-memory form is the structure itself */
static HT_EventKlass g_k; static MKCREFLECT_TypeInfo g_ti;
void H_unserialized(void)
{
    g_k.type_info = &g_ti;
    size_t n = g_ti.size = vf_range("n", sizeof(HT_Event), VF_BIG, 60), i = vf_range("i", 0, VF_BIG, 60);
    vf_assume(i < n);
    HT_Event* e = (HT_Event*)vf_obj("e", n);
    HT_Byte* out = (HT_Byte*)vf_obj("out", n);
    e->klass = &g_k;
    size_t w = ht_event_utils_serialize_event_to_buffer(e, out, HT_FALSE);
    vf_cover("post");
    vf_assert(w == n && out[i] == ((HT_Byte*)e)[i], "an event in memory form is copied whole");
}
static size_t g_calls; static HT_Event* g_e; static HT_Byte* g_o;
static size_t G_ser(HT_Event* e, HT_Byte* b) { g_calls++; vf_assert(e == g_e && b == g_o, "serializer called on the event and the buffer"); return 7; }
void H_serialized_form(void)
{
    HT_Event e; HT_Byte o[7];
    g_k.serialize = G_ser; e.klass = &g_k; g_e = &e; g_o = o;
    g_calls = 0;
    int ser = (int)vf_u32("ser");
    vf_assume(ser != 0);
    vf_assert(ht_event_utils_serialize_event_to_buffer(&e, o, ser) == 7 && g_calls == 1, "the class serializer is used once");
    vf_cover("post");
}
