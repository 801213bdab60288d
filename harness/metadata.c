/* The whole metadata prologue: order of its parts, and (native) decoding it with an independent decoder. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/events.c"
#include "lib/event_utils.c"
#include "lib/system_info.c"
#include "lib/registry.c"
#include "lib/timeline_listener.c"

HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return vf_u64("now"); }
static int g_prov;
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_prov; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return vf_u64("eid"); }
HT_ErrorCode HT_FeatureCachedString_register(void) { return HT_ERR_OK; }
HT_ErrorCode HT_FeatureCallstack_register(void) { return HT_ERR_OK; }
static HT_Mutex g_mtx[3];

/* ------------------------------------------------------------------ order of the parts */
static int g_stage, g_listener;
static HT_Boolean g_ser;
static size_t g_bytes, g_klasses;
static uint32_t u32(const HT_Byte* d) { uint32_t v; memcpy(&v, d, 4); return v; }
static void G_part(TEventPtr d, size_t n, HT_Boolean ser, void* l)
{
    vf_assert(l == (void*)&g_listener && ser == g_ser, "listener and mode passed through");
    vf_assert(g_stage == 0 || g_stage == 2, "only the byte order before and the version after the class descriptions");
    if (g_ser)
    {
        if (g_stage == 0)
        {
            vf_assert(n == 21 && vf_valid(d, n), "size of the byte-order announcement");
            vf_assert(u32(d) == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)->klass_id, "class of the byte-order announcement");
            vf_assert(d[20] == HT_ENDIANNESS_LITTLE, "byte order of this machine");
        }
        else
        {
            vf_assert(n == 23 && vf_valid(d, n), "size of the version announcement");
            vf_assert(d[20] == HT_VERSION_MAJOR && d[21] == HT_VERSION_MINOR && d[22] == HT_VERSION_PATCH, "version of the library");
        }
    }
    else if (g_stage == 0)
    {
        vf_assert(n == sizeof(HT_EndiannessInfoEvent) && vf_valid(d, n), "in-memory size of the byte-order announcement");
        HT_EndiannessInfoEvent e;
        memcpy(&e, d, sizeof e);
        vf_assert(e.base.klass == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent) && e.endianness == HT_ENDIANNESS_LITTLE, "byte order of this machine");
    }
    else
    {
        vf_assert(n == sizeof(HT_SystemInfoEvent) && vf_valid(d, n), "in-memory size of the version announcement");
        HT_SystemInfoEvent e;
        memcpy(&e, d, sizeof e);
        vf_assert(e.base.klass == HT_EVENT_KLASS_GET(HT_SystemInfoEvent), "class of the version announcement");
        vf_assert(e.version_major == HT_VERSION_MAJOR && e.version_minor == HT_VERSION_MINOR && e.version_patch == HT_VERSION_PATCH, "version of the library");
    }
    g_stage++;
    g_bytes += n;
}
size_t C__ht_registry_push_registry_klasses_to_listener(HT_TimelineListenerCallback cb, void* l, HT_Boolean ser)
{
    vf_assert(l == (void*)&g_listener && ser == g_ser && cb == G_part, "listener and mode passed through");
    vf_assert(g_stage == 1, "the byte order is announced first, once");
    g_stage = 2;
    g_bytes += g_klasses;
    return g_klasses;
}
void H_metadata_order(void)
{
    g_ser = vf_bool("serialize");
    g_stage = 0; g_bytes = 0;
    vf_assume(ht_registry_init() == HT_ERR_OK);
    ht_HT_EndiannessInfoEvent_register_event_klass();
    ht_HT_SystemInfoEvent_register_event_klass();
    g_klasses = vf_range("bytes of the class descriptions", 0, VF_BIG, 100);
    vf_cover("pre");
    size_t n = ht_timeline_listener_push_metadata(G_part, &g_listener, g_ser);
    vf_cover("post");
    vf_assert(g_stage == 3, "byte order, classes and version are all announced");
    vf_assert(n == g_bytes, "the returned count is the number of bytes delivered");
}
/* no-native H_metadata_order */

/* ------------------------------------------------------------------ decoding what was delivered (native runs only) */
static HT_Byte* g_s; static size_t g_n, g_pos;
static void G_all(TEventPtr d, size_t n, HT_Boolean ser, void* l)
{
    vf_assert(n > 0 && ser == HT_TRUE && l == (void*)&g_listener, "batch");
    g_s = (HT_Byte*)realloc(g_s, g_n + n);
    memcpy(g_s + g_n, d, n);
    g_n += n;
}
static uint64_t num(int w)
{
    uint64_t v = 0;
    vf_assert(g_pos + w <= g_n, "the metadata contains all fields");
    memcpy(&v, g_s + g_pos, w);
    g_pos += w;
    return v;
}
static int text(const char* t)
{
    size_t l = strlen(t) + 1;
    int ok = g_pos + l <= g_n && !memcmp(g_s + g_pos, t, l);
    g_pos += l;
    return ok;
}
static size_t G_none_size(HT_Event* e) { (void)e; return 20; }
void N_metadata_decode(void)
{
    static HT_EventKlass k[12];
    static MKCREFLECT_TypeInfo t[12];
    static MKCREFLECT_FieldInfo f[12][256];
    vf_assume(ht_registry_init() == HT_ERR_OK);
    ht_HT_EventKlassInfoEvent_register_event_klass();
    ht_HT_EventKlassFieldInfoEvent_register_event_klass();
    ht_HT_EndiannessInfoEvent_register_event_klass();
    ht_HT_SystemInfoEvent_register_event_klass();
    size_t n = vf_range("classes", 0, 12, 12), i, j;
    for (i = 0; i < n; i++)
    {
        memset(&k[i], 0, sizeof k[i]);
        k[i].klass_id = HT_INVALID_KLASS_ID; k[i].type_info = &t[i]; k[i].get_size = G_none_size;
        t[i].name = vf_cstr("name", 9000, vf_bool("long") ? 9000 : 12);
        t[i].fields_count = vf_range("fields", 0, 255, vf_bool("many") ? 255 : 3);
        t[i].fields = f[i];
        t[i].size = vf_u8("size");
        for (j = 0; j < t[i].fields_count; j++)
        {
            f[i][j].field_name = vf_cstr("fname", 5000, vf_bool("long field") ? 300 : 5);
            f[i][j].field_type = vf_cstr("ftype", 5000, 5);
            f[i][j].size = vf_u64("fsize"); f[i][j].is_signed = vf_bool("signed");
            f[i][j].data_type = (MKCREFLECT_Types)vf_range("kind", 1, 6, 6);
        }
        ht_registry_register_event_klass(&k[i]);
    }
    size_t count; HT_EventKlass** all = ht_registry_get_event_klasses(&count);
    g_s = NULL; g_n = g_pos = 0;
    size_t total = ht_timeline_listener_push_metadata(G_all, &g_listener, HT_TRUE);
    vf_assert(total == g_n, "the returned count is the number of bytes delivered");
    vf_assert(num(4) == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)->klass_id, "the byte order is announced first");
    num(16);
    vf_assert(num(1) == HT_ENDIANNESS_LITTLE, "byte order");
    for (i = 0; i < count; i++)
    {
        MKCREFLECT_TypeInfo* ti = all[i]->type_info;
        vf_assert(num(4) == HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent)->klass_id, "a class description");
        num(16);
        vf_assert(num(4) == i, "id of the class");
        vf_assert(text(ti->name), "name of the class");
        vf_assert(num(1) == ti->fields_count, "number of fields");
        for (j = 0; j < ti->fields_count; j++)
        {
            vf_assert(num(4) == HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent)->klass_id, "a field description");
            num(16);
            vf_assert(num(4) == i, "class of the field");
            vf_assert(text(ti->fields[j].field_type), "type name");
            vf_assert(text(ti->fields[j].field_name), "field name");
            vf_assert(num(8) == ti->fields[j].size, "size of the field");
            vf_assert(num(1) == (ti->fields[j].data_type == MKCREFLECT_TYPES_INTEGER && !ti->fields[j].is_signed ? 99 : ti->fields[j].data_type), "kind of the field");
        }
    }
    vf_assert(num(4) == HT_EVENT_KLASS_GET(HT_SystemInfoEvent)->klass_id, "the version is announced last");
    num(16);
    vf_assert(num(1) == HT_VERSION_MAJOR, "major"); vf_assert(num(1) == HT_VERSION_MINOR, "minor"); vf_assert(num(1) == HT_VERSION_PATCH, "patch");
    vf_assert(g_pos == g_n, "nothing else is announced");
    free(g_s);
    ht_registry_deinit();
}
