/* Metadata prologue: one description per class and field, in order, delivered byte for byte. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/events.c"
#include "lib/event_utils.c"
#include "lib/system_info.c"
#include "lib/registry.c"
#include "lib/timeline_listener.c"

HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return vf_u64("now"); }
static int g_prov;
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_prov; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return vf_u64("eid"); }
HT_ErrorCode HT_FeatureCachedString_register(void) { return HT_ERR_OK; }
HT_ErrorCode HT_FeatureCallstack_register(void) { return HT_ERR_OK; }
static HT_Mutex g_mtx;

static size_t g_i, g_j, g_fc;        /* classes described so far; fields of the last one described so far / expected */
static size_t g_in, g_out;           /* bytes serialized / delivered */
static size_t g_idx; static uint8_t g_val; static int g_bad;   /* watched byte of the stream */
static HT_Boolean g_ser;
static HT_Event* g_ev; static size_t g_evsize;     /* size announced for the event being prepared */
static int g_listener, g_count;

/* a description event of any content */
static size_t announce(HT_Event* e)
{
    if (g_ev != e) { g_ev = e; g_evsize = vf_range("evsize", 1, VF_BIG, 5000); }
    return g_evsize;
}
static size_t deliver(HT_Event* e, HT_Byte* b)
{
    size_t n = announce(e);
    vf_assert(vf_valid(b, n), "an event is serialized into memory that has room for it");
    vf_havoc(b, n);
    g_val = vf_ite(vf_and(g_idx >= g_in, g_idx - g_in < n), vf_peek(b, g_idx - g_in, n), g_val);
    g_in += n;
    g_ev = NULL;
    return n;
}
static void info(HT_Event* e)
{
    HT_EventKlassInfoEvent* x = (HT_EventKlassInfoEvent*)e;
    vf_assert(g_j == g_fc, "all fields of a class are described before the next class");
    vf_assert(g_i < event_klass_register.size, "no class is described twice");
    HT_EventKlass* k = ((HT_EventKlass**)event_klass_register.data)[g_i];
    vf_assert(x->info_klass_id == k->klass_id, "classes are described in registration order, with their id");
    vf_assert(x->event_klass_name == k->type_info->name, "true class name");
    vf_assert(x->field_count == k->type_info->fields_count, "true field count");
    g_i++; g_j = 0; g_fc = k->type_info->fields_count;
}
static void field(HT_Event* e)
{
    HT_EventKlassFieldInfoEvent* x = (HT_EventKlassFieldInfoEvent*)e;
    vf_assert(g_j < g_fc, "a field description follows its class description");
    HT_EventKlass* k = ((HT_EventKlass**)event_klass_register.data)[g_i - 1];
    MKCREFLECT_FieldInfo* f = &k->type_info->fields[g_j];
    vf_assert(x->info_klass_id == k->klass_id, "field described under its class");
    vf_assert(x->field_name == f->field_name && x->field_type == f->field_type && x->size == f->size, "true field name, type and size");
    vf_assert(x->data_type == (f->data_type == MKCREFLECT_TYPES_INTEGER && !f->is_signed ? 99 : (int)f->data_type), "true data kind, unsigned integers marked");
    g_j++;
}
static void G_cb(TEventPtr d, size_t n, HT_Boolean ser, void* l)
{
    vf_assert(l == (void*)&g_listener && ser == g_ser, "listener and mode passed through");
    vf_assert(n > 0, "no empty batch");
    vf_assert(vf_valid(d, n), "the delivered range is readable memory");
    g_bad |= vf_and(vf_and(g_idx >= g_out, g_idx - g_out < n), vf_peek(d, g_idx - g_out, n) != g_val);
    g_out += n;
    g_count++;
}
/* what is pending in the buffer is exactly what was serialized and not delivered */
static int pending_ok(HT_Byte* data, size_t pos)
{
    return vf_and(vf_and(g_bad == 0, g_out <= g_in), vf_and(g_in - g_out == pos, pos <= REGISTRY_LISETNER_BUFF_SIZE)) &
        vf_imp(vf_and(g_idx >= g_out, g_idx < g_in), vf_peek(data, g_idx - g_out, REGISTRY_LISETNER_BUFF_SIZE) == g_val);
}

/* ------------------------------------------------------------------ one event */
size_t C__ht_HT_EventKlassInfoEvent_get_size(HT_Event* e) { return announce(e); }
size_t C__ht_HT_EventKlassFieldInfoEvent_get_size(HT_Event* e) { return announce(e); }
size_t C__ht_HT_EventKlassInfoEvent_fnc_serialize(HT_Event* e, HT_Byte* b) { return deliver(e, b); }
size_t C__ht_HT_EventKlassFieldInfoEvent_fnc_serialize(HT_Event* e, HT_Byte* b) { return deliver(e, b); }
static size_t G_size(HT_Event* e) { return announce(e); }
static size_t G_serialize(HT_Event* e, HT_Byte* b) { return deliver(e, b); }
static MKCREFLECT_TypeInfo g_type;
static HT_EventKlass g_klass;
void H_push_event(void)
{
    g_ser = vf_bool("serialize");
    HT_Byte* data = (HT_Byte*)vf_obj("data", REGISTRY_LISETNER_BUFF_SIZE);
    size_t pos = vf_range("pos", 0, REGISTRY_LISETNER_BUFF_SIZE, 4096);
    g_idx = vf_range("idx", 0, VF_BIG * 4, 10000);
    g_out = vf_range("out", 0, VF_BIG, 10);
    g_in = g_out + pos; g_bad = 0; g_ev = NULL;
    g_val = vf_u8("val");
    vf_assume(vf_imp(vf_and(g_idx >= g_out, g_idx < g_in), vf_peek(data, g_idx - g_out, REGISTRY_LISETNER_BUFF_SIZE) == g_val));
    size_t esize = vf_range("event size", sizeof(HT_Event), VF_BIG, 5000), in0 = g_in, out0 = g_out;
    HT_Event* e = (HT_Event*)vf_obj("event", esize);
    g_klass.type_info = &g_type;
    g_klass.get_size = G_size; g_klass.serialize = G_serialize;
    g_type.size = esize;
    e->klass = &g_klass;
    if (!g_ser) g_val = vf_ite(vf_and(g_idx >= g_in, g_idx - g_in < esize), vf_peek(e, g_idx - g_in, esize), g_val);
    vf_malloc_may_fail(1);
    vf_cover("pre");
    size_t total = _ht_registry_push_event_to_listener(e, data, &pos, G_cb, &g_listener, g_ser);
    if (!g_ser) g_in += (g_out > in0 && g_out - in0 == esize) || (pos + g_out == in0 + esize) ? esize : 0;
    vf_cover("post");
    if (g_in > in0) vf_cover("pushed"); else vf_cover("dropped");
    vf_assert(!g_bad, "delivered bytes are the serialized bytes in order");
    vf_assert(pending_ok(data, pos), "what is not delivered is pending");
    vf_assert(total == g_out - out0, "the returned count is the number of bytes delivered");
    vf_assert(g_in > in0 || vf_live() == 0, "an event is only dropped when there is no memory for it");
    vf_assert(vf_live() == 0, "the temporary buffer is released");
}
/* its contract */
static int g_seq;
size_t C___ht_registry_push_event_to_listener(HT_Event* e, HT_Byte* data, size_t* pos, HT_TimelineListenerCallback cb, void* listener, HT_Boolean ser)
{
    vf_assert(listener == (void*)&g_listener && ser == g_ser && cb == G_cb, "listener and mode passed through");
    if (e->klass == HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent)) { if (g_seq) info(e); }
    else
    {
        vf_assert(e->klass == HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent), "class of the description");
        if (g_seq) field(e);
    }
    if (g_seq) return vf_u64("r");
    /* the content of the buffer between two calls is only written here (H_push_event states what is written) */
    vf_assert(vf_valid(data, REGISTRY_LISETNER_BUFF_SIZE), "the buffer has room");
    vf_assert(*pos == g_in - g_out, "the fill level is what was serialized and not delivered");
    size_t n = vf_range("evsize", 0, VF_BIG, 5000), p = vf_range("newpos", 0, REGISTRY_LISETNER_BUFF_SIZE, 4096), out0 = g_out;
    vf_assume(p <= *pos + n);
    vf_assume(g_in + n <= VF_BIG);      /* the metadata is smaller than a terabyte */
    vf_havoc(data, REGISTRY_LISETNER_BUFF_SIZE);
    g_in += n; g_out = g_in - p; *pos = p;
    return g_out - out0;
}

/* ------------------------------------------------------------------ all classes */
static void any_field(size_t i, void* p)
{
    MKCREFLECT_FieldInfo* f = (MKCREFLECT_FieldInfo*)p;
    (void)i;
    f->field_type = (const char*)(uintptr_t)vf_u64("ftype");
    f->field_name = (const char*)(uintptr_t)vf_u64("fname");
    f->size = vf_u64("fsize"); f->offset = vf_u64("foffset");
    f->is_signed = vf_u8("fsigned"); f->array_size = -1; f->data_type = (MKCREFLECT_Types)vf_range("fdt", 1, 6, 6);
}
static void any_described_klass(size_t i, void* p)
{
    HT_EventKlass* k = (HT_EventKlass*)vf_obj("klass", sizeof(HT_EventKlass));
    MKCREFLECT_TypeInfo* t = (MKCREFLECT_TypeInfo*)vf_obj("type_info", sizeof(MKCREFLECT_TypeInfo));
    k->klass_id = (HT_EventKlassId)i;
    k->type_info = t;
    t->name = (const char*)(uintptr_t)vf_u64("kname");
    t->fields_count = vf_range("nfields", 0, 255, 3);
    t->fields = (MKCREFLECT_FieldInfo*)vf_lazy("fields", t->fields_count, t->fields_count, sizeof(MKCREFLECT_FieldInfo), any_field);
    *(HT_EventKlass**)p = k;
}
static int INV_seq(void) { return vf_and(vf_and(g_j <= g_fc, g_i <= event_klass_register.size), g_ev == NULL); }
static int INV_bytes(void)
{
    return vf_and(vf_and(g_bad == 0, g_in <= VF_BIG), vf_and(g_out <= g_in, g_in - g_out <= REGISTRY_LISETNER_BUFF_SIZE));
}
static uint64_t PENDING(void) { return g_in - g_out; }
static void setup(void)
{
    event_klass_registry_register_mutex = &g_mtx;
    g_mtx.held = 0; g_held = 0;
    g_ser = HT_TRUE;
    event_klass_register.size = vf_range("size", 0, VF_BIG, 3);
    event_klass_register.data = (void**)vf_lazy("data", event_klass_register.size, event_klass_register.size, sizeof(void*), any_described_klass);
    vf_guard(&event_klass_register.size, sizeof(size_t), &g_mtx.held);
    g_i = g_j = g_fc = g_in = g_out = 0; g_bad = 0; g_ev = NULL;
}
void H_metadata_sequence(void)
{
    setup();
    g_seq = 1;
    vf_inv(INV_seq);
    vf_cover("pre");
    ht_registry_push_registry_klasses_to_listener(G_cb, &g_listener, g_ser);
    vf_cover("post");
    vf_assert(g_i == event_klass_register.size && g_j == g_fc, "every class and field is described");
    locks_released();
}
void H_metadata_bytes(void)
{
    setup();
    g_seq = 0;
    g_idx = VF_BIG * 1000;
    vf_inv(INV_bytes);
    vf_term(PENDING);
    vf_cover("pre");
    size_t total = ht_registry_push_registry_klasses_to_listener(G_cb, &g_listener, g_ser);
    vf_cover("post");
    vf_assert(g_out == g_in, "everything serialized is delivered");
    vf_assert(total == g_out, "the returned count is the number of bytes delivered");
    locks_released();
}
/* no-native H_metadata_sequence */
/* no-native H_metadata_bytes */
