/* Decoding of event streams: events of any class, nested structures, the decoding loop, delivery, completion. */
#define VF_STRING_ID
#include "env_cpp.h"
#include <string>
#include <memory>
#include <vector>
#include <exception>
#include <stdexcept>
#define private public
#include "parser/protocol_reader.cpp"
using namespace HawkTracer::parser;
typedef ProtocolReader Reader;
typedef std::shared_ptr<EventKlassField> FieldPtr;
typedef std::shared_ptr<const EventKlass> KlassPtr;

enum { HT_EVENT = 1, BASE, TIMESTAMP, KLASS_ID, ENDIANNESS, OTHER };
static void* g_cv_mutex; static int g_locked, g_in_wait;
static Reader* g_reader;
static int g_notified, g_notify_early, g_start_fails;
extern "C" {
uint64_t vf_string_id(const char* s)
{
    return strcmp(s, "HT_Event") == 0 ? HT_EVENT : strcmp(s, "base") == 0 ? BASE : strcmp(s, "timestamp") == 0 ? TIMESTAMP
         : strcmp(s, "klass_id") == 0 ? KLASS_ID : strcmp(s, "endianness") == 0 ? ENDIANNESS : OTHER;
}
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { vf_assert(!g_locked, "the lock is not held already"); g_locked = 1; return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
static int g_decoded, g_recorded;
void vf_mutex_unlock(void* m) { vf_assert(g_locked, "the lock is held"); g_locked = 0; if (g_decoded && !*(bool*)&g_reader->_is_running) g_recorded = 1; }
int vf_map_other_key(void) { return vf_bool("other key"); }
static void* (*g_thread)(void*); static void* g_thread_arg; static int g_threads, g_joins;
static int g_running_at_start;
void* vf_thread_start(void* (*f)(void*), void* arg) { g_thread = f; g_thread_arg = arg; g_threads++; g_running_at_start = g_reader->_is_running; return (void*)1; }
static int g_joined_running;
void vf_thread_join(void* h) { g_joins++; g_joined_running = g_reader->_is_running; }
void vf_thread_lost(void* h) { vf_assert(0, "a running thread is never abandoned"); }
static int g_waits, g_max_waits;
void vf_cv_wait(void* cv, void* m)
{
    vf_assert(g_locked && m == (void*)&g_reader->_mtx_cv && cv == (void*)&g_reader->_cv, "waiting happens under the lock");
    if (vf_bool("finished")) g_reader->_is_running = false;
}
void vf_cv_notify(void* cv, int all)
{
    vf_assert(cv == (void*)&g_reader->_cv, "the waiters for completion are woken");
    vf_assert(!g_reader->_is_running, "waiters are woken after the end has been recorded");
    if (all) g_notified = 1;
}
}

static Reader* any_reader(void)
{
    Reader* r = (Reader*)vf_raw("reader", sizeof(Reader));
    r->_klass_register = (KlassRegister*)vf_raw("register", 8);
    r->_flat_events = vf_bool("flat");
    r->_base_event_pending = vf_bool("header pending");
    r->_struct_depth = vf_range("depth", 0, 64, 64);
    *(int*)&r->_endianness = vf_range("endianness", 0, 1, 1);
    *(bool*)&r->_is_running = true;
    *(void**)&r->_thread = NULL;
    g_reader = r;
    return r;
}
static Event* any_event(const void* klass)
{
    Event* e = (Event*)vf_raw("event", sizeof(Event));
    memset((void*)e, 0, sizeof(Event));
    e->_timestamp = vf_u64("timestamp");
    *(const void**)&e->_klass = klass;
    return e;
}
static EventKlassField* new_field(uint64_t name, uint64_t type_name, int type)
{
    EventKlassField* f = (EventKlassField*)vf_raw("field", sizeof(EventKlassField));
    *(uint64_t*)&f->_name = name;
    *(uint64_t*)&f->_type_name = type_name;
    *(void**)&f->_klass = NULL;
    *(int*)&f->_type_id = type;
    return f;
}

/* ---------------------------------------------------------------- the fields of one event */
static uint64_t g_nfields, g_w;
static FieldPtr* g_fields;
static EventKlassField* g_wfield; static int g_wtype;
static Event *g_event, *g_base;
static uint64_t g_reads, g_failed, g_wreads, g_wstores, g_wval;
static int g_flat;
static void any_field(size_t i, void* p)
{
    int t = vf_range("type", 0, (int)FieldTypeId::STRUCT, 10);
    *(EventKlassField**)p = i == g_w ? g_wfield : new_field(vf_u64("field name"), vf_u64("type name"), t);
}
static bool read_one(const EventKlassField* f, FieldType* v, int structure)
{
    vf_assert(!g_failed, "nothing is read after an error");
    int watched = 0;
    if (f == g_wfield)
    {
        vf_assert(g_reads == g_w, "fields are read in the order of the class");
        g_wreads++;
        watched = 1;
    }
    if (vf_bool("read fails")) { g_failed = 1; return false; }
    g_reads++;
    v->f_UINT64 = watched ? g_wval : vf_u64("value");
    return true;
}
extern "C" {
std::vector<FieldPtr> C___ZNK10HawkTracer6parser10EventKlass10get_fieldsEv(const EventKlass* k)
{
    std::vector<FieldPtr> v;
    v._b = g_fields;
    v._n = g_nfields;
    v._c = g_nfields;
    return v;
}
bool C___ZN10HawkTracer6parser14ProtocolReader13_read_numericERNS0_9FieldTypeERKNS0_15EventKlassFieldE(Reader* r, FieldType* v, const EventKlassField* f)
{
    vf_assert((int)f->_type_id <= (int)FieldTypeId::POINTER, "only numbers are read as numbers");
    return read_one(f, v, 0);
}
bool C___ZN10HawkTracer6parser14ProtocolReader12_read_stringERNS0_9FieldTypeE(Reader* r, FieldType* v)
{
    return read_one(g_reads == g_w ? g_wfield : NULL, v, 0);
}
bool C___ZN10HawkTracer6parser14ProtocolReader12_read_structERNS0_9FieldTypeERKNS0_15EventKlassFieldEPNS0_5EventES8_(Reader* r, FieldType* v, const EventKlassField* f, Event* e, Event* b)
{
    vf_assert((int)f->_type_id == (int)FieldTypeId::STRUCT, "only structures are read as structures");
    vf_assert(vf_and(e == g_event, b == g_base), "structures belong to the event being read");
    return read_one(f, v, 1);
}
void C___ZN10HawkTracer6parser5Event9set_valueEPKNS0_15EventKlassFieldENS0_9FieldTypeE(Event* e, const EventKlassField* f, FieldType v)
{
    vf_assert(e == g_event, "values are stored in the event being read");
    if (g_flat) vf_assert((int)f->_type_id != (int)FieldTypeId::STRUCT, "flat events hold no structures");
    if (f == g_wfield)
    {
        vf_assert(vf_and(g_wreads == 1, g_reads == g_w + 1), "a value is stored after it has been read");
        vf_assert(v.f_UINT64 == g_wval, "the value stored is the value read");
        g_wstores++;
    }
}
void C___ZdlPv(void* p) {}
void H_read_event(void)
{
    Reader* r = any_reader();
    g_flat = r->_flat_events;
    g_w = vf_u64("watched field");
    g_nfields = vf_range("fields", 0, VF_BIG, 4);
    vf_assume(g_w < g_nfields);
    g_wtype = vf_range("type", 0, (int)FieldTypeId::STRUCT, 10);
    g_wfield = new_field(vf_u64("name"), vf_u64("type name"), g_wtype);
    g_wval = vf_u64("value");
    g_fields = (FieldPtr*)vf_lazy("fields", g_nfields, g_nfields, sizeof(FieldPtr), any_field);
    EventKlass* k = (EventKlass*)vf_raw("class", sizeof(EventKlass));
    g_event = any_event(k);
    g_base = any_event(NULL);
    vf_watch(g_w * sizeof(FieldPtr));
    vf_watch(g_w);
    bool err = vf_bool("old error");
    vf_cover("pre");
    r->_read_event(err, *g_event, g_base);
    vf_assert(err == (g_failed != 0), "an error is reported exactly when a field can not be read");
    if (!err)
    {
        vf_cover("complete");
        vf_assert(g_reads == g_nfields, "every field of the class is read");
        vf_assert(g_wreads == 1, "every field of the class is read once");
        vf_assert(g_wstores == (g_flat && g_wtype == (int)FieldTypeId::STRUCT ? 0 : 1), "every value is stored once");
    }
    else vf_cover("failed");
}
}
/* ---------------------------------------------------------------- nested structures */
static KlassPtr* g_found; static const EventKlass* g_known; static uint64_t g_asked; static int g_lookups, g_sub_reads, g_sub_err, g_merges;
static unsigned g_depth; static Reader* g_r; static uint64_t g_sub_ts; static Event* g_sub; static int g_destroyed; static uint64_t g_destroyed_ts;
static int g_deeper, g_read_mode;
extern "C" {
KlassPtr C___ZNK10HawkTracer6parser13KlassRegister9get_klassERKSt6string(const KlassRegister* k, const std::string* name)
{
    g_lookups++;
    g_asked = name->_id;
    KlassPtr p;
    p._p = g_known;
    return p;
}
static int read_sub(Reader* r, bool* err, Event* e, Event* b)
{
    vf_assert(r->_struct_depth >= 1 && r->_struct_depth <= 64, "the nesting of structures is bounded");
    vf_assert(e->_klass._p == g_known && g_known, "a structure is read with its own class");
    vf_assert(r->_struct_depth == g_depth + 1, "the nesting is counted");
    g_sub_reads++;
    e->_timestamp = g_sub_ts;
    *err = g_sub_err;
    return 0;
}
static int decode_read(Reader* r, bool* err, Event* e, Event* b);
void C___ZN10HawkTracer6parser14ProtocolReader11_read_eventERbRNS0_5EventEPS3_(Reader* r, bool* err, Event* e, Event* b)
{
    if (g_read_mode) decode_read(r, err, e, b);
    else read_sub(r, err, e, b);
}
static void decode_merge(Event* e, Event* o);
void C___ZN10HawkTracer6parser5Event5mergeES1_(Event* e, Event* o)
{
    if (g_read_mode) { decode_merge(e, o); return; }
    vf_assert(e == g_event && o->_timestamp == g_sub_ts && o->_klass._p == g_known, "the fields of the structure are added to the event");
    g_merges++;
}
void C___ZN10HawkTracer6parser5EventD1Ev(Event* e) {}
void C___ZN10HawkTracer6parser5EventD2Ev(Event* e) {}
void H_read_struct(void)
{
    Reader* r = any_reader();
    g_r = r;
    g_flat = r->_flat_events;
    g_depth = r->_struct_depth;
    int pending = r->_base_event_pending;
    EventKlassField* f = new_field(vf_u64("name"), vf_u64("type name"), (int)FieldTypeId::STRUCT);
    uint64_t name = *(uint64_t*)&f->_name, type = *(uint64_t*)&f->_type_name, base_ts;
    g_event = any_event(vf_raw("class", 8));
    g_base = g_flat ? NULL : any_event(vf_raw("base class", 8));
    base_ts = g_flat ? 0 : g_base->_timestamp;
    const void* base_klass = g_flat ? NULL : g_base->_klass._p;
    g_known = vf_bool("known") ? (const EventKlass*)vf_raw("class of the structure", 8) : NULL;
    g_sub_ts = vf_u64("value of the structure");
    g_sub_err = vf_bool("structure incomplete");
    FieldType v{};
    vf_malloc_may_fail(0);
    vf_cover("pre");
    bool ok = r->_read_struct(v, *f, g_event, g_base);
    vf_assert(r->_struct_depth == g_depth, "the nesting is restored");
    if (pending && type == HT_EVENT && name == BASE)
    {
        vf_cover("header");
        vf_assert(ok && g_sub_reads == 0 && !r->_base_event_pending, "the header of the event is not read twice");
        if (!g_flat)
        {
            vf_assert(v.f_EVENT && v.f_EVENT != g_base && v.f_EVENT->_timestamp == base_ts && v.f_EVENT->_klass._p == base_klass, "the header becomes the value of the field");
        }
        vf_assert(g_merges == 0, "the header of a flat event is added by the caller");
    }
    else
    {
        vf_assert(r->_base_event_pending == pending, "only the header of the event itself counts as read");
        if (!g_known || g_depth == 64)
        {
            vf_cover("refused");
            vf_assert(!ok && g_sub_reads == 0, "structures of unknown classes and endless nestings are refused");
            if (g_lookups) vf_assert(g_asked == type, "the class of a structure is found by the type of the field");
        }
        else
        {
            vf_assert(g_asked == type, "the class of a structure is found by the type of the field");
            vf_assert(g_sub_reads == 1 && ok == !g_sub_err, "a structure is read once, and its failure is reported");
            if (ok && g_flat)
            {
                vf_cover("flat");
                vf_assert(g_merges == (type == HT_EVENT ? 0 : 1), "the fields of a structure are added once, nested headers are not");
            }
            else if (ok)
            {
                vf_cover("nested");
                vf_assert(v.f_EVENT && v.f_EVENT->_timestamp == g_sub_ts && v.f_EVENT->_klass._p == g_known && g_merges == 0, "the structure becomes the value of the field");
            }
            else
            {
                vf_cover("incomplete");
                vf_assert(v.f_EVENT == NULL && g_merges == 0, "an incomplete structure is not used");
            }
        }
    }
}
/* ---------------------------------------------------------------- the decoding loop */
enum { IDLE, HEADER, BODY, MERGED, ENDED };
static int g_phase; static uint32_t g_kid; static uint64_t g_header_ts, g_body_ts; static uint8_t g_endian; static uint64_t g_delivered;
static EventKlass *g_header_klass, *g_body_klass; static int g_unknown, g_looked_up;
static void maybe_stopped(Reader* r) { *(bool*)&r->_is_running = (*(bool*)&r->_is_running) & (vf_u8("stopped") & 1); }
static int decode_read(Reader* r, bool* err, Event* e, Event* b)
{
    int fails = vf_bool("read fails");
    if (g_phase == IDLE)
    {
        vf_assert(e->_klass._p == g_header_klass && b == NULL, "an event starts with its header");
        g_header_ts = vf_u64("header");
        e->_timestamp = g_header_ts;
        g_kid = vf_u32("class id");
        g_phase = fails ? ENDED : HEADER;
    }
    else
    {
        vf_assert(g_phase == HEADER, "the body follows the header, nothing is read after an error");
        vf_assert(g_kid != 1, "an event that is only a header has no body");
        vf_assert(e->_klass._p == g_body_klass && g_looked_up, "the body is read with the class of the header");
        vf_assert(r->_base_event_pending, "the header that has been read is the one of the body");
        if (r->_flat_events) vf_assert(b == NULL, "flat events have no nested header");
        else vf_assert(b && b->_timestamp == g_header_ts && b->_klass._p == g_header_klass, "the header that has been read is the one of the body");
        g_body_ts = vf_u64("body");
        e->_timestamp = g_body_ts;
        r->_base_event_pending = vf_bool("header not used");
        g_phase = fails ? ENDED : BODY;
    }
    maybe_stopped(r);
    *err = fails;
    return 0;
}
static void decode_merge(Event* e, Event* o)
{
    vf_assert(g_phase == BODY || g_phase == ENDED, "the header is added after the body");
    vf_assert(g_reader->_flat_events, "only flat events get the fields of the header");
    vf_assert(o->_timestamp == g_header_ts && o->_klass._p == g_header_klass && e->_timestamp == g_body_ts, "the header is added to its event");
    if (g_phase == BODY) g_phase = MERGED;
}
uint32_t C___ZNK10HawkTracer6parser5Event9get_valueIjEET_RKSt6string(const Event* e, const std::string* name)
{
    vf_assert(g_phase != IDLE && g_phase != ENDED, "nothing is taken from an event that is incomplete");
    vf_assert(name->_id == KLASS_ID && e->_timestamp == g_header_ts && e->_klass._p == g_header_klass, "the class is named by the header");
    return g_kid;
}
uint8_t C___ZNK10HawkTracer6parser5Event9get_valueIhEET_RKSt6string(const Event* e, const std::string* name)
{
    vf_assert(name->_id == ENDIANNESS && g_kid == 0 && e->_timestamp == g_body_ts && (g_phase == BODY || g_phase == MERGED), "the byte order is named by its announcement");
    g_endian = vf_u8("announced byte order") & 1;
    return g_endian;
}
KlassPtr C___ZNK10HawkTracer6parser13KlassRegister9get_klassEj(const KlassRegister* k, uint32_t id)
{
    KlassPtr p;
    if (g_phase == IDLE)
    {
        vf_assert(id == 1, "an event starts with its header");
        p._p = g_header_klass;
        return p;
    }
    vf_assert(g_phase == HEADER && id == g_kid, "the class of an event is the one its header names");
    g_looked_up = 1;
    if (vf_bool("unknown class")) { g_phase = ENDED; p._p = NULL; return p; }
    p._p = g_body_klass;
    return p;
}
void C___ZN10HawkTracer6parser14ProtocolReader15_call_callbacksERKNS0_5EventE(Reader* r, const Event* e)
{
    if (g_kid == 1)
    {
        vf_assert(g_phase == HEADER && e->_timestamp == g_header_ts && e->_klass._p == g_header_klass, "a complete event is delivered");
    }
    else
    {
        vf_assert(g_phase == (r->_flat_events ? MERGED : BODY), "a complete event is delivered once");
        vf_assert(e->_klass._p == g_body_klass && (e->_timestamp == g_body_ts), "the event delivered is the one that was read");
        if (g_kid == 0) vf_assert((int)r->_endianness == g_endian, "an announced byte order applies to all that follows");
    }
    g_phase = IDLE;
    g_looked_up = 0;
    maybe_stopped(r);
    if (vf_bool("callback fails")) { g_phase = ENDED; throw std::runtime_error("x"); }
}
void H_decode_events(void)
{
    Reader* r = any_reader();
    g_read_mode = 1;
    g_header_klass = (EventKlass*)vf_raw("header class", sizeof(EventKlass));
    g_body_klass = (EventKlass*)vf_raw("event class", sizeof(EventKlass));
    vf_malloc_may_fail(0);
    int thrown = 0;
    vf_cover("pre");
    try { r->_decode_events(); } catch (const std::exception&) { thrown = 1; }
    vf_cover("ended");
    vf_assert(g_phase == ENDED || (g_phase == IDLE && !*(bool*)&r->_is_running), "decoding ends at an error or when stopped, after whole events");
    if (thrown) vf_cover("thrown");
}
/* ---------------------------------------------------------------- delivery and completion */
static uint64_t g_callbacks, g_called, g_wcalled; static const Event* g_delivery;
static std::function<void(const Event&)>* g_cbs;
static void the_callback(void* f, const Event& e)
{
    vf_assert(&e == g_delivery, "listeners get the event that was decoded");
    if (f == (void*)0x1000) { vf_assert(g_called == g_w, "listeners are called in the order of their registration"); g_wcalled++; }
    g_called++;
}
static void any_callback(size_t i, void* p)
{
    std::function<void(const Event&)>* c = (std::function<void(const Event&)>*)p;
    c->_call = the_callback;
    c->_f = i == g_w ? (void*)0x1000 : NULL;
}
static void any_callbacks(Reader* r)
{
    g_callbacks = vf_range("listeners", 0, VF_BIG, 4);
    g_cbs = (std::function<void(const Event&)>*)vf_lazy("listeners", g_callbacks, g_callbacks, sizeof(std::function<void(const Event&)>), any_callback);
    r->_on_new_event_callbacks._b = g_cbs;
    r->_on_new_event_callbacks._n = g_callbacks;
    r->_on_new_event_callbacks._c = g_callbacks;
}
void H_call_callbacks(void)
{
    Reader* r = any_reader();
    g_w = vf_u64("watched listener");
    any_callbacks(r);
    vf_assume(g_w < g_callbacks);
    g_delivery = any_event(NULL);
    vf_watch(g_w * sizeof(std::function<void(const Event&)>));
    vf_watch(g_w);
    vf_cover("pre");
    r->_call_callbacks(*g_delivery);
    vf_assert(g_wcalled == 1 && g_called == g_callbacks, "every listener is called once for every event");
}
static int g_decoding;
void C___ZN10HawkTracer6parser14ProtocolReader14_decode_eventsEv(Reader* r)
{
    vf_assert(!g_locked, "events are delivered without the lock");
    g_decoding++;
    g_decoded = 1;
    maybe_stopped(r);
    switch (vf_range("outcome", 0, 3, 3))
    {
    case 1: throw std::runtime_error("x");
    case 2: throw std::out_of_range("x");
    case 3: throw std::bad_alloc();
    }
}
void H_read_events(void)
{
    Reader* r = any_reader();
    int thrown = 0;
    vf_cover("pre");
    try { r->_read_events(); } catch (...) { thrown = 1; }
    vf_assert(g_recorded, "the end is recorded under the lock of those who wait for it");
    vf_assert(!thrown, "nothing escapes from the reading thread, whatever the stream contains");
    vf_assert(g_decoding == 1 && !*(bool*)&r->_is_running && g_notified && !g_locked, "the end is recorded and everybody waiting for it is woken");
}
void H_wait(void)
{
    Reader* r = any_reader();
    *(bool*)&r->_is_running = vf_bool("running");
    vf_cover("pre");
    r->wait_for_complete();
    vf_cover("completed");
    vf_assert(!*(bool*)&r->_is_running && !g_locked, "waiting ends when the reader has ended");
}
struct TestStream : Stream
{
    int starts, stops, ok;
    int read_byte() override { return -1; }
    bool read_data(char*, size_t) override { return false; }
    bool start() override { vf_assert(g_threads == 0, "the stream is started before it is read"); starts++; return ok; }
    void stop() override { vf_assert(g_joins == g_threads, "the stream is stopped after the reading thread has ended"); stops++; }
    bool is_continuous() override { return false; }
};
void H_start_stop(void)
{
    TestStream* s = new TestStream;
    s->starts = s->stops = 0;
    s->ok = vf_bool("stream starts");
    vf_malloc_may_fail(0);
    std::unique_ptr<Stream> u(s);
    KlassRegister* k = (KlassRegister*)vf_raw("register", 8);
    Reader* r = (Reader*)vf_raw("storage", sizeof(Reader));
    g_reader = r;
    int flat = vf_bool("flat");
    new (r) Reader(k, std::move(u), flat);
    vf_assert(r->_klass_register == k && r->_flat_events == flat && r->_endianness == HT_ENDIANNESS_LITTLE && !r->_base_event_pending && r->_struct_depth == 0, "a new reader");
    vf_assert(r->_on_new_event_callbacks.size() == 1, "the register is the first listener");
    vf_assert(s->starts == 0 && g_threads == 0, "nothing is read before the start");
    vf_cover("pre");
    if (vf_bool("start"))
    {
        bool ok = r->start();
        vf_assert(ok == (s->ok != 0) && s->starts == 1 && g_threads == (ok ? 1 : 0), "a reading thread is started exactly when the stream starts");
        if (ok)
        {
            vf_cover("started");
            vf_assert(g_running_at_start && !r->eos(), "the reader is running when its thread starts");
            g_decoding = 0;
            if (vf_bool("thread has ended"))
            {
                g_thread(g_thread_arg);
                vf_assert(g_decoding == 1 && r->eos() && g_notified, "the thread reads the stream");
            }
        }
    }
    if (vf_bool("stop"))
    {
        r->stop();
        vf_assert(g_joins == g_threads && s->stops == 1, "stopping waits for the reading thread and stops the stream");
    }
    int stops = s->stops;
    r->~Reader();
    vf_assert(g_joins == g_threads, "a reading thread is never abandoned");
    if (g_joins) vf_assert(!g_joined_running, "the reading thread is told to end before it is waited for");
    vf_cover("end");
}
}
