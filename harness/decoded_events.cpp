/* Values of decoded events: ownership through copying, moving, merging and destruction; any number of fields. */
#define VF_STRING_ID
#include "env_cpp.h"
#include <string>
#include <memory>
#include <unordered_map>
extern "C" void G_free(void* p);
#define free G_free
#define private public
#include "parser/event.cpp"
#undef free
using namespace HawkTracer::parser;
typedef Event::Value Value;
typedef std::unordered_map<std::string, Value> Values;
typedef Values::value_type Entry;
static std::string* g_keys[1];
static std::string g_key_storage("");
namespace std { template<> const std::string* vf_map_key_<std::string, Value>::key = &g_key_storage; }
#define TIMESTAMP 1

extern "C" {
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
void vf_mutex_unlock(void* m) {}
uint64_t vf_string_id(const char* s) { return strcmp(s, "timestamp") == 0 ? TIMESTAMP : strcmp(s, "") == 0 ? 0 : 2; }
static int g_other_present;
int vf_map_other_key(void) { return g_other_present < 0 ? vf_bool("other key present") : g_other_present; }
}

/* ---------------------------------------------------------------- single values */
static EventKlassField* new_field(uint64_t name, int type)
{
    EventKlassField* f = (EventKlassField*)vf_raw("field", sizeof(EventKlassField));
    *(uint64_t*)&f->_name = name;
    *(uint64_t*)&f->_type_name = 2;
    *(void**)&f->_klass = NULL;
    *(int*)&f->_type_id = type;
    return f;
}
static EventKlassField* any_field(void) { return new_field(vf_u64("name"), vf_range("type", 0, (int)FieldTypeId::STRUCT, 10)); }
static Event* g_src_event; static Event* g_copy_event; static int g_event_copies;
static const void* g_p; static int g_freed, g_deleted, g_released;      /* what happens to the watched block */
extern "C" {
void G_free(void* p) { if (p == g_p) g_freed++; }
void C___ZdlPv(void* p) { if (p == g_p) g_released++; }
void C___ZN10HawkTracer6parser5EventC2ERKS1_(Event* t, const Event* o)
{
    vf_assert(o == g_src_event, "the nested event of the source is the one copied");
    g_event_copies++;
    g_copy_event = t;
    t->_timestamp = 0;
}
void H_value_copy(void)
{
    EventKlassField* f = vf_bool("no field") ? NULL : any_field();
    int type = f ? (int)f->_type_id : -1;
    Value* v = (Value*)vf_raw("value", sizeof(Value));
    v->field = f;
    uint64_t x = vf_u64("value");
    size_t len = 0, w = vf_u64("w");
    char* str = NULL;
    if (type == (int)FieldTypeId::STRING && x) { str = vf_cstr("string", VF_BIG, 8); len = strlen(str); v->value.f_STRING = str; }
    else if (type == (int)FieldTypeId::STRUCT && x) { g_src_event = (Event*)vf_raw("event", sizeof(Event)); v->value.f_EVENT = g_src_event; }
    else v->value.f_UINT64 = x;
    int live = vf_live();
    vf_malloc_may_fail(0);
    vf_cover("pre");
    Value c(*v);
    vf_assert(v->field == f, "the source keeps its value");
    vf_assert(c.field == f, "the kind of the value is copied");
    if (type == (int)FieldTypeId::STRING && x)
    {
        vf_cover("string");
        vf_assert(v->value.f_STRING == str, "the source keeps its value");
        vf_assert(c.value.f_STRING != str && vf_live() == live + 1, "the copy has a string of its own");
        vf_assert(vf_valid(c.value.f_STRING, len + 1), "the copy has a string of its own");
        if (w <= len) vf_assert(c.value.f_STRING[w] == str[w], "the string is copied");
    }
    else if (type == (int)FieldTypeId::STRUCT && x)
    {
        vf_cover("event");
        vf_assert(v->value.f_EVENT == g_src_event, "the source keeps its value");
        vf_assert(g_event_copies == 1 && c.value.f_EVENT == g_copy_event && g_copy_event != g_src_event && vf_live() == live + 1, "the copy has a nested event of its own");
    }
    else
    {
        vf_cover("number");
        vf_assert(vf_live() == live, "numbers need no memory");
        if (f) vf_assert(c.value.f_UINT64 == x && v->value.f_UINT64 == x, "the number is copied");
    }
}
void H_value_move(void)
{
    EventKlassField* f = vf_bool("no field") ? NULL : any_field();
    Value* v = (Value*)vf_raw("value", sizeof(Value));
    Value* d = (Value*)vf_raw("destination", sizeof(Value));
    uint64_t x = vf_u64("value");
    int live = vf_live();
    v->field = f; v->value.f_UINT64 = x;
    vf_cover("pre");
    new (d) Value(std::move(*v));
    vf_assert(d->field == f, "the kind of the value is moved");
    if (f) vf_assert(d->value.f_UINT64 == x, "the value is moved");
    vf_assert(v->field == NULL, "a value is owned by one event only");
    vf_assert(vf_live() == live && g_freed == 0, "moving needs no memory");
}
/* ---------------------------------------------------------------- events: any number of fields */
}
static uint64_t g_key, g_j, g_w;            /* the watched name, its entry, and any entry */
static int g_wtype; static uint64_t g_wval; static EventKlassField* g_wfield; static uint64_t g_wname;
static void any_entry(size_t i, void* p)
{
    Entry* e = (Entry*)p;
    if (i == g_w)
    {
        *(uint64_t*)&e->first = g_wname;
        e->second.value.f_UINT64 = g_wval;
        e->second.field = g_wfield;
        return;
    }
    EventKlassField* f = any_field();
    uint64_t id = *(uint64_t*)&f->_name, v = vf_u64("other value");
    vf_assume(id != g_key);                 /* names are distinct and the watched entry is the only one with that name */
    vf_assume((int)f->_type_id < (int)FieldTypeId::STRING || v != g_wval);      /* every block has one owner */
    *(uint64_t*)&e->first = id;
    e->second.value.f_UINT64 = v;
    e->second.field = f;
}
static int g_one_type;
static int any_type(void)
{
    if (g_one_type) return vf_range("watched type", 0, (int)FieldTypeId::STRUCT, 10);
    if (vf_bool("a string")) return (int)FieldTypeId::STRING;
    if (vf_bool("a structure")) return (int)FieldTypeId::STRUCT;
    return vf_range("another type", 0, (int)FieldTypeId::POINTER, 8);
}
static Event* any_event(int present, int nofield)
{
    Event* e = (Event*)vf_raw("event", sizeof(Event));
    size_t n = vf_range("fields", 0, VF_BIG, 3);
    g_w = vf_u64("entry");
    if (present) vf_assume(g_w < n);
    else vf_assume(g_w >= n);
    g_wname = g_key;
    g_wval = vf_u64("watched value");
    g_wfield = nofield ? NULL : new_field(g_wname, any_type());
    g_wtype = nofield ? -1 : (int)g_wfield->_type_id;
    e->_values._n = n;
    e->_values._c = vf_range("capacity", 0, VF_BIG, 4);
    vf_assume(e->_values._c >= n);
    e->_values._j = present ? g_w : (size_t)-1;
    e->_values._e = (Entry*)vf_lazy("entries", n, e->_values._c, sizeof(Entry), any_entry);
    e->_timestamp = vf_u64("timestamp");
    *(uint64_t*)&e->_klass = vf_u64("class");
    return e;
}
static void any_key(void)
{
    g_key = vf_u64("name");
    g_key_storage._id = g_key;
}
extern "C" {
void C___ZN10HawkTracer6parser5EventD2Ev(Event* e) { if (e == g_p) g_deleted++; }
void C___ZN10HawkTracer6parser5EventD1Ev(Event* e) { if (e == g_p) g_deleted++; }
void H_event_destroy(void)
{
    any_key();
    Event* e = any_event(1, vf_bool("no field"));
    g_p = (const void*)(uintptr_t)g_wval;
    vf_assume(g_wval != 0 && g_p != e->_values._e);
    vf_watch(g_w * sizeof(Entry));
    vf_watch(g_w);
    vf_cover("pre");
    e->~Event();
    vf_assert(g_freed == (g_wtype == (int)FieldTypeId::STRING), "every string is released exactly once, and nothing else is");
    vf_assert(g_deleted == (g_wtype == (int)FieldTypeId::STRUCT) && g_released == g_deleted, "every nested event is released exactly once, and nothing else is");
}
/* copying: every field of the copy is a copy of the field of the source */
static Event* g_dst; static const Value* g_wsrc; static int g_copies; static uint64_t g_copyval;
void C___ZN10HawkTracer6parser5Event5ValueC2ERKS2_(Value* t, const Value* o)
{
    t->field = o->field;
    t->value = o->value;
    if (o == g_wsrc) { g_copies++; t->value.f_UINT64 = g_copyval; }
}
static uint64_t DST_N(void) { return g_dst->_values._n; }
static int INV_copy(void)
{
    size_t n = g_dst->_values._n;
    return vf_imp(g_w < n, vf_and(vf_peek64(g_dst->_values._e, 3 * g_w, 3 * n) == g_wname,
           vf_and(vf_peek64(g_dst->_values._e, 3 * g_w + 1, 3 * n) == g_copyval, vf_peek64(g_dst->_values._e, 3 * g_w + 2, 3 * n) == (uint64_t)(uintptr_t)g_wfield)));
}
void H_event_copy(void)
{
    g_one_type = 1;
    any_key();
    int present = vf_bool("present");
    Event* e = any_event(present, 0);
    g_dst = (Event*)vf_raw("copy", sizeof(Event));
    if (present) g_wsrc = &e->_values._e[g_w].second;
    g_copyval = vf_u64("copied value");
    uint64_t n = e->_values._n, ts = e->_timestamp, k = *(uint64_t*)&e->_klass, j = e->_values._j;
    vf_term(DST_N);
    if (present) { vf_watch(g_w); vf_inv(INV_copy); }
    vf_cover("pre");
    new (g_dst) Event(*e);
    vf_inv_clear();
    vf_assert(g_dst->_values._n == n && e->_values._n == n, "all fields are copied");
    vf_assert(g_dst->_timestamp == ts && *(uint64_t*)&g_dst->_klass == k, "the class and the timestamp are copied");
    vf_assert(g_copies == present, "every value is copied once");
    vf_assert(g_dst->_values._e != e->_values._e, "the copy has fields of its own");
    std::string key;
    key._id = g_key;
    vf_assert(g_dst->has_value(key) == present, "the copy has the fields of the source");
    if (present)
    {
        vf_cover("present");
        const Value& v = g_dst->_values.at(key);
        vf_assert(v.field == g_wfield && v.value.f_UINT64 == g_copyval, "the fields keep their names and values");
        vf_assert(e->_values._e[g_w].second.field == g_wfield && e->_values._e[g_w].second.value.f_UINT64 == g_wval, "the source keeps its values");
    }
}
/* moving and assigning: the fields change their owner */
void H_event_move(void)
{
    g_one_type = 1;
    any_key();
    int present = vf_bool("present");
    Event* e = any_event(present, 0);
    Entry* es = e->_values._e;
    uint64_t n = e->_values._n, ts = e->_timestamp, k = *(uint64_t*)&e->_klass;
    Event* d = (Event*)vf_raw("destination", sizeof(Event));
    vf_cover("pre");
    new (d) Event(std::move(*e));
    vf_assert(d->_values._e == es && d->_values._n == n && d->_timestamp == ts && *(uint64_t*)&d->_klass == k, "moving hands the fields, the class and the timestamp over");
    vf_assert(e->_values._n == 0, "the source owns nothing any more");
}
static void assign(Event* d, Event* e)
{
    Event* t = (Event*)vf_raw("temporary", sizeof(Event));
    memcpy((void*)t, (void*)e, sizeof(Event));
    memset((void*)&e->_values, 0, sizeof(e->_values));
    d->operator=(std::move(*t));
}
static Event* g_assigned; static uint64_t g_old_n; static Entry* g_old_es; static int g_old_dead;
void H_event_assign(void)
{
    g_one_type = 1;
    any_key();
    Event* d = any_event(vf_bool("earlier present"), 0);
    g_old_es = d->_values._e; g_old_n = d->_values._n;
    Event* e = any_event(vf_bool("present"), 0);
    Entry* es = e->_values._e;
    uint64_t n = e->_values._n, ts = e->_timestamp, k = *(uint64_t*)&e->_klass;
    vf_cover("pre");
    assign(d, e);
    vf_assert(d->_values._e == es && d->_values._n == n && d->_timestamp == ts && *(uint64_t*)&d->_klass == k, "assigning hands the fields, the class and the timestamp over");
}
/* fields added one by one */
void H_set_value(void)
{
    g_one_type = 1;
    any_key();
    g_other_present = -1;
    int present = vf_bool("present"), own = vf_bool("the watched name");
    Event* e = any_event(present, 0);
    uint64_t n = e->_values._n, ts = e->_timestamp, x = vf_u64("value");
    EventKlassField* f = new_field(own ? g_key : vf_u64("another name"), vf_range("type", 0, (int)FieldTypeId::STRUCT, 10));
    vf_assume(own || *(uint64_t*)&f->_name != g_key);
    vf_assume(!present || g_key != TIMESTAMP || e->_timestamp == g_wval);
    g_p = (const void*)(uintptr_t)x;
    vf_assume(x != 0 && g_p != e->_values._e);
    FieldType v;
    v.f_UINT64 = x;
    vf_cover("pre");
    e->set_value(f, v);
    std::string key;
    key._id = g_key;
    vf_assert(e->has_value(key) == (present || own), "the field is there afterwards");
    if (present)
    {
        vf_cover("present");
        const Value& r = e->_values.at(key);
        vf_assert(r.field == g_wfield && r.value.f_UINT64 == g_wval, "fields that are set already keep their values");
    }
    else if (own)
    {
        vf_cover("added");
        const Value& r = e->_values.at(key);
        vf_assert(r.field == f && r.value.f_UINT64 == x, "the field has the value set");
        vf_assert(e->_values._n == n + 1, "one field is added");
    }
    if (own) vf_assert(e->_timestamp == (g_key != TIMESTAMP ? ts : present ? g_wval : x), "the timestamp of the event is the field of that name");
    if (present && own)
    {
        FieldTypeId t = f->_type_id;
        vf_assert(g_freed == (t == FieldTypeId::STRING) && g_deleted == (t == FieldTypeId::STRUCT), "a value that is not stored is released");
    }
    else if (own) vf_assert(g_freed == 0 && g_deleted == 0, "a stored value is not released");
}
#define GET(T, C) \
    { int thrown = 0; T r = (T)0; \
      try { r = e->get_value<T>(key); } catch (const std::out_of_range&) { thrown = 1; } \
      vf_assert(thrown == !present, "absent fields are refused, others are not"); \
      if (present) { vf_cover("present"); vf_assert((uint64_t)r == (uint64_t)(T)g_wval, "the value of the field"); } }
void H_get_value(void)
{
    g_one_type = 1;
    any_key();
    int present = vf_bool("present"), t = vf_range("as", 0, 9, 9);
    Event* e = any_event(present, 0);
    std::string key;
    key._id = g_key;
    vf_cover("pre");
    vf_assert(e->has_value(key) == present, "fields are found by their name");
    switch (t)
    {
    case 0: GET(uint8_t, 0) break;
    case 1: GET(int8_t, 1) break;
    case 2: GET(uint16_t, 2) break;
    case 3: GET(int16_t, 3) break;
    case 4: GET(uint32_t, 4) break;
    case 5: GET(int32_t, 5) break;
    case 6: GET(uint64_t, 6) break;
    case 7: GET(int64_t, 7) break;
    case 8: GET(char*, 8) break;
    default: GET(Event*, 9) break;
    }
}
void H_get_value_or_default(void)
{
    g_one_type = 1;
    any_key();
    int present = vf_bool("present");
    Event* e = any_event(present, 0);
    std::string key;
    key._id = g_key;
    uint32_t def = vf_u32("default");
    vf_cover("pre");
    vf_assert(e->get_value_or_default<uint32_t>(key, def) == (present ? (uint32_t)g_wval : def), "the value of the field or the default");
}
}
/* merging: the fields the event does not have yet move over, everything else stays with (and goes with) the source */
static Event* g_this; static int g_had, g_sets, g_src_checked; static int g_isptr;
static Entry* g_src_es; static uint64_t g_src_n;
extern "C" {
void C___ZN10HawkTracer6parser5Event9set_valueEPKNS0_15EventKlassFieldENS0_9FieldTypeE(Event* t, const EventKlassField* f, FieldType v)
{
    vf_assert(t == g_this, "fields are added to the event merged into");
    if (f == g_wfield)
    {
        vf_assert(v.f_UINT64 == g_wval, "the field moves with its value");
        vf_assert(!g_had, "fields that are set already keep their values");
        g_sets++;
        t->_values._n = 1;
        t->_values._j = 0;
    }
}
}
static int INV_merge(void)
{
    int has = g_had | g_sets;
    return vf_and(vf_and(g_this->_values._j == vf_ite(has, 0, (uint64_t)-1), vf_imp(has, g_this->_values._n == 1)),
                  vf_peek64(g_src_es, 3 * g_w + 1, 3 * g_src_n) == vf_ite(vf_and(g_isptr, g_sets), 0, g_wval));
}
static void merge(Event* d, Event* e) { d->merge(std::move(*e)); }
extern "C" {
void H_merge(void)
{
    any_key();
    g_other_present = -1;
    g_had = vf_bool("present here");
    Event* e = any_event(1, 0);
    vf_assume(g_wval != 0);
    g_src_es = e->_values._e; g_src_n = e->_values._n;
    g_isptr = g_wtype >= (int)FieldTypeId::STRING;
    g_this = (Event*)vf_raw("this", sizeof(Event));
    g_this->_values._e = (Entry*)vf_raw("own entries", sizeof(Entry));
    g_this->_values._c = g_this->_values._n = vf_bool("own fields") | g_had;
    g_this->_values._j = g_had ? 0 : (size_t)-1;
    vf_watch(g_w * sizeof(Entry));
    vf_inv(INV_merge);
    vf_cover("pre");
    merge(g_this, e);
    vf_inv_clear();
    vf_assert(g_sets == !g_had, "every field that is missing is taken over once");
    std::string key;
    key._id = g_key;
    vf_assert(g_this->has_value(key), "the event has the fields of both");
    if (g_had || !g_isptr) vf_assert(g_src_es[g_w].second.value.f_UINT64 == g_wval, "what is not taken over goes with the source");
    else vf_assert(g_src_es[g_w].second.value.f_UINT64 == 0, "what is taken over does not go with the source");
    vf_assert(g_src_es[g_w].second.field == g_wfield, "the source keeps its fields");
}
}
