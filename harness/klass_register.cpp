/* The class register of the parser: descriptions in a stream become classes; lookups; the fields of a class. */
#define VF_STRING_ID
#include "env_cpp.h"
#include <string>
#include <memory>
#include <vector>
#include <mutex>
#include <unordered_map>
#include <stdexcept>
#include <cassert>
#include <cstring>
extern "C" int G_strcmp(const char* a, const char* b);
#define strcmp G_strcmp
#define private public
#include "parser/event_klass.cpp"
#include "parser/klass_register.cpp"
#undef strcmp
using namespace HawkTracer::parser;
typedef std::shared_ptr<EventKlassField> FieldPtr;
typedef std::shared_ptr<const EventKlassField> CFieldPtr;
typedef std::shared_ptr<const EventKlass> KlassPtr;
typedef std::unordered_map<HT_EventKlassId, std::shared_ptr<EventKlass>> Map;
static HT_EventKlassId g_key;
namespace std { template<> const unsigned* vf_map_key_<unsigned, std::shared_ptr<EventKlass> >::key = &g_key; }

enum { INFO_ID = 1, KLASS_NAME, FIELD_TYPE, FIELD_NAME, DATA_TYPE, SIZE, FIELD_COUNT, OTHER };
static void* g_lock_expected; static int g_locked;
static char *g_s_klass, *g_s_type, *g_s_field, *g_s_arg;        /* the strings of the event */
static uint64_t g_i_klass, g_i_type, g_i_field, g_i_arg;        /* and their contents */
static char g_shapes[4]; static int g_number_literals;
extern "C" {
static const char* const g_literals[] = { "HT_Event", "klass_id", "uint32_t", "timestamp", "uint64_t", "id", "HT_EndiannessInfoEvent", "endianness", "uint8_t", "HT_EventKlassInfoEvent",
    "info_klass_id", "event_klass_name", "field_count", "field_type", "field_name", "size", "data_type",
                                          "const char*", "HT_EventKlassFieldInfoEvent" };
uint64_t vf_string_id(const char* s)
{
    if (g_number_literals) for (unsigned i = 0; i < sizeof(g_literals) / sizeof(*g_literals); i++) if (strcmp(s, g_literals[i]) == 0) return 100 + i;
    if (s == g_s_klass) return g_i_klass;
    if (s == g_s_type) return g_i_type;
    if (s == g_s_field) return g_i_field;
    if (s == g_s_arg) return g_i_arg;
    return strcmp(s, "info_klass_id") == 0 ? INFO_ID : strcmp(s, "event_klass_name") == 0 ? KLASS_NAME : strcmp(s, "field_type") == 0 ? FIELD_TYPE
         : strcmp(s, "field_name") == 0 ? FIELD_NAME : strcmp(s, "data_type") == 0 ? DATA_TYPE : strcmp(s, "size") == 0 ? SIZE
         : strcmp(s, "field_count") == 0 ? FIELD_COUNT : OTHER;
}
int G_strcmp(const char* a, const char* b) { return (a == g_s_arg ? g_i_arg : (uint64_t)a) != (b == g_s_arg ? g_i_arg : (uint64_t)b); }
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { vf_assert(!g_locked && (!g_lock_expected || m == g_lock_expected), "the lock is not held already"); g_locked = 1; return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
void vf_mutex_unlock(void* m) { vf_assert(g_locked, "the lock is held"); g_locked = 0; }
static int g_other_present;
int vf_map_other_key(void) { return vf_bool("other key"); }
void C___ZdlPv(void* p) {}

/* ---------------------------------------------------------------- descriptions */
static EventKlass* g_event_klass; static Event* g_event;
static uint32_t g_info_id; static uint8_t g_data_type; static uint64_t g_size;
static int g_added_klasses, g_added_fields, g_known; static uint64_t g_asked; static EventKlass* g_type_klass;
static KlassRegister* g_reg;
static int g_builtin_mode; static EventKlass* g_builtin[4];
static int g_field_mode; static EventKlass* g_field_klass; static uint64_t g_field_name; static int g_field_calls;
uint32_t C___ZNK10HawkTracer6parser5Event9get_valueIjEET_RKSt6string(const Event* e, const std::string* n)
{
    vf_assert(e == g_event && n->_id == INFO_ID, "descriptions name the class they describe");
    return g_info_id;
}
char* C___ZNK10HawkTracer6parser5Event9get_valueIPcEET_RKSt6string(const Event* e, const std::string* n)
{
    vf_assert(e == g_event && (n->_id == KLASS_NAME || n->_id == FIELD_TYPE || n->_id == FIELD_NAME), "a description has these fields");
    return n->_id == KLASS_NAME ? g_s_klass : n->_id == FIELD_TYPE ? g_s_type : g_s_field;
}
uint8_t C___ZNK10HawkTracer6parser5Event9get_valueIhEET_RKSt6string(const Event* e, const std::string* n)
{
    vf_assert(e == g_event && n->_id == DATA_TYPE, "a description has these fields");
    return g_data_type;
}
uint64_t C___ZNK10HawkTracer6parser5Event9get_valueImEET_RKSt6string(const Event* e, const std::string* n)
{
    vf_assert(e == g_event && n->_id == SIZE, "a description has these fields");
    return g_size;
}
void C___ZN10HawkTracer6parser13KlassRegister10_add_klassESt10unique_ptrINS0_10EventKlassEE(KlassRegister* r, std::unique_ptr<EventKlass>* k)
{
    if (g_builtin_mode)
    {
        EventKlass* n = k->get();
        vf_assert(n != NULL, "every known class is added once");
        uint32_t id = n->_id;
        vf_assert(id < 4, "every known class is added once");
        vf_assert(!g_builtin[id], "every known class is added once");
        g_builtin[id] = k->release();
        return;
    }
    vf_assert(r == g_reg && (*k)->_id == g_info_id && *(uint64_t*)&(*k)->_name == g_i_klass, "the class has the name and the number of its description");
    vf_assert((*k)->_fields.size() == 0, "a new class has no fields");
    g_added_klasses++;
}
KlassPtr C___ZNK10HawkTracer6parser13KlassRegister9get_klassERKSt6string(const KlassRegister* r, const std::string* n)
{
    g_asked = n->_id;
    KlassPtr p;
    p._p = g_type_klass;
    return p;
}
static FieldTypeId expected_type(int* refused)
{
    *refused = 0;
    int i = g_size == 1 ? 0 : g_size == 2 ? 1 : g_size == 4 ? 2 : g_size == 8 ? 3 : -1;
    switch (g_data_type)
    {
    case HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER: if (i < 0) break; return (FieldTypeId)(2 * i);
    case HT_MKCREFLECT_TYPES_EXT_INTEGER: if (i < 0) break; return (FieldTypeId)(2 * i + 1);
    case HT_MKCREFLECT_TYPES_EXT_POINTER: return FieldTypeId::POINTER;
    case HT_MKCREFLECT_TYPES_EXT_STRING: return FieldTypeId::STRING;
    case HT_MKCREFLECT_TYPES_EXT_STRUCT: return FieldTypeId::STRUCT;
    }
    *refused = 1;
    return FieldTypeId::STRUCT;
}
void C___ZN10HawkTracer6parser13KlassRegister16_add_klass_fieldEjSt10unique_ptrINS0_15EventKlassFieldEE(KlassRegister* r, uint32_t id, std::unique_ptr<EventKlassField>* f)
{
    int refused;
    FieldTypeId t = expected_type(&refused);
    vf_assert(r == g_reg && id == g_info_id, "a field is added to the class its description names");
    vf_assert(!refused && (*f)->_type_id == t, "the field has the kind and the size of its description");
    vf_assert(*(uint64_t*)&(*f)->_name == g_i_field && *(uint64_t*)&(*f)->_type_name == g_i_type, "the field has the name and the type of its description");
    vf_assert((*f)->_klass._p == (t == FieldTypeId::STRUCT ? g_type_klass : NULL), "a structure field has the class of its type");
    g_added_fields++;
}
void H_handle(void)
{
    g_s_klass = g_shapes; g_s_type = g_shapes + 1; g_s_field = g_shapes + 2;
    g_i_klass = vf_u64("class name"); g_i_type = vf_u64("type name"); g_i_field = vf_u64("field name");
    g_info_id = vf_u32("described class"); g_data_type = vf_u8("data type"); g_size = vf_u64("size");
    g_type_klass = vf_bool("type known") ? (EventKlass*)vf_raw("class of the type", sizeof(EventKlass)) : NULL;
    g_reg = (KlassRegister*)vf_raw("register", sizeof(KlassRegister));
    g_event_klass = (EventKlass*)vf_raw("class", sizeof(EventKlass));
    uint32_t id = vf_u32("class of the event");
    *(uint32_t*)&g_event_klass->_id = id;
    g_event = (Event*)vf_raw("event", sizeof(Event));
    *(EventKlass**)&g_event->_klass = g_event_klass;
    vf_malloc_may_fail(0);
    int thrown = 0, refused;
    vf_cover("pre");
    try { g_reg->handle_register_events(*g_event); } catch (const std::exception&) { thrown = 1; }
    FieldTypeId t = expected_type(&refused);
    bool builtin = g_info_id >= 1 && g_info_id <= 3;
    if (id == 2)
    {
        vf_cover("class");
        vf_assert(!thrown && g_added_klasses == 1 && g_added_fields == 0, "a class description adds a class");
    }
    else if (id == 3 && !builtin)
    {
        vf_cover("field");
        if (refused || (t == FieldTypeId::STRUCT && !g_type_klass))
        {
            vf_cover("refused");
            vf_assert(thrown && g_added_fields == 0, "fields that can not be decoded end the stream");
        }
        else vf_assert(!thrown && g_added_fields == 1 && g_added_klasses == 0, "a field description adds a field");
        if (t == FieldTypeId::STRUCT && !refused) vf_assert(g_asked == g_i_type, "the class of a structure field is found by its type");
    }
    else
    {
        vf_cover("other");
        vf_assert(!thrown && g_added_klasses == 0 && g_added_fields == 0, "other events change nothing");
    }
}
/* ---------------------------------------------------------------- lookups */
static uint64_t g_w; static EventKlass* g_wklass; static uint32_t g_wid; static uint64_t g_wname;
static void any_klass(size_t i, void* p)
{
    Map::value_type* e = (Map::value_type*)p;
    if (i == g_w) { *(uint32_t*)&e->first = g_wid; e->second._p = g_wklass; return; }
    EventKlass* k = (EventKlass*)vf_raw("another class", sizeof(EventKlass));
    uint32_t id = vf_u32("another id");
    vf_assume(id != g_wid && id != HT_INVALID_KLASS_ID);
    *(uint32_t*)&k->_id = id;
    *(uint64_t*)&k->_name = vf_u64("another name");
    *(uint32_t*)&e->first = id;
    e->second._p = k;
}
static KlassRegister* any_register(int present)
{
    KlassRegister* r = (KlassRegister*)vf_raw("register", sizeof(KlassRegister));
    size_t n = vf_range("classes", 0, VF_BIG, 4);
    g_key = vf_u32("number");
    g_w = vf_u64("entry");
    if (present) vf_assume(g_w < n); else vf_assume(g_w >= n);
    g_wid = g_key;
    g_wname = vf_u64("name");
    g_wklass = (EventKlass*)vf_raw("class", sizeof(EventKlass));
    *(uint32_t*)&g_wklass->_id = g_wid;
    *(uint64_t*)&g_wklass->_name = g_wname;
    r->_register._n = n;
    r->_register._c = vf_range("capacity", 0, VF_BIG, 4);
    vf_assume(r->_register._c >= n);
    r->_register._j = present ? g_w : (size_t)-1;
    r->_register._e = (Map::value_type*)vf_lazy("entries", n, r->_register._c, sizeof(Map::value_type), any_klass);
    g_lock_expected = &r->_register_mtx;
    return r;
}
void H_get_klass(void)
{
    int present = vf_bool("present");
    KlassRegister* r = any_register(present);
    vf_cover("pre");
    KlassPtr k = r->get_klass(g_key);
    bool e = r->klass_exists(g_key);
    vf_assert(k._p == (present ? g_wklass : NULL) && e == present, "a class is found by its number exactly when it is registered");
    vf_assert(!g_locked, "the lock is released");
}
void H_get_klass_id(void)
{
    KlassRegister* r = any_register(1);
    std::string name;
    name._id = vf_u64("asked");
    vf_watch(g_w * sizeof(Map::value_type));
    vf_watch(g_w);
    vf_cover("pre");
    uint32_t id = r->get_klass_id(name);
    vf_assert(!g_locked, "the lock is released");
    if (id == g_wid && g_wid != HT_INVALID_KLASS_ID) { vf_cover("found"); vf_assert(g_wname == name._id, "the class found has the name asked for"); }
    if (g_wname == name._id) { vf_cover("there"); if (id == HT_INVALID_KLASS_ID) vf_assert(g_wid == HT_INVALID_KLASS_ID, "a registered class is found by its name"); }
}
void H_add_klass(void)
{
    int present = vf_bool("present"), own = vf_bool("the watched number");
    KlassRegister* r = any_register(present);
    uint64_t n = r->_register._n;
    EventKlass* k = (EventKlass*)vf_raw("new class", sizeof(EventKlass));
    uint32_t id = own ? g_key : vf_u32("another number");
    vf_assume(own || id != g_key);
    *(uint32_t*)&k->_id = id;
    new (&k->_fields) std::vector<FieldPtr>();
    vf_malloc_may_fail(0);
    std::unique_ptr<EventKlass> u(k);
    vf_cover("pre");
    r->_add_klass(std::move(u));
    vf_assert(!g_locked, "the lock is released");
    vf_assert(r->klass_exists(g_key) == (present || own), "the class is there afterwards");
    KlassPtr f = r->get_klass(g_key);
    if (present) { vf_cover("present"); vf_assert(f._p == g_wklass, "a class that is described twice keeps its first description"); }
    else if (own) { vf_cover("added"); vf_assert(f._p == k && r->_register._n == n + 1, "the new class is found by its number"); }
    else vf_assert(!f._p, "other numbers are not affected");
}
/* ---------------------------------------------------------------- fields of a class */
static EventKlassField* g_wf; static int g_recursive; static int g_wsub; static CFieldPtr g_subresult; static EventKlass *g_this, *g_wk; static int g_sub_hit;
static EventKlassField* new_field(uint64_t name, int type, EventKlass* k)
{
    EventKlassField* f = (EventKlassField*)vf_raw("field", sizeof(EventKlassField));
    *(uint64_t*)&f->_name = name;
    *(uint64_t*)&f->_type_name = vf_u64("type name");
    *(EventKlass**)&f->_klass = k;
    *(int*)&f->_type_id = type;
    return f;
}
static EventKlassField* g_sub_field; static EventKlass* g_anyk;
static void any_field(size_t i, void* p)
{
    EventKlassField* o = new_field(vf_u32("field name"), vf_range("type", 0, (int)FieldTypeId::STRUCT, 10), g_anyk);
    *(EventKlassField**)p = i == g_w ? g_wf : o;
}
static EventKlass* any_class(void)
{
    EventKlass* k = (EventKlass*)vf_raw("class", sizeof(EventKlass));
    size_t n = vf_range("fields", 0, VF_BIG, 4);
    g_w = vf_u64("field");
    vf_assume(g_w < n);
    g_anyk = (EventKlass*)vf_raw("some class", sizeof(EventKlass));
    g_wk = (EventKlass*)vf_raw("class of the field", sizeof(EventKlass));
    g_wf = new_field(vf_u32("name"), vf_range("type", 0, (int)FieldTypeId::STRUCT, 10), g_wk);
    k->_fields._n = n;
    k->_fields._c = vf_range("capacity", 0, VF_BIG, 4);
    vf_assume(k->_fields._c >= n);
    k->_fields._b = (FieldPtr*)vf_lazy("fields", n, k->_fields._c, sizeof(FieldPtr), any_field);
    g_s_arg = g_shapes + 3;
    g_i_arg = vf_u32("asked");
    g_sub_field = (EventKlassField*)vf_raw("nested field", sizeof(EventKlassField));
    g_wsub = vf_bool("nested field found");
    g_this = k;
    return k;
}
CFieldPtr C___ZNK10HawkTracer6parser10EventKlass9get_fieldEPKcb(const EventKlass* k, const char* name, bool recursive)
{
    CFieldPtr r;
    if (g_builtin_mode) { r._p = NULL; vf_assert(0, "only the class itself is searched"); return r; }
    vf_assert(g_recursive && recursive, "nested structures are searched only when asked");
    vf_assert((name == g_s_arg) && k != g_this, "the same name is searched in nested structures");
    if (k == g_wk ? g_wsub : vf_bool("found elsewhere")) { g_sub_hit = 1; r._p = g_sub_field; }
    else r._p = NULL;
    return r;
}
void H_find_field(void)
{
    EventKlass* k = any_class();
    g_recursive = vf_bool("recursive");
    uint64_t wname = *(uint64_t*)&g_wf->_name;
    int hit = !vf_and(wname != g_i_arg, !vf_and(vf_and(g_recursive, g_wf->_type_id == FieldTypeId::STRUCT), g_wsub));
    vf_watch(g_w * sizeof(FieldPtr));
    vf_watch(g_w);
    vf_cover("pre");
    CFieldPtr r = k->_get_field(g_s_arg, g_recursive);
    if (hit) { vf_cover("there"); vf_assert(r._p != NULL, "a field is found by its name"); }
    if (r._p == g_sub_field) { vf_cover("nested"); vf_assert(g_sub_hit && g_recursive, "fields of nested structures are found only when asked"); }
    else if (r._p)
    {
        vf_cover("found");
        vf_assert(*(uint64_t*)&r._p->_name == g_i_arg, "the field found has the name asked for");
    }
}
static int g_find_found; static EventKlassField* g_added_field; static int g_field_adds, g_count[4];
CFieldPtr C___ZNK10HawkTracer6parser10EventKlass10_get_fieldEPKcb(const EventKlass* k, const char* name, bool recursive)
{
    vf_assert(g_locked, "the fields are searched under the lock");
    vf_assert(!recursive, "only the class itself is searched");
    if (g_builtin_mode) return CFieldPtr();
    vf_assert((uint64_t)name == g_i_arg, "the name of the new field is searched");
    CFieldPtr r;
    r._p = g_find_found ? g_wf : NULL;
    return r;
}
void H_add_field(void)
{
    EventKlass* k = any_class();
    g_find_found = vf_bool("name taken");
    g_lock_expected = &k->_fields_mtx;
    uint64_t n = k->_fields._n;
    EventKlassField* f = new_field(g_i_arg, vf_range("new type", 0, (int)FieldTypeId::STRUCT, 10), NULL);
    std::unique_ptr<EventKlassField> u(f);
    vf_malloc_may_fail(0);
    vf_cover("pre");
    k->add_field(std::move(u));
    vf_assert(!g_locked, "the lock is released");
    vf_assert(k->_fields._n == n + (g_find_found ? 0 : 1), "a field is added once");
    if (!g_find_found) { vf_cover("added"); vf_assert(k->_fields._b[n]._p == f, "new fields are the last ones"); }
    vf_assert(k->_fields._b[g_w]._p == g_wf, "fields keep their order");
}
void H_get_fields(void)
{
    EventKlass* k = any_class();
    g_lock_expected = &k->_fields_mtx;
    uint64_t n = k->_fields._n;
    vf_malloc_may_fail(0);
    vf_cover("pre");
    std::vector<FieldPtr> v = k->get_fields();
    vf_assert(!g_locked, "the lock is released");
    vf_assert(v._n == n && v._b != k->_fields._b, "the caller gets a copy of the list");
    vf_assert(v._b[g_w]._p == g_wf, "the list has the fields in their order");
}
void H_add_klass_field(void)
{
    int present = vf_bool("present");
    KlassRegister* r = any_register(present);
    EventKlassField* f = new_field(vf_u32("field name"), 0, NULL);
    std::unique_ptr<EventKlassField> u(f);
    g_added_field = f;
    vf_malloc_may_fail(0);
    int thrown = 0;
    vf_cover("pre");
    try { r->_add_klass_field(g_key, std::move(u)); } catch (const std::out_of_range&) { thrown = 1; }
    vf_assert(!g_locked, "the lock is released");
    vf_assert(thrown == !present && g_field_adds == present, "a field is added to its class, fields of unknown classes are refused");
}
void C___ZN10HawkTracer6parser10EventKlass9add_fieldESt10unique_ptrINS0_15EventKlassFieldEE(EventKlass* k, std::unique_ptr<EventKlassField>* f)
{
    if (g_builtin_mode) { g_count[k->_id]++; k->_fields.push_back(FieldPtr(std::move(*f))); return; }
    vf_assert(k == g_wklass && f->get() == g_added_field, "a field is added to the class its description names");
    g_field_adds++;
}
static void known(int id, const char* name, int fields) { vf_assert(g_builtin[id] && *(uint64_t*)&g_builtin[id]->_name == vf_string_id(name) && g_builtin[id]->_fields._n == (size_t)fields, "the known classes have their names and fields"); }
static void known_field(int id, int i, const char* type, const char* name, FieldTypeId t)
{
    EventKlassField* f = g_builtin[id]->_fields._b[i]._p;
    vf_assert(f->_type_id == t && *(uint64_t*)&f->_name == vf_string_id(name) && *(uint64_t*)&f->_type_name == vf_string_id(type) && !f->_klass._p, "the known fields have the names, types and order the library writes");
}
void H_known_classes(void)
{
    g_number_literals = 1;
    g_builtin_mode = 1;
    vf_malloc_may_fail(0);
    vf_unroll(16);
    KlassRegister* r = (KlassRegister*)vf_raw("register", sizeof(KlassRegister));
    vf_cover("pre");
    new (r) KlassRegister();
    known(0, "HT_EndiannessInfoEvent", 1);
    known_field(0, 0, "uint8_t", "endianness", FieldTypeId::UINT8);
    known(1, "HT_Event", 3);
    known_field(1, 0, "uint32_t", "klass_id", FieldTypeId::UINT32);
    known_field(1, 1, "uint64_t", "timestamp", FieldTypeId::UINT64);
    known_field(1, 2, "uint64_t", "id", FieldTypeId::UINT64);
    known(2, "HT_EventKlassInfoEvent", 3);
    known_field(2, 0, "uint32_t", "info_klass_id", FieldTypeId::UINT32);
    known_field(2, 1, "const char*", "event_klass_name", FieldTypeId::STRING);
    known_field(2, 2, "uint8_t", "field_count", FieldTypeId::UINT8);
    known(3, "HT_EventKlassFieldInfoEvent", 5);
    known_field(3, 0, "uint32_t", "info_klass_id", FieldTypeId::UINT32);
    known_field(3, 1, "const char*", "field_type", FieldTypeId::STRING);
    known_field(3, 2, "const char*", "field_name", FieldTypeId::STRING);
    known_field(3, 3, "uint64_t", "size", FieldTypeId::UINT64);
    known_field(3, 4, "uint8_t", "data_type", FieldTypeId::UINT8);
}
}
