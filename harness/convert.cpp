/* Conversion of a trace, piece by piece: texts are escaped for JSON, labels resolved by the mapping events of the trace, every call written
   once with its label, thread, start and duration.  A text is an identity, the text that is escaped has its bytes. */
#define VF_STRING_ID
#define VF_STRING_TEXT
#include "env_cpp.h"
#include <string>
#include <cstring>
#include <memory>
#include <utility>
#include <vector>
#include <mutex>
#include <stdexcept>
#include <initializer_list>
static uint64_t vf_key_of(const std::string& s) { return s._id; }
static uint64_t vf_key_of(uint64_t v) { return v; }
extern "C" { size_t G_slot(const void* map, uint64_t key, size_t n); void G_inserted(const void* map, uint64_t key); }
/* maps: the unit says which entry a key has */
#define VF_UNORDERED_MAP
namespace std {
template <class K> struct hash {};
template <class K, class V, class H = hash<K> > class unordered_map
{
public:
    typedef K key_type; typedef V mapped_type;
    typedef pair<const K, V> value_type;
    typedef value_type* iterator; typedef const value_type* const_iterator;
    value_type* _e; size_t _n;
    unordered_map() : _e(nullptr), _n(0) {}
    iterator begin() { return _e; }
    iterator end() { return _e + _n; }
    const_iterator begin() const { return _e; }
    const_iterator end() const { return _e + _n; }
    const_iterator cend() const { return _e + _n; }
    iterator find(const K& k) { return _e + G_slot(this, vf_key_of(k), _n); }
    const_iterator find(const K& k) const { return _e + G_slot(this, vf_key_of(k), _n); }
    size_t count(const K& k) const { return G_slot(this, vf_key_of(k), _n) < _n; }
    V& at(const K& k) { size_t i = G_slot(this, vf_key_of(k), _n); if (i == _n) throw out_of_range(); return _e[i].second; }
    const V& at(const K& k) const { size_t i = G_slot(this, vf_key_of(k), _n); if (i == _n) throw out_of_range(); return _e[i].second; }
    V& operator[](const K& k)
    {
        if (G_slot(this, vf_key_of(k), _n) == _n) G_inserted(this, vf_key_of(k));
        return _e[G_slot(this, vf_key_of(k), _n)].second;
    }
    template <class P> pair<iterator, bool> insert(P&& p)
    {
        size_t i = G_slot(this, vf_key_of(p.first), _n);
        bool is_new = i == _n;
        if (is_new) { G_inserted(this, vf_key_of(p.first)); i = G_slot(this, vf_key_of(p.first), _n); _e[i].second = p.second; }
        return pair<iterator, bool>(_e + i, is_new);
    }
    template <class A, class B> pair<iterator, bool> emplace(A&& a, B&& b) { return insert(pair<K, V>(std::forward<A>(a), std::forward<B>(b))); }
};
}
extern "C" uint64_t vf_string_concat(uint64_t a, uint64_t b);
extern "C" int G_snprintf(char* b, size_t n, const char* fmt, unsigned v);
#include <fstream>
#include <iostream>
#include <set>
#include <stack>
#include <cstdio>
#include <cstdlib>
#define snprintf(b, n, fmt, v) G_snprintf(b, n, fmt, (unsigned)(v))
#define private public
#define protected public
#include "parser/event.cpp"
#include "parser/event_klass.cpp"
#include "client/tracepoint_map.cpp"
#include "client/converter.cpp"
#include "client/chrome_trace_converter.cpp"
#undef snprintf
using namespace HawkTracer;
using namespace HawkTracer::client;
using parser::Event;
typedef std::unordered_map<uint64_t, TracepointMap::MapInfo> Map;
typedef std::unordered_map<std::string, Event::Value> Values;

#define TEXT ((uint64_t)1 << 60)                /* the text that is escaped */
#define MIDDLE ((uint64_t)1 << 48)
#define NUMBER ((uint64_t)1 << 62)
static const char* g_text; static uint64_t g_len; static int g_escaping;
enum { V_LABEL, V_NAME, V_ID, V_INFO, V_KLASS, V_DURATION, V_THREAD, V_TIME, V_END };
static const char* g_str[3]; static uint64_t g_sid[3];          /* texts the event has, and their identities */
static const void* g_map; static const void* g_values; static uint64_t g_key; static int g_has; static uint64_t g_other; static int g_other_in; static unsigned g_present;
static uint64_t g_want; static int g_known; static uint64_t g_word; static int g_read;
enum { T_ESCAPED = 4, T_OPEN = 32, T_CLOSE, T_QUOTED, T_KEY, T_VALUE, T_MEMBER, T_VALUE_NEXT, T_LIST, T_COMMA };
static uint64_t g_number; static int g_signed;
static int g_any; static uint8_t g_first; static uint64_t g_count, g_list, g_value_key; static const void* g_watched; static const void* g_value;
static uint64_t g_hash(const char* s)
{
    uint64_t h = 0;
    vf_unroll(40);
    for (int i = 0; s[i]; i++) h = (h * 131 + (unsigned char)s[i]) & (((uint64_t)1 << 56) - 1);
    vf_unroll(0);
    return h;
}
static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 100; }
extern "C" {
int G_snprintf(char* b, size_t n, const char* fmt, unsigned v)
{
    int at = 0;
    vf_unroll(16);
    for (int i = 0; fmt[i]; i++)
    {
        if (fmt[i] != '%') { b[at++] = fmt[i]; continue; }
        vf_assert(fmt[i + 1] == '0' && (fmt[i + 3] == 'x' || fmt[i + 3] == 'X'), "a byte is written as hexadecimal digits");
        int digits = fmt[i + 2] - '0';
        vf_assert(digits >= 2 && digits <= 4 && v < 256, "as many digits as expected");
        for (int d = digits - 1; d >= 0; d--) { unsigned x = d > 3 ? 0 : (v >> (4 * d)) & 15; b[at++] = (char)(x < 10 ? '0' + x : 'a' + x - 10); }
        i += 3;
    }
    vf_unroll(0);
    b[at] = 0;
    vf_assert((size_t)at < n, "the escape fits its buffer");
    return at;
}
/* The escaped text is read back while it is written: its identity says how many bytes it stands for, and inside an escape how much of
   it there is: 1 after the backslash, 2.. after "u" and so many digits, the value so far above. */
uint64_t vf_string_append(uint64_t id, char c)
{
    vf_assert(g_escaping, "only the escaped text is put together by characters");
    uint64_t pos = id & (MIDDLE - 1), in = (id >> 48) & 15, val = (id >> 52) & 255;
    vf_assert(pos < g_len, "nothing follows the last character");
    unsigned char want = (unsigned char)g_text[pos];
    if (in == 0)
    {
        if (c == '\\') return pos | MIDDLE;
        vf_assert((unsigned char)c >= 0x20 && c != '"', "quotes and control characters are escaped");
        vf_assert((unsigned char)c == want, "plain characters stand for themselves");
        return pos + 1;
    }
    if (in == 1)
    {
        if (c == 'u') return pos | 2 * MIDDLE;
        unsigned char means = (unsigned char)(c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c);
        vf_assert(c == '"' || c == '\\' || c == '/' || means != (unsigned char)c, "only escapes that JSON has");
        vf_assert(means == want, "an escape stands for its character");
        return pos + 1;
    }
    int h = hex(c);
    vf_assert(h < 16, "an escape has four digits");
    vf_assert(in >= 4 || h == 0, "an escape stands for a byte");
    val = (val * 16 + (uint64_t)h) & 255;
    if (in < 5) return pos | (in + 1) * MIDDLE | val << 52;
    vf_assert(val == want, "an escape stands for its character");
    return pos + 1;
}
uint64_t vf_string_text(uint64_t id, const char* s)
{
    if (!g_escaping) return vf_string_concat(id, g_hash(s));
    vf_unroll(10);
    for (int i = 0; s[i]; i++) id = vf_string_append(id, s[i]);
    vf_unroll(0);
    return id;
}
uint64_t vf_string_id(const char* s)
{
    if (s == g_str[0]) return g_sid[0];
    if (s == g_str[1]) return g_sid[1];
    if (s == g_str[2]) return g_sid[2];
    return g_hash(s);
}
size_t vf_string_length(uint64_t id)
{
    if (id != TEXT) return id != 0;
     return g_len;
}
const char* vf_string_data(uint64_t id) { vf_assert(id == TEXT, "the text that is escaped"); return g_text; }
uint64_t vf_string_number(uint64_t v, int is_signed) { g_number = v; g_signed = is_signed; return NUMBER | (v != g_key); }
/* texts put together of pieces: what kind of text it is so far, and of which text */
static uint64_t of(uint64_t kind, uint64_t id) { return kind << 56 | (id & (((uint64_t)1 << 56) - 1)); }
uint64_t vf_string_concat(uint64_t a, uint64_t b)
{
    uint64_t ka = a >> 56, kb = b >> 56;
    if (b == 0) return a;
    if (a == 0 && kb != T_MEMBER) return b;
    if (kb == T_MEMBER || kb == T_VALUE_NEXT)
    {
        vf_assert(a == 0 ? g_any == 0 : ka == T_COMMA, "the fields are separated by commas");
        g_any = 1;
        g_first = 0;
        g_count += g_value == g_watched;
        return g_list = of(T_LIST, 1);
    }
    if (ka == T_ESCAPED || ka == T_QUOTED) vf_assert(kb == 0, "a fixed text follows");
    if (a == g_hash("\"") && kb == T_ESCAPED) return of(T_OPEN, b);
    if (ka == T_ESCAPED && b == g_hash("\"")) return of(T_CLOSE, a);
    if (a == g_hash("\"") && kb == T_CLOSE) return of(T_QUOTED, b);
    if (ka == T_OPEN && b == g_hash("\"")) return of(T_QUOTED, a);
    if (ka == T_OPEN && (b == g_hash("\": ") || b == g_hash("\":"))) return of(T_KEY, a);
    if (ka == T_QUOTED && (b == g_hash(": ") || b == g_hash(":"))) return of(T_KEY, a);
    if (ka == T_KEY && kb == T_VALUE)
    {
        vf_assert((a & (((uint64_t)1 << 56) - 1)) == g_value_key, "a field has its own value");
        return of(T_MEMBER, a);
    }
    if (ka == T_LIST && (b == g_hash(",") || b == g_hash(", "))) return g_list = of(T_COMMA, 1);
    vf_assert(0, "the text is well formed");
    return a;
}
size_t vf_string_find_char(uint64_t id, char c, size_t pos) { return (size_t)-1; }
uint64_t vf_string_sub(uint64_t id, size_t pos, size_t n) { return vf_u64("part"); }
/* the map of labels: entry 0 belongs to the watched number, entry 1 to some other one; the values of an event: one entry for each name used */
size_t G_slot(const void* map, uint64_t key, size_t n)
{
    if (map == g_values)
    {
        size_t i = key == g_hash("label") ? V_LABEL : key == g_hash("name") ? V_NAME : key == g_hash("identifier") ? V_ID : key == g_hash("info_klass_id") ? V_INFO : key == g_hash("event_klass_name") ? V_KLASS
            : key == g_hash("duration") ? V_DURATION : key == g_hash("thread_id") ? V_THREAD : key == g_hash("timestamp") ? V_TIME : V_END;
        vf_assert(i != V_END, "only the fields a trace has are looked at");
        return (g_present >> i) & 1 ? i : V_END;
    }
    vf_assert(map == g_map, "the map of labels");
    if (key == g_key) return vf_ite(g_has, 0, 2);
    if (g_other_in && key == g_other) return 1;
    return vf_bool("other number known") ? 1 : 2;
}
void G_inserted(const void* map, uint64_t key)
{
    vf_assert(map == g_map, "events stay as they are");
    if (key == g_key) { g_has = 1; return; }
    g_other_in = 1;
    g_other = key;
}
/* the file written: read back as JSON, character by character */
enum { J_START, J_MEMBER, J_KEY, J_COLON, J_VALUE, J_TEXT, J_NUMBER, J_NEXT, J_ARGS, J_END, J_FRAME };
#define ESCAPED ((uint64_t)1 << 58)
#define ARGS ((uint64_t)1 << 59)
static int g_state, g_comma, g_quoted, g_closed, g_opened; static uint64_t g_chars; static unsigned g_keys;
static uint64_t g_label, g_time, g_duration, g_thread;
static unsigned key_bit(uint64_t h)
{
    return h == g_hash("name") ? 1 : h == g_hash("ph") ? 2 : h == g_hash("ts") ? 4 : h == g_hash("dur") ? 8 : h == g_hash("tid") ? 16 : h == g_hash("args") ? 32 : h == g_hash("pid") ? 64 : h == g_hash("cat") ? 128 : 0;
}
static unsigned g_member;
static void ended(char c)
{
    vf_assert(c == ',' || c == '}', "members are separated by commas");
    g_state = c == ',' ? J_MEMBER : J_END;
}
void vf_out_char(void* f, char c)
{
    int blank = c == ' ' || c == '\n' || c == '\t' || c == '\r';
    if (g_state == J_KEY || g_state == J_TEXT)
    {
        vf_assert(c != '\\' && (unsigned char)c >= 0x20, "fixed texts are plain");
        if (c != '"') { g_chars = (g_chars * 131 + (unsigned char)c) & (((uint64_t)1 << 56) - 1); return; }
        if (g_state == J_KEY)
        {
            g_member = key_bit(g_chars);
            vf_assert(g_member != 0 && !(g_keys & g_member), "every member is there once");
            g_keys |= g_member;
            g_state = J_COLON;
            return;
        }
        if (g_member == 1) vf_assert(g_quoted && g_chars == 0, "the name is the label");
        else vf_assert(!g_quoted, "the label is the name only");
        if (g_member == 2) vf_assert(g_chars == g_hash("X"), "a complete call");
        g_quoted = 0;
        g_state = J_NEXT;
        return;
    }
    if (blank) { if (g_state == J_NUMBER) g_state = J_NEXT; return; }
    switch (g_state)
    {
    case J_START:
        if (c == ',') { vf_assert(g_comma == 1, "a comma between two calls only"); g_comma = 2; return; }
        vf_assert(c == '{' && g_comma != 1, "a comma between two calls");
        g_state = J_MEMBER;
        return;
    case J_MEMBER: vf_assert(c == '"', "members have names"); g_state = J_KEY; g_chars = 0; return;
    case J_COLON: vf_assert(c == ':', "a colon after the name"); g_state = J_VALUE; return;
    case J_VALUE:
        if (g_member == 32) { vf_assert(c == '{', "the fields of an event"); g_state = J_ARGS; g_quoted = 0; return; }
        if (c == '"') { vf_assert(g_member == 1 || g_member == 2 || g_member == 128, "a member with a text"); g_state = J_TEXT; g_chars = 0; g_quoted = 0; return; }
        vf_assert(c >= '0' && c <= '9' && g_member == 64, "the numbers of a call");
        g_state = J_NUMBER;
        return;
    case J_NUMBER: if (c >= '0' && c <= '9') return; ended(c); return;
    case J_NEXT: ended(c); return;
    case J_ARGS: vf_assert(c == '}' && g_quoted, "the fields of the event"); g_state = J_NEXT; g_quoted = 0; return;
    case J_FRAME: g_chars = (g_chars * 131 + (unsigned char)c) & (((uint64_t)1 << 56) - 1); return;
    default: vf_assert(0, "nothing after the end of a call"); return;
    }
}
void vf_out_text(void* f, const char* s)
{
    vf_unroll(64);
    for (int i = 0; s[i]; i++) vf_out_char(f, s[i]);
    vf_unroll(0);
}
void vf_out_string(void* f, uint64_t id)
{
    if (g_state == J_ARGS) vf_assert(id == ARGS && !g_quoted, "the fields of the event");
    else vf_assert(g_state == J_TEXT && g_member == 1 && !g_quoted && g_chars == 0 && id == (g_label | ESCAPED), "the name is the escaped label");
    g_quoted = 1;
}
void vf_out_number(void* f, uint64_t v, int is_signed)
{
    vf_assert(g_state == J_VALUE && (g_member & (4 | 8 | 16 | 64)), "the numbers of a call");
    if (g_member == 4) vf_assert(v == g_time / 1000 && !is_signed, "the start in microseconds");
    if (g_member == 8) vf_assert(v == g_duration / 1000 && !is_signed, "the duration in microseconds");
    if (g_member == 16) vf_assert(v == g_thread && !is_signed, "the thread");
    g_state = J_NEXT;
}
int vf_file_open(void* f, uint64_t name, int write) { g_opened = vf_bool("file opened"); return g_opened; }
void vf_file_close(void* f) { g_closed++; }
std::string C___ZN10HawkTracer6client9Converter10_get_labelERKNS_6parser5EventE(Converter* c, const Event* e) { std::string r; r._id = g_label; return r; }
std::string C___ZL11escape_jsonRKSt6string(const std::string* s) { std::string r; r._id = s->_id | ESCAPED; return r; }
std::string C___ZN10HawkTracer6client20ChromeTraceConverter9_get_argsERKNS_6parser5EventE(const Event* e) { std::string r; r._id = ARGS; return r; }
std::string C___ZN10HawkTracer6client20ChromeTraceConverter15_get_json_valueERKNS_6parser5Event5ValueE(const Event::Value* v)
{
    const Values::value_type* e = (const Values::value_type*)((const char*)v - offsetof(Values::value_type, second));
    g_value = e;
    g_value_key = e->first._id;
    std::string r;
    r._id = of(T_VALUE, 0);
    return r;
}
/* a map file: lines of category, label, number */
int vf_in_word(void* f, uint64_t* id)
{
    if (!vf_bool("word read")) return 0;
    *id = g_word = vf_u64("word");
    g_read++;
    return 1;
}
int vf_in_number(void* f, uint64_t* v)
{
    if (!vf_bool("number read")) return 0;
    vf_assert(g_read == 2, "a number follows the category and the label");
    *v = vf_u64("number");
    g_read = 0;
    g_want = vf_ite(*v == g_key, g_word, g_want);
    g_known = vf_ite(*v == g_key, 1, g_known);
    return 1;
}
void H_escape(void)
{
    g_len = vf_range("length", 0, VF_BIG, 6);
    g_text = (const char*)vf_obj("text", g_len + 1);
    std::string t;
    t._id = TEXT;
    g_escaping = 1;
    vf_cover("pre");
    std::string r = escape_json(t);
    vf_assert(r._id == g_len, "every character of the text is there, and nothing else");
    if (g_len) vf_cover("some characters");
}
static Map::value_type* g_entries;
static void any_map(TracepointMap* m)
{
    g_key = vf_u64("watched number");
    g_has = vf_bool("known");
    g_map = &m->_input_map;
    g_entries = (Map::value_type*)vf_obj("entries", 3 * sizeof(Map::value_type));
    m->_input_map._e = g_entries;
    m->_input_map._n = 2;
    g_known = g_has;
    g_want = g_entries[0].second.label._id;
}
static int INV_map(void)  { return vf_and(g_read == 0, vf_and(g_has == g_known, vf_imp(g_has, g_entries[0].second.label._id == g_want))); }
static void check(TracepointMap* m)
{
    TracepointMap::MapInfo info = m->get_label_info(g_key);
    vf_assert(info.label._id == (g_known ? g_want : NUMBER), "the label of the number, or the number");
    TracepointMap::MapInfo again = m->get_label_info(g_key);
    vf_assert(again.label._id == info.label._id, "and the same again");
}
void H_map(void)
{
    TracepointMap* m = (TracepointMap*)vf_raw("map", sizeof(TracepointMap));
    any_map(m);
    vf_cover("pre");
    uint64_t k = vf_u64("number");
    std::string l;
    l._id = vf_u64("label");
    if (vf_bool("asked"))
    {
        TracepointMap::MapInfo info = m->get_label_info(k);
        if (k == g_key && !g_known) { vf_cover("unknown"); g_known = 1; g_want = NUMBER; }
        if (k == g_key) vf_assert(info.label._id == g_want, "the label of the number, or the number");
    }
    else
    {
        m->add_map_entry(k, l);
        vf_cover("added");
        if (k == g_key) { g_known = 1; g_want = l._id; }
    }
    check(m);
}
void H_load_map(void)
{
    TracepointMap* m = (TracepointMap*)vf_raw("map", sizeof(TracepointMap));
    any_map(m);
    std::string name;
    name._id = vf_u64("name");
    vf_inv(INV_map);
    vf_cover("pre");
    bool ok = m->load_map(name);
    vf_inv_clear();
    if (ok) vf_cover("loaded");
    check(m);
}
static ChromeTraceConverter* any_converter(void)
{
    vf_malloc_may_fail(0);
    ChromeTraceConverter* c = (ChromeTraceConverter*)vf_raw("converter", sizeof(ChromeTraceConverter));
    new (c) ChromeTraceConverter();
    return c;
}
static parser::FieldTypeId any_type(Values::value_type* v, int k)
{
    parser::EventKlassField* f = (parser::EventKlassField*)vf_raw("field", sizeof(parser::EventKlassField));
    *(int*)&f->_type_id = (int)vf_range("kind of field", 0, 10, 10);
    v[k].second.field = f;
    return f->_type_id;
}
static Event* any_event(Values::value_type** entries)
{
    Event* e = (Event*)vf_raw("event", sizeof(Event));
    Values::value_type* v = (Values::value_type*)vf_obj("values", (V_END + 1) * sizeof(Values::value_type));
    e->_values._e = v;
    e->_values._n = V_END;
    g_values = &e->_values;
    g_present = vf_u32("fields there");
    parser::EventKlass* k = (parser::EventKlass*)vf_raw("class", sizeof(parser::EventKlass));
    *(uint32_t*)&k->_id = vf_u32("class");
    e->_klass._p = k;
    e->_timestamp = vf_u64("timestamp");
    *entries = v;
    return e;
}
static const char* text(int k)
{
    g_str[k] = (const char*)vf_raw("text", 1);
    g_sid[k] = vf_u64("text");
    return g_str[k];
}
void H_label(void)
{
    ChromeTraceConverter* c = any_converter();
    any_map(c->_tracepoint_map.get());
    Values::value_type* v;
    Event* e = any_event(&v);
    uint32_t klass = e->_klass._p->_id, mapping = vf_u32("mapping class");
    int label = (g_present >> V_LABEL) & 1, name = (g_present >> V_NAME) & 1;
    parser::FieldTypeId tl = any_type(v, V_LABEL), tn = any_type(v, V_NAME);
    c->_mapping_klass_id = mapping;
    v[V_LABEL].second.value.f_STRING = tl == parser::FieldTypeId::STRING ? (char*)text(0) : NULL;
    uint64_t id = g_key;
    if (vf_bool("another number")) id = vf_u64("number");
    if (tl == parser::FieldTypeId::UINT64) v[V_LABEL].second.value.f_UINT64 = id;
    v[V_NAME].second.value.f_STRING = tn == parser::FieldTypeId::STRING ? (char*)text(1) : NULL;
    v[V_KLASS].second.value.f_STRING = (char*)text(2);
    uint64_t number = vf_u64("identifier");
    v[V_ID].second.value.f_UINT64 = number;
    uint32_t info = vf_u32("class described");
    v[V_INFO].second.value.f_UINT32 = info;
    if (mapping == 0)
    {
        /* the start of a trace: the classes are described */
        vf_assume(klass == (uint32_t)parser::to_underlying(parser::WellKnownKlasses::EventKlassInfoEventKlass) && ((g_present >> V_INFO) & 1) && ((g_present >> V_KLASS) & 1) && !label && !name);
        vf_cover("description");
        std::string l = c->Converter::_get_label(*e);
        vf_assert(l._id == 0, "the description of a class is no call");
        vf_assert(c->_mapping_klass_id == (g_sid[2] == g_hash("HT_StringMappingEvent") ? info : 0), "the class that maps labels is the one of that name");
        check(c->_tracepoint_map.get());
        return;
    }
    if (klass == mapping)
    {
        vf_assume(((g_present >> V_ID) & 1) && label && tl == parser::FieldTypeId::STRING);
        vf_cover("mapping");
        std::string l = c->Converter::_get_label(*e);
        vf_assert(l._id == 0, "a mapping event is no call");
        if (number == g_key) { g_known = 1; g_want = g_sid[0]; }
        check(c->_tracepoint_map.get());
    }
    else
    {
        std::string l = c->Converter::_get_label(*e);
        if (label && tl == parser::FieldTypeId::UINT64)
        {
            vf_cover("mapped label");
            if (id == g_key) { vf_assert(l._id == (g_known ? g_want : NUMBER), "a number stands for the text it was mapped to"); g_known = 1; g_want = l._id; }
        }
        else if (label && tl == parser::FieldTypeId::STRING) { vf_cover("text label"); vf_assert(l._id == g_sid[0], "a text is the label itself"); }
        else if (!label && name && tn == parser::FieldTypeId::STRING) vf_assert(l._id == g_sid[1], "an event without a label has its name");
        else if (!label && !name) { vf_cover("no label"); vf_assert(l._id == 0, "an event without both is no call"); }
        check(c->_tracepoint_map.get());
    }
    vf_assert(c->_mapping_klass_id == mapping, "the mapping class stays the same");
}
void H_process(void)
{
    ChromeTraceConverter* c = any_converter();
    Values::value_type* v;
    Event* e = any_event(&v);
    c->_file._open = true;
    g_comma = vf_bool("calls before");
    c->_first_event_saved = g_comma != 0;
    bool before = c->_first_event_saved;
    g_label = vf_u64("label");
    vf_assume(g_label < ((uint64_t)1 << 56));
    g_time = e->_timestamp;
    g_duration = (g_present >> V_DURATION) & 1 ? v[V_DURATION].second.value.f_UINT64 : 0;
    g_thread = (g_present >> V_THREAD) & 1 ? v[V_THREAD].second.value.f_UINT32 : 0;
    g_state = J_START;
    vf_cover("pre");
    c->ChromeTraceConverter::process_event(*e);
    if (g_label == 0)
    {
        vf_assert(g_state == J_START && g_comma != 2, "what is no call is not written");
        vf_assert(c->_first_event_saved == before, "and is not counted as a call");
        vf_cover("no call");
    }
    else
    {
        vf_assert(g_state == J_END, "the call is written completely");
        vf_assert((g_keys & 31) == 31, "label, kind, start, duration and thread are there");
        vf_assert(c->_first_event_saved, "a comma precedes the next call");
        vf_cover("call");
    }
}
void H_frame(void)
{
    ChromeTraceConverter* c = any_converter();
    std::string n;
    n._id = vf_u64("name");
    g_state = J_FRAME;
    c->_first_event_saved = vf_bool("used before");
    vf_cover("pre");
    bool ok = c->ChromeTraceConverter::init(n);
    vf_assert(ok == (g_opened != 0), "a file that cannot be written is reported");
    if (!ok) { vf_assert(g_chars == 0, "nothing is written"); c->ChromeTraceConverter::stop(); vf_assert(g_chars == 0 && g_closed == 0, "nothing is written"); return; }
    vf_assert(g_chars == g_hash("{\"traceEvents\":["), "the list of the calls is opened");
    vf_assert(!c->_first_event_saved, "no comma before the first call");
    int twice = vf_bool("stopped twice");
    c->ChromeTraceConverter::stop();
    if (twice) c->ChromeTraceConverter::stop();
    vf_assert(g_chars == g_hash("{\"traceEvents\":[]}"), "the list is closed once");
    vf_assert(g_closed == 1, "the file is closed");
    vf_cover("closed");
}
void H_value(void)
{
    g_text = (const char*)vf_raw("none", 1);
    Values::value_type* v;
    any_event(&v);
    g_key = 0;
    parser::FieldTypeId t = any_type(v, 0);
    Event::Value& value = v[0].second;
    if (t == parser::FieldTypeId::STRING) { value.value.f_STRING = (char*)text(0); vf_assume(g_sid[0] < ((uint64_t)1 << 56)); }
    std::string r = ChromeTraceConverter::_get_json_value(value);
    int64_t want; int is_signed = 1;
    switch (t)
    {
    case parser::FieldTypeId::UINT8: want = value.value.f_UINT8; break;
    case parser::FieldTypeId::INT8: want = value.value.f_INT8; break;
    case parser::FieldTypeId::UINT16: want = value.value.f_UINT16; break;
    case parser::FieldTypeId::INT16: want = value.value.f_INT16; break;
    case parser::FieldTypeId::UINT32: want = value.value.f_UINT32; break;
    case parser::FieldTypeId::INT32: want = value.value.f_INT32; break;
    case parser::FieldTypeId::UINT64: want = (int64_t)value.value.f_UINT64; is_signed = 0; break;
    case parser::FieldTypeId::INT64: want = value.value.f_INT64; break;
    case parser::FieldTypeId::STRING: vf_cover("text"); vf_assert(r._id == of(T_QUOTED, g_sid[0]), "a text is quoted and escaped"); return;
    default: return;
    }
    vf_cover("number");
    vf_assert((r._id == NUMBER || r._id == (NUMBER | 1)) && g_number == (uint64_t)want && (g_signed == is_signed || want >= 0), "a number is written as it is");
}
static int INV_args(void) { return vf_and(g_count <= 1, vf_ite(g_any, vf_and(!g_first, g_list == of(T_LIST, 1)), vf_and(g_first == 1, g_list == 0))); }
static void any_field(size_t i, void* p)
{
    uint64_t k = vf_u64("name of the field");
    vf_assume(k < ((uint64_t)1 << 56));
    *(uint64_t*)p = k;
}
void H_args(void)
{
    Event* e = (Event*)vf_raw("event", sizeof(Event));
    uint64_t n = vf_range("fields", 0, VF_BIG, 3), w = vf_range("watched", 0, VF_BIG, 2);
    vf_assume(w < n);
    Values::value_type* v = (Values::value_type*)vf_lazy("values", n, n, sizeof(Values::value_type), any_field);
    e->_values._e = v;
    e->_values._n = n;
    vf_watch(w * sizeof(Values::value_type));
    g_watched = v + w;
    g_first = 1;
    uint64_t key = v[w].first._id;
    int core = key == g_hash("thread_id") | key == g_hash("timestamp") | key == g_hash("klass_id") | key == g_hash("id") | key == g_hash("label") | key == g_hash("duration");
    vf_inv(INV_args);
    vf_cover("pre");
    std::string r = ChromeTraceConverter::_get_args(*e);
    vf_inv_clear();
    vf_assert(r._id == g_list, "every field is in the list");
    vf_assert(g_count == (core ? 0 : 1), "every further field is there once");
    if (!core) vf_cover("further field");
}
}
