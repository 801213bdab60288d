/* Native cross-check: random class descriptions and events, written in both byte orders, through the real reader (nested and flat), complete, truncated and damaged. */
/* vf-link: -lpthread */
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <new>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include "vf.h"
static std::atomic<long> g_blocks(0);
static void* counted_malloc(size_t n) { g_blocks++; return malloc(n); }
static void counted_free(void* p) { if (p) g_blocks--; free(p); }
namespace std { static void* counted_malloc(size_t n) { return ::counted_malloc(n); } static void counted_free(void* p) { ::counted_free(p); } static void* counted_realloc(void* p, size_t n) { return ::realloc(p, n); } }
void* operator new(size_t n) { return counted_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { counted_free(p); }
void operator delete(void* p, size_t) noexcept { counted_free(p); }
#include "parser/event_klass.cpp"
#include "parser/klass_register.cpp"
#include <thread>
#include <condition_variable>
#include <functional>
#include <iostream>
#define malloc counted_malloc
#define free counted_free
#define realloc counted_realloc
#include "parser/event.cpp"
#include "parser/protocol_reader.cpp"
#undef malloc
#undef free
#undef realloc
extern "C" HT_Endianness ht_system_info_get_endianness(void) { return HT_ENDIANNESS_LITTLE; }
using namespace HawkTracer::parser;
typedef std::vector<unsigned char> Bytes;
struct Field { std::string name, type; int kind; size_t size; int klass; };     /* kind: FieldTypeId */
struct Klass { std::string name; uint32_t id; std::vector<Field> f; };
struct Model { struct V { int kind; uint64_t num; std::string str; std::shared_ptr<Model> sub; }; std::vector<std::pair<std::string, V>> v; };
struct Expected { uint32_t klass; uint64_t ts, id; Model m; size_t end; };
static std::vector<Klass>* g_k;
static int g_big;
static void num(Bytes& b, uint64_t v, size_t n) { for (size_t i = 0; i < n; i++) b.push_back((unsigned char)(v >> 8 * (g_big ? n - 1 - i : i))); }
static void str(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); b.push_back(0); }
static uint64_t g_id;
static void header(Bytes& b, uint32_t klass, uint64_t ts, uint64_t id) { num(b, klass, 4); num(b, ts, 8); num(b, id, 8); }
static uint64_t mask(uint64_t v, size_t n) { return n == 8 ? v : v & ((1ull << 8 * n) - 1); }
class Memory : public Stream
{
public:
    Memory(Bytes b) : _b(std::move(b)) {}
    int read_byte() override { return _p < _b.size() ? _b[_p++] : -1; }
    bool read_data(char* d, size_t n) override { if (_b.size() - _p < n) { _p = _b.size(); return false; } memcpy(d, _b.data() + _p, n); _p += n; return true; }
    bool start() override { return true; }
    void stop() override {}
    bool is_continuous() override { return false; }
private:
    Bytes _b; size_t _p = 0;
};
static const size_t SIZES[] = { 1, 1, 2, 2, 4, 4, 8, 8 };
static void body(Bytes& b, const Klass& k, Model& m, uint32_t klass, uint64_t ts, uint64_t id, int top)
{
    for (const Field& f : k.f)
    {
        Model::V v;
        v.kind = f.kind; v.num = 0;
        if (f.kind <= (int)FieldTypeId::INT64) { v.num = mask(vf_u64("number"), f.size); num(b, v.num, f.size); }
        else if (f.kind == (int)FieldTypeId::STRING)
        {
            v.str.assign(vf_range("length", 0, 70, 70), (char)vf_range("char", 1, 255, 255));
            str(b, v.str);
        }
        else
        {
            v.sub = std::make_shared<Model>();
            if (f.type == "HT_Event")
            {
                if (!top || f.name != "base") { klass = vf_u32("klass"); ts = vf_u64("ts"); id = vf_u64("id"); header(b, klass, ts, id); }
                Model::V x;
                x.kind = (int)FieldTypeId::UINT32; x.num = klass; v.sub->v.push_back({ "klass_id", x });
                x.kind = (int)FieldTypeId::UINT64; x.num = ts; v.sub->v.push_back({ "timestamp", x });
                x.num = id; v.sub->v.push_back({ "id", x });
            }
            else body(b, (*g_k)[f.klass], *v.sub, 0, 0, 0, 0);
        }
        m.v.push_back({ f.name, v });
    }
}
static void compare_num(const Event& e, const std::string& n, const Model::V& v)
{
    size_t size = SIZES[v.kind];
    uint64_t x = size == 1 ? e.get_value<uint8_t>(n) : size == 2 ? e.get_value<uint16_t>(n) : size == 4 ? e.get_value<uint32_t>(n) : e.get_value<uint64_t>(n);
    vf_assert(x == v.num, "numbers are decoded in the announced byte order");
}
static void compare(const Event& e, const Model& m)
{
    vf_assert(e.get_values().size() == m.v.size(), "an event has exactly the fields of its class");
    for (auto& x : m.v)
    {
        vf_assert(e.has_value(x.first) && (int)e.get_raw_value(x.first).field->get_type_id() == x.second.kind, "every field of the class is decoded");
        if (x.second.sub) compare(*e.get_value<Event*>(x.first), *x.second.sub);
        else if (x.second.kind == (int)FieldTypeId::STRING) vf_assert(x.second.str == e.get_value<char*>(x.first), "strings are decoded exactly");
        else compare_num(e, x.first, x.second);
    }
}
static void flatten(const Model& m, const Klass* k, std::map<std::string, Model::V>& r)
{
    for (size_t i = 0; i < m.v.size(); i++)
    {
        auto& x = m.v[i];
        if (x.second.sub)
        {
            if (k->f[i].type == "HT_Event") continue;
            std::map<std::string, Model::V> s;
            flatten(*x.second.sub, &(*g_k)[k->f[i].klass], s);
            for (auto& y : s) r.insert(y);
        }
        else r.insert(x);
    }
}
static void decode(const Bytes& bytes, const std::vector<Expected>& ex, int flat, int exact)
{
    long before = g_blocks;
    {
        KlassRegister reg;
        size_t got = 0;
        ProtocolReader r(&reg, std::unique_ptr<Stream>(new Memory(bytes)), flat);
        r.register_events_listener([&](const Event& e) {
            if (!exact) { got++; return; }
            vf_assert(got < ex.size(), "no event is made up");
            const Expected& x = ex[got++];
            if (x.klass < 10) { vf_assert(e.get_klass()->get_id() == x.klass, "descriptions are delivered in order"); return; }
            const Klass* k = nullptr;
            for (auto& c : *g_k) if (c.id == x.klass) k = &c;
            vf_assert(e.get_klass()->get_id() == x.klass && e.get_klass()->get_name() == k->name, "an event has the class it was written with");
            if (!flat) { compare(e, x.m); return; }
            std::map<std::string, Model::V> s;
            flatten(x.m, k, s);
            Model::V h;
            h.kind = (int)FieldTypeId::UINT32; h.num = x.klass; s.insert({ "klass_id", h });
            h.kind = (int)FieldTypeId::UINT64; h.num = x.ts; s.insert({ "timestamp", h });
            h.num = x.id; s.insert({ "id", h });
            vf_assert(e.get_values().size() == s.size(), "a flat event has the fields of its class, of the nested structures and of the header");
            for (auto& y : s)
            {
                vf_assert(e.has_value(y.first), "every field is there");
                if (y.second.kind == (int)FieldTypeId::STRING) vf_assert(y.second.str == e.get_value<char*>(y.first), "strings are decoded exactly");
                else compare_num(e, y.first, y.second);
            }
            vf_assert(e.get_timestamp() == x.ts, "the timestamp of the event");
        });
        vf_assert(r.start(), "the reader starts");
        r.wait_for_complete();
        vf_assert(r.eos(), "the reader reports the end");
        r.stop();
        if (exact)
        {
            size_t want = 0;
            while (want < ex.size() && ex[want].end <= bytes.size()) want++;
            vf_assert(got == want, "every complete event is delivered, the incomplete rest is not");
        }
    }
    vf_assert(g_blocks == before, "everything that was decoded is released");
}
extern "C" void N_decode(void)
{
    std::vector<Klass> ks;
    std::vector<Expected> ex;
    Bytes b;
    g_k = &ks;
    g_id = 0;
    g_big = 0;
    int names = 0;
    auto meta = [&](uint32_t k) { Expected e; e.klass = k; e.end = b.size(); ex.push_back(e); };
    header(b, 0, 1, g_id++);
    g_big = vf_bool("big endian");
    b.push_back(g_big ? 1 : 0);
    meta(0);
    int n = vf_range("classes", 1, 5, 5);
    for (int i = 0; i < n; i++)
    {
        Klass k;
        k.name = "K" + std::to_string(i) + std::string(vf_range("name length", 0, 40, 40), 'x');
        k.id = 10 + i * 3;
        int nf = vf_range("fields", 0, 6, 6), has_base = i == 0 || vf_bool("base");
        if (has_base) k.f.push_back({ "base", "HT_Event", (int)FieldTypeId::STRUCT, 24, -1 });
        for (int j = 0; j < nf; j++)
        {
            int kind = vf_range("kind", 0, 10, 10);
            std::string name = "f" + std::to_string(names++);
            if (kind == (int)FieldTypeId::POINTER) kind = 0;
            if (kind == (int)FieldTypeId::STRUCT)
            {
                int c = i == 0 || vf_range("header", 0, 5, 5) == 0 ? -1 : vf_range("structure", 0, i - 1, 5);
                k.f.push_back({ name, c < 0 ? "HT_Event" : ks[c].name, kind, 24, c });
            }
            else if (kind == (int)FieldTypeId::STRING) k.f.push_back({ name, "const char*", kind, 8, -1 });
            else k.f.push_back({ name, "int", kind, SIZES[kind], -1 });
        }
        header(b, 2, 1, g_id++);
        num(b, k.id, 4); str(b, k.name); num(b, k.f.size(), 1);
        meta(2);
        for (auto& f : k.f)
        {
            header(b, 3, 1, g_id++);
            num(b, k.id, 4); str(b, f.type); str(b, f.name); num(b, f.size, 8);
            num(b, f.kind == (int)FieldTypeId::STRUCT ? HT_MKCREFLECT_TYPES_EXT_STRUCT : f.kind == (int)FieldTypeId::STRING ? HT_MKCREFLECT_TYPES_EXT_STRING
                   : f.kind & 1 ? HT_MKCREFLECT_TYPES_EXT_INTEGER : HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER, 1);
            meta(3);
        }
        ks.push_back(k);
    }
    int m = vf_range("events", 0, 12, 12);
    for (int i = 0; i < m; i++)
    {
        size_t c = vf_range("class", 0, n - 1, 5);
        if (ks[c].f.empty() || ks[c].f[0].name != "base") c = 0;            /* events start with the header */
        const Klass& k = ks[c];
        Expected e;
        e.klass = k.id; e.ts = vf_u64("timestamp"); e.id = g_id++;
        header(b, e.klass, e.ts, e.id);
        body(b, k, e.m, e.klass, e.ts, e.id, 1);
        e.end = b.size();
        ex.push_back(e);
    }
    int flat = vf_bool("flat");
    decode(b, ex, flat, 1);
    Bytes t(b.begin(), b.begin() + vf_range("cut", 0, b.size(), 4000));
    decode(t, ex, flat, 1);
    /* damaged bytes: anything may be delivered, but the reader ends, without fault and with everything released */
    int d = vf_range("damaged", 1, 6, 6);
    for (int i = 0; i < d; i++) b[vf_range("where", 0, b.size() - 1, 4000)] = (unsigned char)vf_range("byte", 0, 255, 255);
    decode(b, ex, flat, 0);
    g_k = nullptr;
}
