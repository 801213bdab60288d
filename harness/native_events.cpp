/* Native cross-check: random histories of decoded events (set, copy, assign, move, merge, destroy) against a model, with every block accounted for. */
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <unordered_map>
#include <new>
#include <cstdlib>
#include <cstring>
#include "vf.h"
static long g_blocks;
static void* counted_malloc(size_t n) { g_blocks++; return malloc(n); }
static void counted_free(void* p) { if (p) g_blocks--; free(p); }
void* operator new(size_t n) { return counted_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { counted_free(p); }
void operator delete(void* p, size_t) noexcept { counted_free(p); }
#define malloc counted_malloc
#define free counted_free
#include "parser/event.cpp"
#include "parser/event_klass.cpp"
#undef malloc
#undef free
using namespace HawkTracer::parser;
struct Model { struct V { int type; uint64_t num; std::string str; std::shared_ptr<Model> sub; }; std::map<std::string, V> v; uint64_t ts = (uint64_t)-1; const void* klass = nullptr; };
static const char* NAMES[] = { "a", "b", "klass_id", "timestamp", "label", "base" };
static std::vector<std::unique_ptr<EventKlassField>>* g_fields;
static void compare(const Event& e, const Model& m)
{
    vf_assert(e.get_klass().get() == m.klass, "the class");
    vf_assert(e.get_values().size() == m.v.size(), "an event has the fields that were set");
    vf_assert(e.get_timestamp() == m.ts, "the timestamp");
    for (auto& x : m.v)
    {
        vf_assert(e.has_value(x.first), "the field is there");
        const Event::Value& v = e.get_raw_value(x.first);
        vf_assert((int)v.field->get_type_id() == x.second.type && v.field->get_name() == x.first, "the field has its kind and name");
        if (x.second.type == (int)FieldTypeId::STRING) vf_assert(x.second.str == e.get_value<char*>(x.first), "the string");
        else if (x.second.type == (int)FieldTypeId::STRUCT) compare(*e.get_value<Event*>(x.first), *x.second.sub);
        else vf_assert(e.get_value<uint64_t>(x.first) == x.second.num, "the number");
    }
    vf_assert(!e.has_value("absent"), "no other fields");
    int refused = 0;
    try { e.get_value<uint8_t>("absent"); } catch (const std::out_of_range&) { refused = 1; }
    vf_assert(refused && e.get_value_or_default<uint8_t>("absent", 7) == 7, "absent fields are refused or replaced by the default");
}
static std::shared_ptr<Model> clone(const Model& m)
{
    auto r = std::make_shared<Model>(m);
    for (auto& x : r->v) if (x.second.sub) x.second.sub = clone(*x.second.sub);
    return r;
}
static void set_random(Event& e, Model& m, int depth);
static void fill(Event& e, Model& m, int depth)
{
    int n = vf_range("nested fields", 0, 3, 3);
    for (int i = 0; i < n; i++) set_random(e, m, depth);
}
static void set_random(Event& e, Model& m, int depth)
{
    size_t k = vf_range("field", 0, 17, 17);
    const EventKlassField* f = (*g_fields)[k].get();
    std::string name = f->get_name();
    Model::V v;
    v.type = (int)f->get_type_id();
    v.num = 0;
    bool dup = m.v.count(name);
    if (v.type == (int)FieldTypeId::STRING)
    {
        size_t n = vf_range("length", 0, 40, 40);
        v.str.assign(n, (char)vf_range("char", 1, 255, 255));
        char* s = (char*)counted_malloc(n + 1);
        strcpy(s, v.str.c_str());
        e.set_value(f, s);
    }
    else if (v.type == (int)FieldTypeId::STRUCT)
    {
        v.sub = std::make_shared<Model>();
        Event* sub = new Event(e.get_klass());
        v.sub->klass = e.get_klass().get();
        if (depth < 3) fill(*sub, *v.sub, depth + 1);
        e.set_value(f, sub);
    }
    else
    {
        v.num = vf_u64("value");
        e.set_value(f, v.num);
    }
    if (dup) return;                /* the first value stays */
    m.v[name] = v;
    if (name == "timestamp") m.ts = v.type < (int)FieldTypeId::STRING ? v.num : e.get_timestamp();
}
extern "C" void N_events(void)
{
    {
        std::vector<std::unique_ptr<EventKlassField>> fields;
        std::shared_ptr<const EventKlass> klass[2] = { std::make_shared<EventKlass>("K", 10), std::make_shared<EventKlass>("L", 11) };
        for (int i = 0; i < 6; i++)
        {
            fields.emplace_back(new EventKlassField(NAMES[i], "uint64_t", FieldTypeId::UINT64));
            fields.emplace_back(new EventKlassField(NAMES[i], i == 3 ? "uint64_t" : "const char*", i == 3 ? FieldTypeId::INT64 : FieldTypeId::STRING));
            fields.emplace_back(new EventKlassField(NAMES[i], i == 3 ? "uint64_t" : "K", i == 3 ? FieldTypeId::UINT64 : FieldTypeId::STRUCT));
        }
        g_fields = &fields;
        long before = g_blocks;
        {
            std::vector<std::unique_ptr<Event>> ev;
            std::vector<std::shared_ptr<Model>> mo;
            for (int i = 0; i < 3; i++)
            {
                ev.emplace_back(new Event(klass[i & 1]));
                mo.push_back(std::make_shared<Model>());
                mo.back()->klass = klass[i & 1].get();
            }
            int ops = vf_range("operations", 1, 25, 25);
            for (int o = 0; o < ops; o++)
            {
                size_t i = vf_range("event", 0, ev.size() - 1, 4), j = vf_range("other event", 0, ev.size() - 1, 4);
                switch (vf_range("operation", 0, 9, 9))
                {
                case 0: case 1: case 2: set_random(*ev[i], *mo[i], 0); break;
                case 3: ev.emplace_back(new Event(*ev[i])); mo.push_back(clone(*mo[i])); break;
                case 4: *ev[i] = *ev[j]; mo[i] = clone(*mo[j]); break;
                case 5:
                    ev[i]->merge(*ev[j]);
                    { auto c = clone(*mo[j]); for (auto& x : c->v) if (!mo[i]->v.count(x.first)) { mo[i]->v[x.first] = x.second; if (x.first == "timestamp") mo[i]->ts = x.second.num; } }
                    break;
                case 6:
                    if (i == j || ev.size() < 2) break;
                    { auto c = mo[j]; for (auto& x : c->v) if (!mo[i]->v.count(x.first)) { mo[i]->v[x.first] = x.second; if (x.first == "timestamp") mo[i]->ts = x.second.num; } }
                    ev[i]->merge(std::move(*ev[j]));
                    ev.erase(ev.begin() + j); mo.erase(mo.begin() + j);
                    break;
                case 7:
                    if (i == j || ev.size() < 2) break;
                    *ev[i] = std::move(*ev[j]); mo[i] = mo[j];
                    ev.erase(ev.begin() + j); mo.erase(mo.begin() + j);
                    break;
                case 8: { Event* moved = new Event(std::move(*ev[i])); ev[i].reset(moved); break; }
                case 9:
                    if (ev.size() < 2) break;
                    ev.erase(ev.begin() + i); mo.erase(mo.begin() + i);
                    break;
                }
                for (size_t k = 0; k < ev.size(); k++) compare(*ev[k], *mo[k]);
            }
        }
        vf_assert(g_blocks == before, "every string and nested event is released exactly once, nothing leaks");
        g_fields = nullptr;
    }
}
