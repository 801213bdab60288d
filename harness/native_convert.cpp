/* Native cross-check of the converted output: random call events with any labels, mapping events and further fields go through the converters;
   the JSON is read back by a strict parser, the call graph is compared with the nesting of the calls. */
#include <string>
#include <vector>
#include <map>
#include <set>
#include <queue>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "vf.h"
#include "parser/event.cpp"
#include "parser/event_klass.cpp"
#include "client/tracepoint_map.cpp"
#include "client/converter.cpp"
#include "client/chrome_trace_converter.cpp"
#include "client/call_graph.cpp"
#include "client/callgrind_converter.cpp"
using namespace HawkTracer;
using namespace HawkTracer::parser;
struct Json
{
    const std::string& s; size_t i;
    explicit Json(const std::string& t) : s(t), i(0) {}
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
    int peek() { ws(); return i < s.size() ? (unsigned char)s[i] : -1; }
    void need(char c) { vf_assert(peek() == c, "the output is valid JSON"); if (i >= s.size()) _exit(1); i++; }
    std::string str()
    {
        need('"');
        std::string r;
        for (;;)
        {
            vf_assert(i < s.size(), "a string is closed");
            unsigned char c = (unsigned char)s[i++];
            if (c == '"') return r;
            vf_assert(c >= 0x20, "control characters are escaped");
            if (c != '\\') { r += (char)c; continue; }
            vf_assert(i < s.size(), "an escape is complete");
            c = (unsigned char)s[i++];
            static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
            if (c == 'u')
            {
                unsigned v = 0;
                for (int k = 0; k < 4; k++, i++) { vf_assert(i < s.size() && isxdigit((unsigned char)s[i]), "an escape has four digits"); v = v * 16 + (unsigned)strtoul(std::string(1, s[i]).c_str(), NULL, 16); }
                vf_assert(v < 256, "an escape stands for a byte");
                r += (char)v;
            }
            else { const char* p = c ? strchr(from, c) : NULL; vf_assert(p != NULL, "escapes are known"); if (p) r += to[p - from]; }
        }
    }
    std::string number()
    {
        ws();
        size_t b = i;
        if (i < s.size() && s[i] == '-') i++;
        size_t d = i;
        while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        vf_assert(i > d && (s[d] != '0' || i == d + 1), "a number is well formed");
        return s.substr(b, i - b);
    }
};
struct Field { std::string name; FieldTypeId type; uint64_t num; std::string text; };
struct Call { std::string label; uint64_t ts, dur, tid; std::map<std::string, std::string> args; };
static std::string any_text(const char* what, size_t max)
{
    std::string s;
    int kind = (int)vf_range("kind of text", 0, 3, 3);
    for (size_t n = (size_t)vf_range(what, 0, max, max); n; n--)
        s += (char)(kind == 0 ? vf_range("letter", 'a', 'c', 'c') : kind == 1 ? "\"\\/\b\f\n\r\t\x01\x1f\x7f"[vf_range("special", 0, 10, 10)] : kind == 2 ? vf_range("control", 1, 31, 31) : vf_range("byte", 1, 255, 255));
    return s;
}
static std::vector<std::unique_ptr<EventKlassField> > g_fields;
static void set(Event& e, const Field& f)
{
    g_fields.emplace_back(new EventKlassField(f.name, "t", f.type));
    if (f.type == FieldTypeId::STRING) { char* p = (char*)malloc(f.text.size() + 1); strcpy(p, f.text.c_str()); e.set_value(g_fields.back().get(), p); }
    else e.set_value(g_fields.back().get(), f.num);
}
static std::string shown(const Field& f)
{
    switch (f.type)
    {
    case FieldTypeId::UINT8: return std::to_string((uint8_t)f.num);
    case FieldTypeId::INT8: return std::to_string((int8_t)f.num);
    case FieldTypeId::UINT16: return std::to_string((uint16_t)f.num);
    case FieldTypeId::INT16: return std::to_string((int16_t)f.num);
    case FieldTypeId::UINT32: return std::to_string((uint32_t)f.num);
    case FieldTypeId::INT32: return std::to_string((int32_t)f.num);
    case FieldTypeId::UINT64: return std::to_string((uint64_t)f.num);
    case FieldTypeId::INT64: return std::to_string((int64_t)f.num);
    default: return "\"" + f.text;
    }
}
extern "C" void N_json(void)
{
    std::ostringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    char name[] = "/tmp/vf_jsonXXXXXX";
    int fd = mkstemp(name);
    vf_assume(fd >= 0);
    close(fd);
    g_fields.clear();
    static const uint64_t times[] = { 0, 1, 999, 1000, 1001, 1999, 123456789, ((uint64_t)1 << 32), (uint64_t)-2, (uint64_t)-1 };
    std::vector<Call> want;
    {
        client::ChromeTraceConverter conv;
        vf_assert(conv.init(name), "the output can be written");
        auto info = std::make_shared<EventKlass>("HT_EventKlassInfoEvent", 2);
        unsigned map_id = (unsigned)vf_range("id of the mapping class", 4, 1000, 8);
        auto mapping = std::make_shared<EventKlass>("HT_StringMappingEvent", map_id);
        auto call = std::make_shared<EventKlass>("HT_CallstackEvent", map_id + 1);
        for (int k = 0; k < 2; k++)
        {
            Event e(info);
            set(e, Field{ "info_klass_id", FieldTypeId::UINT32, k ? map_id : map_id + 1, "" });
            set(e, Field{ "event_klass_name", FieldTypeId::STRING, 0, k ? "HT_StringMappingEvent" : "HT_CallstackEvent" });
            conv.process_event(e);
        }
        std::map<uint64_t, std::string> labels;
        int n = (int)vf_range("events", 0, 12, 12);
        for (int k = 0; k < n; k++)
        {
            if (vf_range("kind of event", 0, 2, 2) == 0)
            {
                Event e(mapping);
                uint64_t id = vf_range("identifier", 0, 4, 4);
                std::string text = any_text("length of the label", 6);
                if (text.empty()) text = "x";
                set(e, Field{ "identifier", FieldTypeId::UINT64, id, "" });
                set(e, Field{ "label", FieldTypeId::STRING, 0, text });
                conv.process_event(e);
                labels[id] = text;
                continue;
            }
            Event e(call);
            Call c;
            c.ts = times[vf_range("start", 0, 9, 9)]; c.dur = times[vf_range("duration", 0, 9, 9)]; c.tid = vf_bool("big thread") ? 0xffffffffu : vf_range("thread", 0, 3, 3);
            set(e, Field{ "timestamp", FieldTypeId::UINT64, c.ts, "" });
            set(e, Field{ "duration", FieldTypeId::UINT64, c.dur, "" });
            set(e, Field{ "thread_id", FieldTypeId::UINT32, c.tid, "" });
            if (vf_bool("label by number"))
            {
                uint64_t id = vf_range("identifier", 0, 4, 4);
                set(e, Field{ "label", FieldTypeId::UINT64, id, "" });
                if (labels.count(id)) c.label = labels[id]; else c.label = std::to_string(id);
            }
            else
            {
                c.label = any_text("length of the label", 8);
                set(e, Field{ "label", FieldTypeId::STRING, 0, c.label });
            }
            for (int a = (int)vf_range("further fields", 0, 3, 3); a; a--)
            {
                static const FieldTypeId t[] = { FieldTypeId::UINT8, FieldTypeId::INT8, FieldTypeId::UINT16, FieldTypeId::INT16, FieldTypeId::UINT32, FieldTypeId::INT32, FieldTypeId::UINT64, FieldTypeId::INT64, FieldTypeId::STRING };
                static const char* names[] = { "a", "name", "q\"", "b\\" };
                Field f{ names[vf_range("field", 0, 3, 3)], t[vf_range("type", 0, 8, 8)], vf_bool("negative") ? (uint64_t)-1 : vf_u64("number"), "" };
                if (c.args.count(f.name)) continue;
                if (f.type == FieldTypeId::STRING) f.text = any_text("length of the text", 6);
                set(e, f);
                c.args[f.name] = shown(f);
            }
            conv.process_event(e);
            if (!c.label.empty()) want.push_back(c);
        }
        if (vf_bool("stopped")) conv.stop();
    }
    std::ifstream in(name, std::ios::binary);
    std::stringstream all; all << in.rdbuf();
    std::string text = all.str();
    unlink(name);
    Json j(text);
    j.need('{'); vf_assert(j.str() == "traceEvents", "the list of events"); j.need(':'); j.need('[');
    size_t seen = 0;
    while (j.peek() != ']')
    {
        if (seen) j.need(',');
        vf_assert(seen < want.size(), "nothing but the calls is written");
        if (seen >= want.size()) return;
        const Call& c = want[seen++];
        j.need('{');
        std::set<std::string> keys;
        for (;;)
        {
            std::string key = j.str();
            vf_assert(keys.insert(key).second, "every key is there once");
            j.need(':');
            if (key == "name") vf_assert(j.str() == c.label, "the label of the call");
            else if (key == "ph") vf_assert(j.str() == "X", "a complete call");
            else if (key == "ts") vf_assert(j.number() == std::to_string(c.ts / 1000), "the start in microseconds");
            else if (key == "dur") vf_assert(j.number() == std::to_string(c.dur / 1000), "the duration in microseconds");
            else if (key == "tid") vf_assert(j.number() == std::to_string(c.tid), "the thread");
            else if (key == "pid") j.number();
            else
            {
                vf_assert(key == "args", "the fields of an event");
                j.need('{');
                std::map<std::string, std::string> got;
                while (j.peek() != '}')
                {
                    if (got.size()) j.need(',');
                    std::string a = j.str();
                    j.need(':');
                    std::string v = j.peek() == '"' ? "\"" + j.str() : j.number();
                    vf_assert(got.insert(std::make_pair(a, v)).second, "every field is there once");
                }
                j.need('}');
                vf_assert(got == c.args, "further fields have their values");
            }
            if (j.peek() == '}') break;
            j.need(',');
        }
        j.need('}');
        vf_assert(keys.count("name") && keys.count("ph") && keys.count("ts") && keys.count("dur") && keys.count("tid"), "everything about the call is there");
    }
    vf_assert(seen == want.size(), "every call is written once");
    j.need(']'); j.need('}');
    vf_assert(j.peek() == -1, "nothing follows the end");
    std::cerr.rdbuf(old);
}
/* calls of one thread: properly nested, with any ties */
struct N { std::string label; uint64_t start, stop; };
static void generate(std::vector<N>& v, uint64_t from, uint64_t to, int depth)
{
    uint64_t at = from;
    for (int n = (int)vf_range("calls", 0, depth ? 3 : 4, 3); n; n--)
    {
        uint64_t b = at + vf_range("gap", 0, 2, 2);
        if (b > to) break;
        uint64_t e = b + vf_range("duration", 0, to - b, 12);
        static const char* names[] = { "a", "b", "c" };
        v.push_back(N{ names[vf_range("label", 0, 2, 2)], b, e });
        if (depth < 3) generate(v, b, e, depth + 1);
        at = e + (e == b || vf_bool("apart"));      /* calls that do not enclose one another: touching at most at an end */
        if (e > b && at == e && vf_bool("touch")) at = e;
    }
}
typedef std::vector<std::pair<std::shared_ptr<client::CallGraph::TreeNode>, int> > Nodes;
struct Ref { std::string label; uint64_t total, own_children; int count; std::vector<std::unique_ptr<Ref> > children; };
static void same(const Nodes& got, const std::vector<std::unique_ptr<Ref> >& want, const client::CallGraph::TreeNode* parent)
{
    vf_assert(got.size() == want.size(), "the calls with different labels under one parent");
    for (auto& w : want)
    {
        int found = 0;
        for (auto& g : got)
        {
            if (g.first->data.label != w->label) continue;
            found++;
            vf_assert(g.second == w->count, "calls with one label under one parent are counted");
            vf_assert(g.first->total_duration == w->total, "their durations are added up");
            vf_assert(g.first->total_children_duration == w->own_children, "the durations of the calls below are added up");
            vf_assert(g.first->parent.lock().get() == parent, "a call knows its parent");
            same(g.first->children, w->children, g.first.get());
        }
        vf_assert(found == 1, "every call is in the graph once");
    }
}
extern "C" void N_callgraph(void)
{
    std::vector<N> v;
    generate(v, vf_bool("late") ? (uint64_t)1 << 40 : 0, vf_bool("late") ? ((uint64_t)1 << 40) + 40 : 40, 0);
    /* no two calls with the same start and end: which of them encloses the other is open */
    for (size_t i = 0; i < v.size(); i++) for (size_t k = i + 1; k < v.size();) if (v[i].start == v[k].start && v[i].stop == v[k].stop) v.erase(v.begin() + (long)k); else k++;
    /* nor a call of no length at the end of another one or the start of the next: both may enclose it */
    for (size_t i = 0; i < v.size();)
    {
        size_t enclosing = 0, direct = 0;
        for (size_t k = 0; k < v.size(); k++) if (k != i && v[k].start <= v[i].start && v[k].stop >= v[i].stop)
        {
            enclosing++;
            int inner = 1;
            for (size_t m = 0; m < v.size(); m++) if (m != i && m != k && v[m].start <= v[i].start && v[m].stop >= v[i].stop && !(v[m].start <= v[k].start && v[m].stop >= v[k].stop)) inner = 0;
            direct += inner;
        }
        if (enclosing && !direct) v.erase(v.begin() + (long)i); else i++;
    }
    /* reference: the innermost enclosing call is the enclosing call that all other enclosing calls enclose */
    std::vector<int> parent(v.size(), -1);
    for (size_t i = 0; i < v.size(); i++)
        for (size_t k = 0; k < v.size(); k++)
            if (k != i && v[k].start <= v[i].start && v[k].stop >= v[i].stop && (parent[i] < 0 || (v[k].start >= v[(size_t)parent[i]].start && v[k].stop <= v[(size_t)parent[i]].stop))) parent[i] = (int)k;
    std::vector<size_t> order(v.size());
    for (size_t i = 0; i < v.size(); i++) order[i] = i;
    std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return v[a].start != v[b].start ? v[a].start < v[b].start : v[a].stop > v[b].stop; });
    std::vector<std::unique_ptr<Ref> > roots;
    std::vector<Ref*> ref(v.size());
    for (size_t i : order)
    {
        auto& list = parent[i] < 0 ? roots : ref[(size_t)parent[i]]->children;
        if (parent[i] >= 0) ref[(size_t)parent[i]]->own_children += v[i].stop - v[i].start;
        Ref* r = NULL;
        for (auto& c : list) if (c->label == v[i].label) r = c.get();
        if (!r) { list.emplace_back(new Ref()); r = list.back().get(); r->label = v[i].label; r->total = r->own_children = 0; r->count = 0; }
        r->total += v[i].stop - v[i].start;
        r->count++;
        ref[i] = r;
    }
    std::vector<client::CallGraph::NodeData> in;
    while (!v.empty()) { size_t k = (size_t)vf_range("next", 0, v.size() - 1, v.size() - 1); in.emplace_back(v[k].label, v[k].start, v[k].stop - v[k].start); v.erase(v.begin() + (long)k); }
    client::CallGraph g;
    Nodes got = g.make(in);
    same(got, roots, NULL);
}
extern "C" void N_callgrind(void)
{
    char dir[] = "/tmp/vf_callgrindXXXXXX";
    vf_assume(mkdtemp(dir) != NULL);
    std::string base = std::string(dir) + "/out";
    g_fields.clear();
    int threads = (int)vf_range("threads", 0, 2, 2);
    std::vector<std::vector<N> > calls((size_t)threads);
    {
        client::CallgrindConverter conv;
        vf_assert(conv.init(base), "the converter can be started");
        auto info = std::make_shared<EventKlass>("HT_EventKlassInfoEvent", 2);
        auto call = std::make_shared<EventKlass>("HT_CallstackEvent", 9);
        Event e(info);
        set(e, Field{ "info_klass_id", FieldTypeId::UINT32, 8, "" });
        set(e, Field{ "event_klass_name", FieldTypeId::STRING, 0, "HT_StringMappingEvent" });
        conv.process_event(e);
        std::vector<std::pair<size_t, N> > all;
        for (size_t t = 0; t < calls.size(); t++)
        {
            generate(calls[t], 0, 30, 0);
            for (auto& n : calls[t]) all.push_back(std::make_pair(t, n));
        }
        while (!all.empty())
        {
            size_t k = (size_t)vf_range("next", 0, all.size() - 1, all.size() - 1);
            Event c(call);
            set(c, Field{ "timestamp", FieldTypeId::UINT64, all[k].second.start, "" });
            set(c, Field{ "duration", FieldTypeId::UINT64, all[k].second.stop - all[k].second.start, "" });
            set(c, Field{ "thread_id", FieldTypeId::UINT32, 100 + all[k].first, "" });
            set(c, Field{ "label", FieldTypeId::STRING, 0, all[k].second.label });
            conv.process_event(c);
            all.erase(all.begin() + (long)k);
        }
        conv.stop();
    }
    for (size_t t = 0; t < calls.size(); t++)
    {
        std::string file = base + "." + std::to_string(100 + t);
        std::ifstream in(file);
        vf_assert(in.is_open() == !calls[t].empty(), "there is a file for every thread that has calls");
        std::string line, fn, cfn;
        uint64_t total = 0, spent = 0, count = 0;
        while (std::getline(in, line))
        {
            if (line.compare(0, 3, "fn=") == 0) { fn = line.substr(3); cfn.clear(); }
            else if (line.compare(0, 4, "cfn=") == 0) cfn = line.substr(4);
            else if (line.compare(0, 6, "calls=") == 0) { vf_assert(!cfn.empty(), "calls are from a function to another"); count += strtoull(line.c_str() + 6, NULL, 10); }
            else if (line.compare(0, 2, "1 ") == 0) { uint64_t v = strtoull(line.c_str() + 2, NULL, 10); if (cfn.empty()) spent += v; total++; }
        }
        /* the time of the thread is the time of its outermost calls, however it is spread over the functions */
        uint64_t outer = 0, end = 0;
        std::sort(calls[t].begin(), calls[t].end(), [](const N& a, const N& b) { return a.start != b.start ? a.start < b.start : a.stop > b.stop; });
        for (auto& n : calls[t]) if (n.stop > end) { outer += n.stop - std::max(n.start, end); end = n.stop; }
        vf_assert(spent == outer, "the times of all functions of a thread add up to the time of its outermost calls");
        unlink(file.c_str());
    }
    rmdir(dir);
}
extern "C" void N_maps(void)
{
    std::ostringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    char dir[] = "/tmp/vf_mapsXXXXXX";
    vf_assume(mkdtemp(dir) != NULL);
    std::map<uint64_t, std::string> want;
    std::string list;
    int files = (int)vf_range("files", 1, 3, 3);
    for (int f = 0; f < files; f++)
    {
        std::string name = std::string(dir) + "/m" + std::to_string(f);
        if (f) list += ",";
        list += name;
        if (vf_range("missing", 0, 5, 5) == 0) continue;
        std::ofstream o(name);
        for (int n = (int)vf_range("entries", 0, 4, 4); n; n--)
        {
            uint64_t id = vf_bool("big") ? ~(uint64_t)0 - vf_range("id", 0, 2, 2) : vf_range("id", 0, 5, 5);
            std::string label = "l" + std::to_string(vf_range("label", 0, 99, 99));
            o << "native " << label << " " << id << "\n";
            want[id] = label;
        }
    }
    client::TracepointMap m;
    m.load_maps(list);
    for (int n = (int)vf_range("further entries", 0, 3, 3); n; n--)
    {
        uint64_t id = vf_range("id", 0, 5, 5);
        std::string label = any_text("length of the label", 5);
        m.add_map_entry(id, label);
        want[id] = label;
    }
    for (uint64_t k = 0; k < 10; k++)
    {
        uint64_t id = k < 6 ? k : ~(uint64_t)0 - (k - 6);
        std::string expected = want.count(id) ? want[id] : std::to_string(id);
        vf_assert(m.get_label_info(id).label == expected && m.get_label_info(id).label == expected, "the label of the number, or the number");
    }
    for (int f = 0; f < files; f++) unlink((std::string(dir) + "/m" + std::to_string(f)).c_str());
    rmdir(dir);
    std::cerr.rdbuf(old);
}
