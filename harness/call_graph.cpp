/* The call graph: calls are taken by their start, the longer one first; each goes below the innermost enclosing one of the calls that are
   still open, or becomes a root; calls with one label under one parent are added up. */
#define VF_STRING_ID
#include "env_cpp.h"
extern "C" void* vf_weak_lock(void* p);
#define VF_WEAK_LOCK(p) ((T*)vf_weak_lock((void*)(p)))
#include <string>
#include <memory>
#include <vector>
#include <utility>
#include <mutex>
#include <unordered_map>
#include <stdexcept>
#include <cassert>
#include <cstring>
#include <algorithm>
namespace std { template <class I, class F> void sort(I f, I l, F less); template <class I, class F> void stable_sort(I f, I l, F less); }
#define private public
#include "client/call_graph.cpp"
using HawkTracer::client::CallGraph;
typedef CallGraph::TreeNode Node;
typedef CallGraph::NodeData Data;
typedef std::pair<std::shared_ptr<Node>, int> Entry;
typedef std::vector<Entry> Calls;

static CallGraph* g_graph;
static Data *g_x, *g_y, *g_events; static uint64_t g_n, g_next; static int g_sorted;
static Data* g_event; static Node* g_node; static Node* g_new; static int g_adds, g_below; static uint64_t g_children;
static Node* g_parent; static Calls* g_list; static int g_open;
static int encloses(const Node* n) { return vf_and(n->data.start_ts <= g_event->start_ts, g_event->stop_ts <= n->data.stop_ts); }
namespace std {
template <class I, class F> void sort(I f, I l, F less)
{
    vf_assert(&*f == g_events && (uint64_t)(l - f) == g_n, "all calls are put in order");
    int want = g_x->start_ts != g_y->start_ts ? g_x->start_ts < g_y->start_ts : g_x->stop_ts > g_y->stop_ts;
    vf_assert(less(*g_x, *g_y) == (want != 0), "calls are taken by their start, the longer one first");
    g_sorted = 1;
}
template <class I, class F> void stable_sort(I f, I l, F less) { sort(f, l, less); }
}
extern "C" {
uint64_t vf_string_id(const char* s) { return s[0] ? vf_u64("text") : 0; }
int vf_map_other_key(void) { return vf_bool("other key"); }
void C___ZdlPv(void* p) {}
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
void vf_mutex_unlock(void* m) {}
static void arbitrary(Node* n)
{
    n->data.label._id = vf_u64("label");
    n->data.start_ts = vf_u64("start");
    n->data.stop_ts = vf_u64("stop");
    n->total_duration = vf_u64("total");
    n->total_children_duration = g_children = vf_u64("total of the children");
}
/* going from an open call to the one enclosing it */
void* vf_weak_lock(void* p)
{
    vf_assert(p == (void*)g_parent, "the enclosing call is looked at next");
    vf_assert(!encloses(g_node), "a call that encloses the new one is not left");
    arbitrary(g_node);
    g_open = vf_bool("enclosed");
    return g_open ? g_node : NULL;
}
/* adding a call to a list of calls: decided by H_add_new_call */
std::shared_ptr<Node> C___ZN10HawkTracer6client9CallGraph13_add_new_callERKNS1_8NodeDataERKSt10shared_ptrINS1_8TreeNodeEERSt6vectorISt4pairIS7_iEE(CallGraph* g, const Data* d, const std::shared_ptr<Node>* parent, Calls* calls)
{
    vf_assert(g == g_graph && d->start_ts == g_event->start_ts && d->stop_ts == g_event->stop_ts && d->label._id == g_event->label._id, "the call is added as it is");
    if (parent->get())
    {
        vf_assert(parent->get() == g_node && g_open && encloses(g_node), "a call goes below one that encloses it");
        vf_assert(calls == &g_node->children, "a call goes to the children of the enclosing one");
        g_below = 1;
    }
    else
    {
        vf_assert(!g_open, "a call that is enclosed is not taken for a root");
        vf_assert(calls == &g->_root_calls, "a call that is not enclosed is a root");
    }
    g_adds++;
    std::shared_ptr<Node> r;
    r._p = g_new;
    return r;
}
static Data* any_data(const char* name)
{
    Data* d = (Data*)vf_raw(name, sizeof(Data));
    d->label._id = vf_u64("label");
    d->start_ts = vf_u64("start");
    d->stop_ts = vf_u64("stop");
    vf_assume(d->start_ts <= d->stop_ts);
    return d;
}
static int INV_walk(void) { return vf_and(g_graph->_current_call._p == (g_open ? g_node : NULL), vf_and(!g_adds, g_node->total_children_duration == g_children)); }
void H_add_event(void)
{
    CallGraph* g = (CallGraph*)vf_raw("graph", sizeof(CallGraph));
    g_graph = g;
    g_event = any_data("call");
    g_node = (Node*)vf_raw("open call", sizeof(Node));
    arbitrary(g_node);
    g_parent = (Node*)vf_raw("enclosing call", 8);
    g_node->parent._p = g_parent;
    g_new = (Node*)vf_raw("new call", sizeof(Node));
    g_open = vf_bool("open calls");
    g->_current_call._p = g_open ? g_node : NULL;
    vf_inv(INV_walk);
    vf_cover("pre");
    g->_add_event(*g_event);
    vf_inv_clear();
    vf_assert(g_adds == 1, "every call is added once");
    vf_assert(g->_current_call._p == g_new, "the call added is the innermost open one");
    if (g_below) { vf_cover("below"); vf_assert(g_node->total_children_duration == g_children + (g_event->stop_ts - g_event->start_ts), "the time of a call is added to the time spent below the enclosing one"); }
    else vf_cover("root");
}
static uint64_t g_j, g_label; static uint64_t g_k; static Node* g_found; static uint64_t g_total; static int g_count;
static void any_entry(size_t i, void* p)
{
    Entry* e = (Entry*)p;
    Node* n = (Node*)vf_raw("known call", sizeof(Node));
    uint64_t l = vf_u64("label of a known call");
    vf_assume(vf_imp(i != g_j, l != g_label));
    n->data.label._id = vf_ite(i == g_j, g_label, l);
    n->data.start_ts = vf_u64("start");
    n->data.stop_ts = vf_u64("stop");
    n->total_duration = vf_u64("total");
    n->total_children_duration = vf_u64("total of the children");
    e->first._p = n;
    e->second = (int)vf_range("times", 1, 1000000, 5);
}
void H_add_new_call(void)
{
    CallGraph* g = (CallGraph*)vf_raw("graph", sizeof(CallGraph));
    vf_malloc_may_fail(0);
    Data* d = any_data("call");
    Calls* c = (Calls*)vf_raw("calls", sizeof(Calls));
    c->_n = vf_range("known calls", 0, VF_BIG, 3);
    c->_c = c->_n;
    g_label = d->label._id;
    g_j = vf_u64("one with the label");
    c->_b = (Entry*)vf_lazy("list", c->_n, c->_c, sizeof(Entry), any_entry);
    std::shared_ptr<Node> parent;
    parent._p = vf_bool("root") ? NULL : (Node*)vf_raw("parent", sizeof(Node));
    uint64_t n = c->_n, total = 0, below = 0; int count = 0; Node* node = NULL;
    if (g_j < n) { node = c->_b[g_j].first._p; total = node->total_duration; below = node->total_children_duration; count = c->_b[g_j].second; }
    vf_watch(g_j * sizeof(Entry));
    vf_cover("pre");
    std::shared_ptr<Node> r = g->_add_new_call(*d, parent, *c);
    vf_assert(r._p != NULL && r->data.label._id == d->label._id && r->data.start_ts == d->start_ts && r->data.stop_ts == d->stop_ts, "the call is the last one of its label");
    if (g_j < n)
    {
        vf_cover("known");
        vf_assert(c->_n == n && r._p == node && c->_b[g_j].first._p == node, "calls with one label under one parent are one node");
        vf_assert(c->_b[g_j].second == count + 1, "the calls are counted");
        vf_assert(node->total_duration == total + (d->stop_ts - d->start_ts) && node->total_children_duration == below, "their times are added up");
    }
    else
    {
        vf_cover("new");
        vf_assert(c->_n == n + 1, "a call with another label is a node of its own");
        vf_assert(c->_b[n].first._p == r._p && c->_b[n].second == 1, "it was called once");
        vf_assert(r->total_duration == d->stop_ts - d->start_ts && r->total_children_duration == 0 && r->children._n == 0 && r->parent._p == parent._p, "a new node has the time of the call, its parent and no children");
    }
}
static void any_event(size_t i, void* p)
{
    Data* d = (Data*)p;
    d->label._id = vf_u64("label");
    d->start_ts = vf_u64("start");
    d->stop_ts = vf_u64("stop");
}
static int INV_order(void) { return vf_and(g_next <= g_n, g_sorted); }
static int g_making;
void C___ZN10HawkTracer6client9CallGraph10_add_eventERKNS1_8NodeDataE(CallGraph* g, const Data* d)
{
    vf_assert(g == g_graph && g_sorted, "calls are put in order before they are added");
    vf_assert(d == g_events + g_next, "calls are added in their order, each once");
    g_next++;
}
void H_make(void)
{
    CallGraph* g = (CallGraph*)vf_raw("graph", sizeof(CallGraph));
    g_graph = g;
    vf_malloc_may_fail(0);
    g_x = any_data("one call"); g_y = any_data("another call");
    Calls* c = &g->_root_calls;
    c->_n = c->_c = vf_range("roots", 0, VF_BIG, 3);
    c->_b = (Entry*)vf_obj("root calls", c->_n * sizeof(Entry));
    std::vector<Data>* v = (std::vector<Data>*)vf_raw("calls", sizeof(*v));
    g_n = v->_n = v->_c = vf_range("calls", 0, VF_BIG, 3);
    g_events = v->_b = (Data*)vf_lazy("events", g_n, g_n, sizeof(Data), any_event);
    g_next = 0; g_sorted = 0; g_making = 1;
    vf_inv(INV_order);
    vf_cover("pre");
    Calls r = g->make(*v);
    vf_inv_clear();
    vf_assert(g_next == g_n, "every call is added");
    vf_assert(r._n == c->_n, "the roots are returned");
    uint64_t k = vf_u64("k");
    if (k < r._n) vf_assert(r._b[k].first._p == c->_b[k].first._p && r._b[k].second == c->_b[k].second, "the roots are returned as they are");
}
void H_data(void)
{
    std::string name; name._id = vf_u64("label");
    uint64_t start = vf_u64("start"), dur = vf_u64("duration");
    vf_cover("pre");
    Data d(name, start, dur);
    vf_assert(d.label._id == name._id && d.start_ts == start && d.stop_ts == start + dur && d.get_duration() == dur, "a call has its label, start and duration");
}
}
