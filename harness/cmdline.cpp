/* Client command line, for any arguments and any registered options, watched at one arbitrary option name.
   A text is an identity: an argument has the identity of the whole text and that of what follows the prefix. */
#define VF_STRING_ID
#include "env_cpp.h"
#include <string>
#include <cstring>
#include <unordered_map>
typedef struct { int32_t idx; uint64_t text, option, len; size_t entry; uint32_t valid, known; char s[1]; } Arg;
#define HDR offsetof(Arg, s)
#define ARG_SIZE ((size_t)1000003)
#define NONE (-1)
#define EMPTY ((uint64_t)0)
static std::string g_key;                       /* the watched option */
namespace std {
/* the options given: only the watched one is represented */
template <> class unordered_map<string, string>
{
public:
    typedef pair<const string, string> value_type;
    typedef value_type* iterator; typedef const value_type* const_iterator;
    value_type *_w, *_o;                        /* the watched entry, some other entry */
    bool _has;
    unordered_map() : _w((value_type*)::operator new(sizeof(value_type))), _o((value_type*)::operator new(sizeof(value_type))), _has(false) {}
    value_type* look(const string& k) const { if (k == g_key) return _has ? _w : nullptr; if (!vf_map_other_key()) return nullptr; return _o; }
    iterator find(const string& k) { return look(k); }
    const_iterator find(const string& k) const { return look(k); }
    iterator end() { return nullptr; }
    const_iterator end() const { return nullptr; }
    const_iterator cend() const { return nullptr; }
    size_t count(const string& k) const { return look(k) != nullptr; }
    const string& at(const string& k) const { value_type* e = look(k); if (!e) throw out_of_range(); return e->second; }
    template <class P> pair<iterator, bool> insert(P&& p)
    {
        bool mine = p.first == g_key, set = vf_and(mine, !_has);
        _w->second._id = vf_ite(set, p.second._id, _w->second._id);
        _has = _has | set;
        return pair<iterator, bool>(mine ? _w : _o, vf_ite(mine, set, vf_u64("inserted") & 1));
    }
    template <class A, class B> pair<iterator, bool> emplace(A&& a, B&& b) { return insert(pair<string, string>(std::forward<A>(a), std::forward<B>(b))); }
    string& operator[](const string& k) { if (!(k == g_key)) return _o->second; if (!_has) insert(pair<string, string>(k, string())); return _w->second; }
    size_t erase(const string& k) { if (!(k == g_key) || !_has) return 0; _has = false; return 1; }
};
}
extern "C" {
size_t G_strlen(const char* s);
int G_strncmp(const char* a, const char* b, size_t n);
}
#define strlen G_strlen
#define strncmp G_strncmp
#define memcmp G_strncmp
#define private public
#include "client_utils/command_line_parser.cpp"
#undef strlen
#undef strncmp
#undef memcmp
using HawkTracer::ClientUtils::CommandLineParser;
typedef CommandLineParser::OptionInfo Info;
typedef std::unordered_map<std::string, Info> Known;
namespace std { template<> const string* vf_map_key_<string, Info>::key = &g_key; }

static CommandLineParser* g_p;
static char** g_argv; static int g_argc;
static uint64_t g_prefix; static size_t g_plen; static char* g_ptext;
/* the argument looked at next, the option being looked at, its value; what the watched option should be bound to */
static int32_t g_next, g_pending, g_value; static uint32_t g_valid, g_known, g_lacks; static uint64_t g_text, g_option, g_len; static size_t g_entry;
static int g_has, g_missing; static uint64_t g_val;
namespace std { template <> size_t vf_map_entry_<string, Info>::other(const string& k, size_t n, size_t j, int must)
{
    vf_assert(g_pending != NONE && k._id == g_option, "the name following the prefix is looked up");
    return g_known ? g_entry : n;
} }
extern "C" {
static int BOUND(void) { return vf_and(g_p->_actual_options._has == (g_has != 0), vf_imp(g_has, g_p->_actual_options._w->second._id == g_val)); }
static int OK_NEXT(void) { return vf_and(vf_and(g_pending < g_next, g_value < g_next), vf_and(g_next >= 1, g_next <= g_argc + 1)); }
static int OK_PENDING(void) { return vf_imp(g_pending != NONE, vf_and(g_pending < g_next, vf_and(vf_and(g_valid, g_known), !g_lacks))); }
int vf_map_other_key(void) { int there = vf_bool("another option given"); g_missing |= !there; return there; }
static Arg* arg_of(const char* s, size_t* off)
{
    size_t left = vf_objsize(s);
    if (left > ARG_SIZE - HDR || left < 500000) return NULL;
    *off = ARG_SIZE - HDR - left;
    return (Arg*)(s - *off - HDR);
}
static void expect(Arg* a)
{
    g_valid = a->valid; g_text = a->text; g_option = a->option; g_len = a->len;
    g_pending = a->idx;
    g_value = NONE;
    g_next = a->idx + 1;
    g_lacks = 0;
    if (!a->valid) return;
    Known* m = &g_p->_registered_options;
    int watched = a->option == g_key._id;
    g_known = (uint32_t)vf_ite(watched, m->_j < m->_n, a->known);
    g_entry = vf_ite(watched, m->_j, a->entry);
    if (!g_known) return;
    vf_assume(g_entry < m->_n);
    vf_assume(vf_imp(!watched, g_entry != m->_j));
    int flag = m->_e[g_entry].second.is_flag;
    uint64_t value = EMPTY;
    if (!flag)
    {
        if (a->idx + 1 >= g_argc) { g_lacks = 1; return; }
        g_next = a->idx + 2;
        g_value = a->idx + 1;
        size_t off;
        value = arg_of(g_argv[a->idx + 1], &off)->text;
    }
    int set = vf_and(watched, !g_has);
    g_val = vf_ite(set, value, g_val);
    g_has |= set;
}
/* an argument is touched: the one being looked at, its value, or the next one */
static Arg* look(const char* s, size_t* off)
{
    Arg* a = arg_of(s, off);
    if (!a) return NULL;
    if ((a->idx == g_pending) | (a->idx == g_value)) return a;
    vf_assert(a->idx == g_next, "arguments are looked at in order, the value of an option is not taken for an option");
    if (a->idx != g_next) vf_stop();
    vf_assert(vf_imp(g_pending != NONE, vf_and(vf_and(g_valid, g_known), !g_lacks)), "a wrong argument ends the parsing");
    vf_assert(BOUND(), "the option is bound to the value following it, to the first one if it is given again");
    expect(a);
    return a;
}
size_t G_strlen(const char* s)
{
    size_t off;
    if (s == g_ptext) return g_plen;
    Arg* a = look(s, &off);
    if (!a) return s[0] ? 1 : 0;
    return a->len - off;
}
int G_strncmp(const char* x, const char* y, size_t n)
{
    size_t off = 0;
    if (x == g_ptext) { const char* t = x; x = y; y = t; }
    Arg* a = look(x, &off);
    vf_assert(a != NULL && off == 0 && y == g_ptext && n == g_plen, "arguments are compared with the prefix");
    if (a->valid) return 0;
    int r = (int)vf_u32("compared");
    if (a->len > g_plen) vf_assume(r != 0);
    return r;
}
uint64_t vf_string_id(const char* s)
{
    if (s == g_ptext) return g_prefix;
    size_t off = 0;
    Arg* a = look(s, &off);
    if (!a) { if (vf_objsize(s) == 1) return EMPTY; return vf_u64("text"); }
    if (off == 0) return a->text;
    if (off == g_plen && a->len >= g_plen) return a->option;
    return vf_u64("part of a text");
}
size_t vf_string_length(uint64_t id) { if (id == g_prefix) return g_plen; if (id == EMPTY) return 0; if (g_pending != NONE && id == g_text) return g_len; return vf_u64("length"); }
uint64_t vf_string_concat(uint64_t a, uint64_t b) { return vf_u64("text"); }
uint64_t vf_string_append(uint64_t id, char c) { return vf_u64("text"); }
uint64_t vf_string_sub(uint64_t id, size_t pos, size_t n)
{
    if (id == g_text && pos == g_plen && n >= g_len - pos) return g_option;
    return vf_u64("part of a text");
}
int vf_string_compare(uint64_t id, size_t pos, size_t n, uint64_t o)
{
    vf_assert(id == g_text && pos == 0 && n == g_plen && o == g_prefix, "arguments are compared with the prefix");
    if (g_valid) return 0;
    int r = (int)vf_u32("compared");
    if (g_len > g_plen) vf_assume(r != 0);
    return r;
}
size_t vf_string_find(uint64_t id, uint64_t o) { return vf_string_compare(id, 0, g_plen, o) ? 1 : 0; }

static void any_arg(size_t i, void* p)
{
    Arg* a = (Arg*)vf_obj("arg", ARG_SIZE);
    a->idx = (int32_t)i;
    a->len = vf_range("length", 0, 100000, 5);
    a->valid = vf_bool("has the prefix and a name");
    a->known = vf_bool("is registered");
    vf_assume(vf_imp(a->valid, a->len > g_plen));
    /* the empty text, the prefix */
    vf_assume(vf_and((a->len == 0) == (a->text == EMPTY), vf_imp(a->len > g_plen, a->option != EMPTY)));
    vf_assume(vf_imp(a->text == g_prefix, a->len == g_plen));
    *(char**)p = a->s;
}
static uint64_t g_watched;
static void any_option(size_t i, void* e)
{
    Known::value_type* o = (Known::value_type*)e;
    uint64_t key = vf_u64("other option");
    vf_assume(vf_imp(i != g_watched, key != g_key._id));
    *(uint64_t*)&o->first = vf_ite(i == g_watched, g_key._id, key);
    o->second.is_flag = vf_bool("flag");
    o->second.is_mandatory = vf_bool("mandatory");
    o->second.help_msg._id = 0;
}
static CommandLineParser* any_parser(void)
{
    CommandLineParser* p = (CommandLineParser*)vf_raw("parser", sizeof(CommandLineParser));
    g_p = p;
    g_key._id = vf_u64("option");
    vf_assume(g_key._id != EMPTY);
    g_plen = vf_range("length of the prefix", 1, 1000, 2);
    g_ptext = (char*)vf_obj("prefix", g_plen + 1);
    g_prefix = (uint64_t)g_ptext;
    *(uint64_t*)&p->_prefix = g_prefix;
    *(uint64_t*)&p->_app_name = vf_u64("name");
    Known* m = &p->_registered_options;
    m->_n = vf_range("registered", 0, VF_BIG, 3);
    m->_c = m->_n;
    m->_j = vf_u64("watched");
    g_watched = m->_j;
    m->_e = (Known::value_type*)vf_lazy("options", m->_n, m->_n, sizeof(Known::value_type), any_option);
    p->_actual_options._w = (std::pair<const std::string, std::string>*)vf_obj("bound", 16);
    p->_actual_options._o = (std::pair<const std::string, std::string>*)vf_obj("bound otherwise", 16);
    p->_actual_options._has = vf_bool("given earlier");
    g_has = p->_actual_options._has;
    g_val = vf_u64("value");
    p->_actual_options._w->second._id = g_val;
    *(uint64_t*)&p->_actual_options._w->first = g_key._id;
    return p;
}
/* no-native H_parse */
void H_parse(void)
{
    CommandLineParser* p = any_parser();
    g_argc = (int)vf_range("argc", 0, 0x7fffff00, 5);
    g_argv = (char**)vf_lazy("argv", (size_t)g_argc, (size_t)g_argc, sizeof(char*), any_arg);
    g_next = 1; g_pending = g_value = NONE; g_missing = 0;
    Known* m = &p->_registered_options;
    int mandatory = 0;
    if (m->_j < m->_n) mandatory = m->_e[m->_j].second.is_mandatory;
    vf_watch(m->_j * sizeof(Known::value_type));
    vf_inv(BOUND); vf_inv(OK_NEXT); vf_inv(OK_PENDING);
    vf_cover("pre");
    bool ok = p->parse(g_argc, g_argv);
    int wrong = g_pending != NONE && !(g_valid && g_known && !g_lacks);
    if (ok)
    {
        vf_cover("accepted");
        vf_assert(!wrong, "a wrong argument is reported");
        vf_assert(g_next >= g_argc, "every argument is looked at");
        vf_assert(BOUND(), "the option is bound to the value following it, to the first one if it is given again");
        if (mandatory) vf_assert(g_has, "a missing mandatory option is reported");
    }
    else
    {
        vf_cover("refused");
        vf_assert(wrong || g_missing || (mandatory && !g_has), "only an error is reported");
    }
}
void H_register(void)
{
    CommandLineParser* p = any_parser();
    Known* m = &p->_registered_options;
    vf_malloc_may_fail(0);
    int was = m->_j < m->_n, flag = vf_bool("flag"), mandatory = vf_bool("mandatory"), old_flag = 0;
    if (was) old_flag = m->_e[m->_j].second.is_flag;
    std::string help; help._id = vf_u64("help");
    vf_cover("pre");
    static char store[sizeof(Info)];
    Info* info = new (store) Info(flag, mandatory, help);
    p->register_option(g_key, *info);
    if (was) vf_assert(m->_j < m->_n && m->_e[m->_j].second.is_flag == (bool)old_flag, "an option registered already stays as it is");
    else if (flag && mandatory) { vf_cover("refused"); vf_assert(m->_j >= m->_n, "a mandatory flag is refused"); }
    else
    {
        vf_cover("registered");
        vf_assert(m->_j < m->_n && m->_e[m->_j].first == g_key && m->_e[m->_j].second.is_flag == (bool)flag && m->_e[m->_j].second.is_mandatory == (bool)mandatory && m->_e[m->_j].second.help_msg._id == help._id, "an option is registered as given");
    }
}
void H_values(void)
{
    CommandLineParser* p = any_parser();
    std::string def; def._id = vf_u64("default");
    vf_cover("pre");
    vf_assert(p->has_value(g_key) == (g_has != 0), "an option has a value exactly when it was given");
    std::string v = p->get_value(g_key, def);
    vf_assert(v._id == (g_has ? g_val : def._id), "the value given, or the default");
}
}
