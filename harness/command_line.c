/* Library command line.  Arguments: any number, each one of the options or an arbitrary text; a text may be a number
   that fits (value), a number followed by something else, a number out of range, or no number at all. */
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#include "hawktracer/base_types.h"

enum { OTHER, SIZE_OPT, HELP_OPT };
enum { JUNK, NUMBER, TRAILING, TOO_BIG, NEGATIVE };
typedef struct { uint64_t idx; uint32_t kind, num; uint64_t value, n; char s[1]; } Arg;
#define HDR offsetof(Arg, s)
#define ARG_SIZE ((size_t)1000003)
static const char SIZE_TEXT[] = "--ht-global-timeline-buffer-size";
static char** g_argv; static int g_argc;
/* the next argument that has to be looked at, the option waiting for its effect and its value */
static uint64_t g_next, g_pending, g_value;
static uint32_t g_kind, g_num; static uint64_t g_val;
static int g_sets, g_msgs, g_expect_set, g_expect_msg;
#define NONE (~(uint64_t)0)

static Arg* arg_of(const char* s) { return vf_objsize(s) == ARG_SIZE - HDR ? (Arg*)(s - HDR) : NULL; }
static void settle(void)
{
    vf_assert(g_sets == g_expect_set, "the buffer size is set exactly when the option is followed by a number that fits");
    vf_assert(g_msgs == g_expect_msg, "a malformed option is reported, nothing else is");
}
static int inv_settled(void) { return g_sets == g_expect_set && g_msgs == g_expect_msg; }
static int inv_next(void) { return g_next >= 1 && g_next <= (uint64_t)g_argc + 1; }
static int inv_pending(void) { return g_pending == NONE || g_pending < g_next; }
static void expect(Arg* a)
{
    g_sets = g_msgs = g_expect_set = g_expect_msg = 0;
    g_value = NONE;
    g_next = a->idx + 1;
    g_kind = a->kind;
    if (a->kind == SIZE_OPT)
    {
        g_next = a->idx + 2;
        if (a->idx + 1 < (uint64_t)g_argc) { Arg* v = arg_of(g_argv[a->idx + 1]); g_value = v->idx; g_num = v->num; g_val = v->value; }
        g_expect_set = g_value != NONE && g_num == NUMBER;
        g_expect_msg = !g_expect_set;
    }
    g_pending = a->idx;
}
static int spec_strcmp(const char* a, const char* b)
{
    Arg* x = arg_of(a);
    const char* lit = b;
    if (!x) { x = arg_of(b); lit = a; }
    vf_assert(x != NULL, "an argument is compared");
    if (x == NULL) vf_stop();
    if (x->idx != g_pending)
    {
        settle();
        vf_assert(x->idx == g_next, "arguments are looked at in order, the value of an option is not taken for an option");
        expect(x);
    }
    int opt = lit[5] == 'g' ? SIZE_OPT : HELP_OPT;
    return x->kind == opt ? 0 : 1;
}
static unsigned long spec_strtoul(const char* s, char** end, int base)
{
    Arg* a = arg_of(s);
    vf_assert(a != NULL, "an argument is parsed");
    vf_assert(base == 10 && a->idx == g_value, "the value of the option is parsed");
    if (end) *end = (char*)s + (a->num == JUNK ? 0 : a->n);
    if (a->num == TOO_BIG) { errno = ERANGE; return ~0ul; }
    if (a->num == JUNK) return 0;
    return a->num == NEGATIVE ? -a->value : a->value;
}
static int spec_printf(const char* f, ...) { g_msgs++; return 1; }
static void spec_exit(int rc)
{
    vf_assert(g_pending != NONE && g_kind == HELP_OPT, "only the help option ends the program");
    vf_stop();
}
static char* spec_strchr(const char* s, int c)
{
    Arg* a = arg_of(s);
    vf_assert(c == '-' && a->idx == g_value, "sign test of the value");
    return a->num == NEGATIVE ? (char*)s : NULL;
}
#define strchr spec_strchr
#define strcmp spec_strcmp
#define strtoul spec_strtoul
#define printf spec_printf
#define exit spec_exit
#include "lib/command_line_parser.c"
#undef strcmp
#undef strtoul
#undef printf
#undef exit
#undef strchr

void ht_global_timeline_set_buffer_size(size_t v)
{
    g_sets++;
    vf_assert(g_value != NONE && v == g_val, "the buffer size is the number given");
}

static void any_arg(size_t i, void* p)
{
    Arg* a = (Arg*)vf_obj("arg", ARG_SIZE);
    a->idx = i;
    a->kind = (uint32_t)vf_range("kind", OTHER, HELP_OPT, HELP_OPT);
    a->num = (uint32_t)vf_range("number", JUNK, NEGATIVE, NEGATIVE);
    a->value = vf_u64("value");
    a->n = vf_range("digits", 1, 900000, 5);
    if (a->kind != OTHER) vf_assume(a->num == JUNK);
    if (a->num == NUMBER || a->num == TOO_BIG || a->num == NEGATIVE) a->s[a->n] = 0;
    else if (a->num == TRAILING) vf_assume(a->s[a->n] != 0);
    *(char**)p = a->s;
}
/* no-native H_parse */
void H_parse(void)
{
    g_argc = (int)vf_range("argc", 0, 0x7fffff00, 5);
    g_argv = (char**)vf_lazy("argv", (size_t)g_argc, (size_t)g_argc, sizeof(char*), any_arg);
    g_next = 1; g_pending = g_value = NONE; g_sets = g_msgs = g_expect_set = g_expect_msg = 0;
    vf_inv(inv_settled); vf_inv(inv_next); vf_inv(inv_pending);
    vf_unroll(3);
    vf_cover("pre");
    ht_command_line_parse_args(g_argc, g_argv);
    settle();
    vf_assert(g_next >= (uint64_t)g_argc, "every argument was looked at");
}
