/* memory and CPU usage of a process (Linux): the figures come from the right fields of /proc/PID/statm and /proc/PID/stat.
   The files are given by their number of well-formed fields and the value of each field, stdio by ghosts. */
#include <stdio.h>
#include <unistd.h>
#include <pthread.h>
#include "vf.h"
#include "lib/alloc.c"
#include "hawktracer/monotonic_clock.h"

static const char* g_fmt; static int g_pid;         /* the file to be read, the process asked about */
static char* g_path; static int g_open, g_opened;
static char* g_buf; static size_t g_num, g_paren; static int g_has_paren, g_strchr;
static int g_count; static uint64_t g_field[16];    /* fields of the file (after the process name) */
static uint64_t g_now; static uint64_t g_page, g_tick;
static char g_file[8];

static int G_snprintf(char* b, size_t n, const char* fmt, int pid)
{
    vf_assert(strcmp(fmt, g_fmt) == 0 && pid == g_pid, "the file of the process is read");
    vf_assert(n >= 24 && vf_valid(b, n), "the path fits its buffer");
    g_path = b;
    return 20;
}
static FILE* G_fopen(const char* name, const char* mode)
{
    vf_assert(name == g_path && mode[0] == 'r', "the file of the process is read");
    vf_assert(!g_opened, "the file is opened once");
    if (vf_bool("fopen_fails")) return NULL;
    g_open = g_opened = 1;
    return (FILE*)g_file;
}
static size_t G_fread(void* p, size_t es, size_t n, FILE* f)
{
    vf_assert(f == (FILE*)g_file && g_open && es == 1, "the open file is read");
    vf_assert(vf_valid(p, n), "the file is read into valid memory");
    vf_assert(n >= 63, "the fields needed fit the buffer");
    g_num = vf_range("num", 0, 4096, 4096);
    vf_assume(g_num <= n);
    vf_havoc(p, g_num);
    g_buf = (char*)p;
    return g_num;
}
static int G_fclose(FILE* f) { vf_assert(f == (FILE*)g_file && g_open, "the open file is closed once"); g_open = 0; return 0; }
static char* G_strrchr(const char* s, int c)
{
    vf_assert(s == g_buf && g_buf[g_num] == 0, "the contents are searched, terminated");
    vf_assert(c == ')', "the end of the process name is searched");
    g_strchr = 1;
    vf_assume(!g_has_paren || g_paren < g_num);
    return g_has_paren ? g_buf + g_paren : NULL;
}
/* stores the fields the format asks for, as the C library does */
static int G_sscanf(const char* s, const char* fmt, void** a)
{
    vf_assert(g_buf[g_num] == 0, "the contents are terminated");
    vf_assert(s >= g_buf && s <= g_buf + g_num, "only the contents of the file are parsed");
    if (g_strchr) vf_assert(s == g_buf + g_paren + 2, "the fields after the process name are parsed");
    else vf_assert(s == g_buf, "the fields are parsed from the first one");
    int k = 0, nf = 0;
    for (const char* f = fmt; *f; f++)
    {
        if (*f == ' ') continue;
        if (*f != '%') vf_stop();
        f++;
        int skip = 0, l = 0;
        if (*f == '*') { skip = 1; f++; }
        while (*f == 'l') { l++; f++; }
        if (nf >= g_count) break;
        uint64_t v = g_field[nf++];
        if (skip) continue;
        if (*f == 'c') *(char*)a[k] = (char)v;
        else if (*f == 'd' || *f == 'u') { if (l) *(uint64_t*)a[k] = v; else { *(uint32_t*)a[k] = (uint32_t)v; } }
        else vf_stop();
        k++;
    }
    return g_count <= 0 ? -1 : k;
}
static long G_sysconf(int name)
{
    vf_assert(name == _SC_PAGESIZE || name == _SC_CLK_TCK, "a system constant");
    return name == _SC_PAGESIZE ? (long)g_page : (long)g_tick;
}
static int G_once(pthread_once_t* o, void (*f)(void))
{
    static int done;
    if (vf_bool("once_fails")) return 11;
    if (!done) { done = 1; f(); }
    return 0;
}
static int G_getpid(void) { return 4711; }
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }
#define snprintf(b, n, f, p) G_snprintf(b, n, f, p)
#define fopen G_fopen
#define fread G_fread
#define fclose G_fclose
#define strrchr G_strrchr
#define sscanf(s, f, ...) G_sscanf(s, f, (void*[]){__VA_ARGS__})
#define sysconf G_sysconf
#define getpid G_getpid
#define pthread_once G_once
#include "lib/platform/linux/memory_usage.c"
#include "lib/platform/linux/cpu_usage.c"

static void file(const char* fmt)
{
    g_fmt = fmt;
    g_pid = (int)vf_u32("pid");
    g_count = (int)vf_range("fields", 0, 16, 16);
    g_has_paren = vf_bool("has_paren");
    g_paren = vf_range("paren", 0, 1000, 1000);
    g_page = vf_range("page", 1, 1 << 30, 1 << 30);
    g_tick = vf_range("tick", 1, 1 << 30, 1 << 30);
    vf_unroll(200);
}
static void fields(void)
{
    g_field[0] = vf_u64("f0"); g_field[1] = vf_u64("f1"); g_field[2] = vf_u64("f2");
    g_field[11] = vf_u64("f11"); g_field[12] = vf_u64("f12");
}
/* any process, any contents, any failure, any choice of requested figures */
void H_memory(void)
{
    file("/proc/%d/statm"); fields();
    HT_MemoryUsageContext c; c.pid = g_pid;
    size_t v = 1, s = 2, r = 3;
    int wv = vf_bool("wv"), ws = vf_bool("ws"), wr = vf_bool("wr");
    int null = vf_bool("no_context");
    HT_ErrorCode e = ht_memory_usage_get_usage(null ? NULL : &c, wv ? &v : NULL, ws ? &s : NULL, wr ? &r : NULL);
    vf_assert(!g_open, "the file is closed");
    if (null) { vf_cover("no context"); vf_assert(e == HT_ERR_INVALID_ARGUMENT, "a missing context is refused"); return; }
    if (!wv && !ws && !wr) { vf_cover("nothing"); vf_assert(e == HT_ERR_OK, "nothing asked, nothing to do"); return; }
    if (!g_opened) { vf_cover("unreadable"); vf_assert(e == HT_ERR_CANT_OPEN_FILE, "a file that can not be opened is reported"); }
    else if (g_count < 3) { vf_cover("malformed"); vf_assert(e == HT_ERR_INVALID_FORMAT, "contents without the figures are reported"); }
    else
    {
        vf_cover("ok");
        vf_assert(e == HT_ERR_OK, "the figures are available");
        vf_assert(!wv || v == g_field[0] * g_page, "virtual memory is the first figure times the page size");
        vf_assert(!wr || r == g_field[1] * g_page, "resident memory is the second figure times the page size");
        vf_assert(!ws || s == g_field[2] * g_page, "shared memory is the third figure times the page size");
        return;
    }
    vf_assert(v == 1 && s == 2 && r == 3, "a failure reports no figures");
}
void H_memory_context(void)
{
    int pid = (int)vf_u32("pid"), own = vf_bool("own");
    vf_malloc_may_fail(1);
    int before = vf_live();
    HT_MemoryUsageContext* c = ht_memory_usage_context_create(own ? NULL : &pid);
    if (c == NULL) { vf_cover("oom"); vf_assert(vf_live() == before, "a failed creation leaks nothing"); return; }
    vf_cover("created");
    vf_assert(c->pid == (own ? 4711 : pid), "the process asked for, the own one by default");
    ht_memory_usage_context_destroy(c);
    vf_assert(vf_live() == before, "the context is released");
}
static int stat_readable(void) { return g_opened && g_has_paren && g_paren + 2 <= g_num && g_count >= 13; }
static int stat_ok(void) { return stat_readable() && g_num >= 80; }
/* one probe from any earlier state */
void H_cpu(void)
{
    file("/proc/%d/stat"); fields();
    HT_CPUUsageContext c; c.pid = g_pid;
    c.last_probe = vf_u64("last_probe"); c.last_total_time = vf_u64("last_total"); c.value = 0;
    uint64_t lp = c.last_probe, lt = c.last_total_time;
    g_now = vf_u64("now");
    _clock_ticks_per_sec = (long)g_tick;
    vf_assume(g_now > lp);
    float p = ht_cpu_usage_get_percentage(&c);
    vf_assert(!g_open, "the file is closed");
    if (stat_ok())
    {
        vf_cover("ok");
        vf_assert(c.last_total_time == g_field[11] + g_field[12], "the time used so far is user plus system time");
        vf_assert(c.last_probe == g_now, "the next probe measures from now on");
    }
    else if (stat_readable() && p != -1.0f) return;  /* contents of an unusual length may be refused or used */
    else
    {
        vf_cover("unreadable");
        vf_assert(p == -1.0f, "a failure is reported as a negative value");
        vf_assert(c.last_probe == lp && c.last_total_time == lt, "a failed probe changes nothing");
    }
}
void H_cpu_context(void)
{
    int pid = (int)vf_u32("ask"), own = vf_bool("own");
    file("/proc/%d/stat"); fields();
    g_pid = own ? 4711 : pid; g_now = vf_range("now", 1, VF_BIG, VF_BIG);
    vf_malloc_may_fail(1);
    int before = vf_live();
    HT_CPUUsageContext* c = ht_cpu_usage_context_create(own ? NULL : &pid);
    if (c == NULL) { vf_cover("oom"); vf_assert(vf_live() == before, "a failed creation leaks nothing"); return; }
    vf_cover("created");
    vf_assert(c->pid == g_pid, "the process asked for, the own one by default");
    vf_assert(_clock_ticks_per_sec == (long)g_tick, "the clock rate is known before the first probe");
    ht_cpu_usage_context_destroy(c);
    vf_assert(vf_live() == before, "the context is released");
}
/* bounded stand-in: the share itself, random states, up to floating point rounding */
void N_cpu_share(void)
{
    file("/proc/%d/stat"); fields();
    vf_assume(g_count >= 13 && g_has_paren && g_paren < 70);
    g_tick = vf_range("hz", 1, 1000, 1000);
    HT_CPUUsageContext c; c.pid = g_pid; c.value = 0;
    c.last_probe = vf_range("last_probe", 0, VF_BIG, VF_BIG); c.last_total_time = vf_range("last_total", 0, 1 << 20, 1 << 20);
    uint64_t lt = c.last_total_time, dt = vf_range("dt", 1000, VF_BIG, VF_BIG), used = vf_range("used", 0, 1 << 20, 1 << 20), sys = vf_range("sys", 0, lt + used, lt + used);
    g_field[11] = lt + used - sys; g_field[12] = sys;
    g_now = c.last_probe + dt;
    _clock_ticks_per_sec = (long)g_tick;
    float p = ht_cpu_usage_get_percentage(&c);
    if (!stat_ok()) return;
    double want = 100.0 * ((double)used / g_tick) / (dt / 1e9), d = p - want;
    vf_assert((d < 0 ? -d : d) <= want * 1e-3 + 1e-6, "CPU usage is the share of the elapsed time that was used");
}
