/* Native cross-check of the library command line with real strings. */
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
#include "hawktracer/base_types.h"
static int g_msgs, g_sets; static size_t g_v;
static int count_msg(const char* f, ...) { (void)f; g_msgs++; return 1; }
static int g_exit;
#include <setjmp.h>
static jmp_buf g_jmp;
static void stop(int rc) { (void)rc; g_exit = 1; longjmp(g_jmp, 1); }
#define printf count_msg
#define exit stop
#include "lib/command_line_parser.c"
#undef printf
#undef exit
void ht_global_timeline_set_buffer_size(size_t v) { g_sets++; g_v = v; }
static char* dup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); vf_assume(p != NULL); memcpy(p, s, n); return p; }
static const char* pool[] = { "--ht-global-timeline-buffer-size", "--ht-global-timeline-buffer-size", "--ht-global-timeline-buffer-siz", "--ht-global-timeline-buffer-size2",
    "77", "0", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-5", "12abc", "abc", "", "1 ", "x", "--ht-help", "--ht-helpx", "7-" };
static const int fits[] = { 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
static const size_t val[] = { 0, 0, 0, 0, 77, 0, ~(size_t)0 };
void N_parse(void)
{
    int argc = (int)vf_range("argc", 0, 6, 6);
    char* argv[7] = { 0 }; int k[7];
    for (int i = 0; i < argc; i++) { k[i] = (int)vf_range("arg", 0, 17, 17); argv[i] = dup(pool[k[i]]); }
    char** v = (char**)malloc(sizeof(char*) * (argc + 1)); vf_assume(v != NULL);
    memcpy(v, argv, sizeof(char*) * argc); 
    char** exact = (char**)malloc(argc ? sizeof(char*) * argc : 1); vf_assume(exact != NULL);
    memcpy(exact, argv, sizeof(char*) * argc);
    int sets = 0, help = 0, bad = 0; size_t last = 0;
    for (int i = 1; i < argc; i++)
    {
        if (k[i] < 2) { i++; if (i < argc && fits[k[i]]) { sets++; last = val[k[i]]; } else bad++; }
        else if (k[i] == 15) { help = 1; break; }
    }
    g_msgs = g_sets = g_exit = 0; g_v = 0;
    if (!setjmp(g_jmp)) ht_command_line_parse_args(argc, exact);
    vf_assert(g_exit == help, "the help option ends the program, nothing else does");
    vf_assert(g_sets == sets && (!sets || g_v == last), "the buffer size is set exactly by an option followed by a number that fits");
    if (!help) vf_assert(g_msgs == bad, "every malformed option is reported");
}
