/* Trace input from a file: exactly the bytes of the file in order, every value included; the end only at the end, a short read is a failure. */
#define VF_STRING_ID
#include "env_cpp.h"
#include <string>
#include <cstdio>
#undef getc
extern "C" {
FILE* G_fopen(const char* name, const char* mode);
int G_fclose(FILE* f);
size_t G_fread(void* p, size_t s, size_t n, FILE* f);
int G_fgetc(FILE* f);
int G_feof(FILE* f);
int G_ferror(FILE* f);
}
#define fopen G_fopen
#define fclose G_fclose
#define fread G_fread
#define fgetc G_fgetc
#define getc G_fgetc
#define feof G_feof
#define ferror G_ferror
#define private public
#include "parser/file_stream.cpp"
using HawkTracer::parser::FileStream;

/* the file: an array of bytes, the first g_good of which can be read (g_good < g_len: a read error) */
static char* g_bytes; static uint64_t g_len, g_good, g_pos;
static FILE* g_file; static int g_open, g_opens, g_closes, g_eof, g_err;
static char* g_dst; static uint64_t g_w;
extern "C" {
uint64_t vf_string_id(const char* s) { return (uint64_t)s; }
uint64_t vf_string_append(uint64_t id, char c) { return id + 1; }
int vf_map_other_key(void) { return 0; }
void C___ZdlPv(void* p) {}
static uint64_t g_name;
FILE* G_fopen(const char* name, const char* mode)
{
    vf_assert((uint64_t)name == g_name, "the file asked for is opened");
    vf_assert(mode[0] == 'r' && mode[1] == 'b', "the file is opened for reading as it is");
    vf_assert(!g_open, "a file that is open already is closed first");
    if (vf_bool("no such file")) return NULL;
    g_open = 1; g_opens++; g_pos = 0;
    return g_file;
}
int G_fclose(FILE* f) { vf_assert(f == g_file && g_open, "only the open file is closed"); g_open = 0; g_closes++; return 0; }
static int use(FILE* f) { vf_assert(f == g_file && g_open, "only the open file is read"); return 1; }
size_t G_fread(void* p, size_t s, size_t n, FILE* f)
{
    use(f);
    uint64_t left = g_good - g_pos;
    if (s == 0 || n == 0) return 0;
    uint64_t items = n;
    if (s == 1) { if (left < n) items = left; }
    else if (n == 1) { if (left < s) items = 0; }
    else vf_assert(0, "bytes are read");
    uint64_t bytes = s == 1 ? items : left < s ? left : s;
    if (items < n) { if (g_good < g_len) g_err = 1; else g_eof = 1; }
    vf_assert(vf_valid(p, s == 1 ? n : s), "the bytes are read into the destination");
    uint64_t off = (uint64_t)(g_dst + g_w) - (uint64_t)p;
    if (g_dst) { if (off < bytes) g_dst[g_w] = g_bytes[g_pos + off]; }
    else if (bytes) *(char*)p = g_bytes[g_pos];
    g_pos += bytes;
    return items;
}
int G_fgetc(FILE* f)
{
    use(f);
    if (g_pos == g_good) { if (g_good < g_len) g_err = 1; else g_eof = 1; return EOF; }
    return (int)(unsigned char)g_bytes[g_pos++];
}
int G_feof(FILE* f) { use(f); return g_eof; }
int G_ferror(FILE* f) { use(f); return g_err; }

static FileStream* any_stream(void)
{
    FileStream* s = (FileStream*)vf_raw("stream", sizeof(FileStream));
    g_file = (FILE*)vf_raw("file", 8);
    g_len = vf_range("length of the file", 0, VF_BIG, 8);
    g_good = vf_u64("readable");
    g_pos = vf_u64("read before");
    vf_assume(g_good <= g_len && g_pos <= g_good);
    g_bytes = (char*)vf_obj("bytes", g_len + 1);
    g_name = vf_u64("name");
    *(uint64_t*)&s->_file_name = g_name;
    g_open = vf_bool("open");
    s->_file = g_open ? g_file : NULL;
    return s;
}
void H_read_byte(void)
{
    FileStream* s = any_stream();
    vf_assume(g_open);
    uint64_t pos = g_pos;
    vf_cover("pre");
    int r = s->FileStream::read_byte();
    if (pos < g_good)
    {
        vf_cover("byte");
        vf_assert(r == (int)(unsigned char)g_bytes[pos], "the next byte is returned, whatever its value");
        vf_assert(g_pos == pos + 1, "one byte is taken");
    }
    else
    {
        vf_cover("end");
        vf_assert(r < 0 && g_pos == pos, "the end of the file and a read error are told from every byte");
    }
}
void H_read_data(void)
{
    FileStream* s = any_stream();
    vf_assume(g_open);
    uint64_t pos = g_pos, size = vf_range("size", 1, VF_BIG, 8);
    char* dst = (char*)vf_raw("destination", size);
    g_dst = dst; g_w = vf_u64("w");
    vf_assume(g_w < size);
    vf_cover("pre");
    bool ok = s->FileStream::read_data(dst, size);
    vf_assert(ok == (size <= g_good - pos), "a read is reported as failed exactly when bytes are missing");
    if (ok)
    {
        vf_cover("read");
        vf_assert(g_pos == pos + size, "exactly the bytes asked for are taken");
        vf_assert(dst[g_w] == g_bytes[pos + g_w], "the bytes are delivered as they are in the file, in order");
    }
    else vf_cover("short");
}
void H_read_nothing(void)
{
    FileStream* s = any_stream();
    vf_assume(g_open);
    uint64_t pos = g_pos;
    char c;
    vf_cover("pre");
    vf_assert(s->FileStream::read_data(&c, 0) && g_pos == pos, "reading no bytes succeeds and takes none");
}
void H_start(void)
{
    g_file = (FILE*)vf_raw("file", 8);
    g_name = vf_u64("name");
    std::string name;
    *(uint64_t*)&name = g_name;
    vf_malloc_may_fail(0);
    FileStream* s = new FileStream(name);
    vf_assert(s->_file == NULL, "a new stream has no file");
    vf_cover("pre");
    bool ok = s->FileStream::start();
    vf_assert(ok == g_open && g_opens <= 1, "starting succeeds exactly when the file could be opened");
    if (ok) vf_cover("opened"); else vf_cover("failed");
    if (ok) vf_assert(g_pos == 0, "the file is read from its start");
    s->FileStream::stop();
    vf_assert(!g_open && g_closes == ok, "the file is closed");
    s->FileStream::stop();
    vf_assert(!g_open && g_closes == ok, "the file is closed once");
}
void H_stop(void)
{
    FileStream* s = any_stream();
    int was = g_open;
    vf_cover("pre");
    s->FileStream::stop();
    vf_assert(!g_open && g_closes == was, "an open file is closed, once");
    vf_assert(s->_file == NULL, "a closed file is not used again");
}
}
