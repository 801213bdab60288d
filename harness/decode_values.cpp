/* Decoding of single values: integers of every size in either byte order, strings, type and size tables; any stream behaviour. */
#include "env_cpp.h"
#include <assert.h>
extern "C" {
#include "lib/system_info.c"
}
#define private public
#include "parser/event_klass.cpp"
#include "parser/protocol_reader.cpp"
using namespace HawkTracer::parser;

extern "C" {
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
void vf_mutex_unlock(void* m) {}
void* vf_thread_start(void* (*f)(void*), void* arg) { return (void*)1; }
void vf_thread_join(void* h) {}
void vf_thread_lost(void* h) {}
void vf_cv_wait(void* cv, void* m) {}
void vf_cv_notify(void* cv, int all) {}
int vf_map_other_key(void) { return 0; }
}

/* ---------------------------------------------------------------- byte order */
#define SWAP_HARNESS(T, U, SWAP) \
extern "C" void H_convert_##T(void) \
{ \
    U x = (U)vf_u64("x"); \
    HT_Endianness e = vf_bool("big") ? HT_ENDIANNESS_BIG : HT_ENDIANNESS_LITTLE; \
    vf_cover("pre"); \
    U r = (U)convert_endianness_to_native((T)x, e); \
    vf_assert(r == (e == HT_ENDIANNESS_LITTLE ? x : (U)SWAP(x)), "bytes are swapped exactly when the stream has the other byte order"); \
}
#define SAME(x) (x)
SWAP_HARNESS(uint8_t, uint8_t, SAME)
SWAP_HARNESS(int8_t, uint8_t, SAME)
SWAP_HARNESS(uint16_t, uint16_t, __builtin_bswap16)
SWAP_HARNESS(int16_t, uint16_t, __builtin_bswap16)
SWAP_HARNESS(uint32_t, uint32_t, __builtin_bswap32)
SWAP_HARNESS(int32_t, uint32_t, __builtin_bswap32)
SWAP_HARNESS(uint64_t, uint64_t, __builtin_bswap64)
SWAP_HARNESS(int64_t, uint64_t, __builtin_bswap64)

/* ---------------------------------------------------------------- tables */
static bool numeric(FieldTypeId t) { return (int)t <= (int)FieldTypeId::INT64; }
static size_t bytes_of(FieldTypeId t) { return t == FieldTypeId::POINTER ? 8 : (size_t)1 << ((int)t / 2); }
extern "C" void H_type_id(void)
{
    uint64_t size = vf_u64("size");
    uint8_t type = vf_u8("data type");
    int thrown = 0;
    FieldTypeId r = FieldTypeId::STRUCT;
    vf_cover("pre");
    try { r = get_type_id(size, (HT_MKCREFLECT_Types_Ext)type); } catch (const std::exception&) { thrown = 1; }
    bool sz = size == 1 || size == 2 || size == 4 || size == 8;
    switch (type)
    {
    case HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER:
    case HT_MKCREFLECT_TYPES_EXT_INTEGER:
        vf_assert(!thrown == sz, "integers of 1, 2, 4 and 8 bytes are decoded, others refused");
        if (!thrown)
        {
            vf_cover("integer");
            vf_assert(numeric(r) && bytes_of(r) == size, "the size of the integer");
            vf_assert(((int)r % 2 == 0) == (type == HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER), "the signedness of the integer");
        }
        break;
    case HT_MKCREFLECT_TYPES_EXT_STRING: vf_assert(!thrown && r == FieldTypeId::STRING, "strings"); break;
    case HT_MKCREFLECT_TYPES_EXT_STRUCT: vf_assert(!thrown && r == FieldTypeId::STRUCT, "structures"); break;
    case HT_MKCREFLECT_TYPES_EXT_POINTER: vf_assert(!thrown && r == FieldTypeId::POINTER, "pointers"); break;
    default: vf_cover("other"); vf_assert(thrown, "other kinds are refused"); break;
    }
}
static EventKlassField* any_field(FieldTypeId t)
{
    return new EventKlassField(std::string("f"), std::string("t"), t);
}
extern "C" void H_sizeof(void)
{
    FieldTypeId t = (FieldTypeId)vf_range("type", 0, (int)FieldTypeId::POINTER, 8);
    EventKlassField* f = any_field(t);
    vf_cover("pre");
    vf_assert(f->get_sizeof() == bytes_of(t), "every kind of number takes its size in the stream");
    vf_assert(f->is_numeric() == numeric(t), "numbers are told from other kinds");
    vf_assert(f->get_type_id() == t, "the kind of the field");
}

/* ---------------------------------------------------------------- readers */
static char* g_src; static size_t g_len, g_pos, g_w;    /* the stream: any bytes, ending anywhere */
static int g_bad, g_failed;
struct GStream : Stream
{
    int read_byte() override
    {
        vf_assert(!g_failed, "nothing is read after the end of the data");
        if (g_pos == g_len) { g_failed = 1; return -1; }
        return (unsigned char)g_src[g_pos++];
    }
    bool read_data(char* b, size_t n) override
    {
        vf_assert(!g_failed, "nothing is read after the end of the data");
        vf_assert(n == 0 || vf_valid(b, n), "the data read has room");
        if (g_len - g_pos < n) { g_failed = 1; return false; }
        memcpy(b, g_src + g_pos, n);
        g_pos += n;
        return true;
    }
    bool is_continuous() override { return false; }
};
static GStream* S;
static void any_stream(void)
{
    S = new GStream;
    g_len = vf_range("length of the data", 0, VF_BIG, 40);
    g_src = (char*)vf_obj("data", g_len);
    g_pos = vf_range("position", 0, VF_BIG, 40);
    vf_assume(g_pos <= g_len);
    g_failed = 0;
}
static ProtocolReader* R;
static void any_reader(void)
{
    any_stream();
    R = (ProtocolReader*)vf_raw("reader", sizeof(ProtocolReader));
    memset((void*)R, 0, sizeof *R);
    *(GStream**)&R->_stream = S;
    R->_endianness = vf_bool("big") ? HT_ENDIANNESS_BIG : HT_ENDIANNESS_LITTLE;
    R->_flat_events = vf_bool("flat");
}
extern "C" void H_read_numeric(void)
{
    any_reader();
    FieldTypeId t = (FieldTypeId)vf_range("type", 0, (int)FieldTypeId::INT64, 7);
    EventKlassField* f = any_field(t);
    FieldType v;
    v.f_UINT64 = 0;
    size_t p = g_pos, n = bytes_of(t);
    uint64_t raw = 0;
    if (g_len - p >= n) memcpy(&raw, g_src + p, n);
    vf_cover("pre");
    bool ok = R->_read_numeric(v, *f);
    vf_assert(ok == (g_len - p >= n), "a number is read exactly when all its bytes are there");
    if (!ok) return;
    vf_cover("read");
    vf_assert(g_pos == p + n, "a number takes its bytes from the stream");
    uint64_t e = raw;
    if (R->_endianness == HT_ENDIANNESS_BIG)
        e = n == 1 ? raw : n == 2 ? __builtin_bswap16((uint16_t)raw) : n == 4 ? __builtin_bswap32((uint32_t)raw) : __builtin_bswap64(raw);
    switch (t)
    {
    case FieldTypeId::UINT8: vf_assert(v.f_UINT8 == (uint8_t)e, "the value of the number"); break;
    case FieldTypeId::INT8: vf_assert(v.f_INT8 == (int8_t)e, "the value of the number"); break;
    case FieldTypeId::UINT16: vf_assert(v.f_UINT16 == (uint16_t)e, "the value of the number"); break;
    case FieldTypeId::INT16: vf_assert(v.f_INT16 == (int16_t)e, "the value of the number"); break;
    case FieldTypeId::UINT32: vf_assert(v.f_UINT32 == (uint32_t)e, "the value of the number"); break;
    case FieldTypeId::INT32: vf_assert(v.f_INT32 == (int32_t)e, "the value of the number"); break;
    case FieldTypeId::UINT64: vf_assert(v.f_UINT64 == e, "the value of the number"); break;
    default: vf_assert(v.f_INT64 == (int64_t)e, "the value of the number"); break;
    }
}
static size_t g_start;
static int INV_string(void)
{
    size_t n = g_pos - g_start;
    const char* d = (const char*)vf_loop_buf();
    return vf_and(vf_and(g_start <= g_pos, vf_and(g_pos <= g_len, g_failed == 0)),
                  vf_imp(g_w < n, vf_and(vf_peek(d, g_w, n) == vf_peek(g_src, g_start + g_w, g_len), vf_peek(g_src, g_start + g_w, g_len) != 0)));
}
static uint64_t READ(void) { return g_pos - g_start; }
extern "C" void H_read_string(void)
{
    any_reader();
    vf_malloc_may_fail(0);
    size_t w = vf_u64("w");
    g_w = w;
    g_start = g_pos;
    FieldType v;
    v.f_UINT64 = 0;
    vf_term(READ);
    vf_inv(INV_string);
    size_t live = vf_live();
    vf_cover("pre");
    bool ok = R->_read_string(v);
    size_t n = g_pos - g_start;
    if (!ok)
    {
        vf_cover("truncated");
        vf_assert(g_failed, "a string is refused only when the data ends in it");
        if (w < n) vf_assert(g_src[g_start + w] != 0, "a string is refused only when the data ends in it");
        vf_assert(vf_live() == live, "nothing is left of a string that is not complete");
        return;
    }
    vf_cover("read");
    vf_assert(!g_failed && n > 0 && g_src[g_pos - 1] == 0, "a string ends at the first terminator");
    vf_assert(vf_valid(v.f_STRING, n), "the string has its bytes");
    vf_assert(v.f_STRING[n - 1] == 0, "the string is terminated");
    if (w < n - 1)
    {
        vf_cover("content");
        vf_assert(v.f_STRING[w] == g_src[g_start + w], "the bytes of the string");
        vf_assert(v.f_STRING[w] != 0, "a string ends at the first terminator");
    }
}
