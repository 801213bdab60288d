/* Growable array (bag) and variable-size stack: contents survive growth, shrinking, removal and failed allocation;
   the stack is last-in first-out.  One operation from an arbitrary state satisfying the representation invariant,
   watched at an arbitrary index. */
#include "vf.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/stack.c"
/* an element bigger than a pointer, like the listener entries of timeline_listener.c */
typedef struct { void* a; void* b; void* c; } Entry;
HT_DECLARE_BAG_TYPE(Entry, _entry, Entry)
HT_DEFINE_BAG_TYPE(Entry, _entry, Entry)

#define BAG_OBJ(b, T) do { \
    b.min_capacity = vf_range("min_capacity", 1, VF_BIG, 4); \
    b.capacity = vf_range("capacity", 1, VF_BIG, 20); \
    b.size = vf_range("size", 0, VF_BIG, 20); \
    vf_assume(b.min_capacity <= b.capacity); \
    vf_assume(b.size <= b.capacity); \
    b.data = (T*)vf_obj("data", b.capacity * sizeof(T)); \
    vf_heapify(b.data); } while (0)

#define BAG_HARNESS(NAME, BAG, M, T, EQ, FRESH) \
void H_##NAME##_add(void) \
{ \
    BAG b; BAG_OBJ(b, T); \
    vf_malloc_may_fail(1); \
    size_t n = b.size, w = vf_range("w", 0, VF_BIG, 20); \
    vf_assume(w < n || n == 0); \
    T old; if (n) old = b.data[w]; \
    T v; FRESH(v); \
    HT_ErrorCode rc = M##_add(&b, v); \
    vf_cover("post"); \
    if (rc == HT_ERR_OK) { vf_assert(b.size == n + 1, "add appends one element"); vf_assert(EQ(b.data[n], v), "the element added is stored last"); } \
    else { vf_cover("oom"); vf_assert(b.size == n, "a failed add changes nothing"); } \
    vf_assert(b.size <= b.capacity, "size within capacity"); \
    vf_assert(vf_valid(b.data, b.capacity * sizeof(T)), "the array has room for capacity elements"); \
    if (n) vf_assert(EQ(b.data[w], old), "add preserves every stored element"); \
    M##_deinit(&b); \
    vf_assert(vf_live() == 0, "deinit releases the array"); \
} \
void H_##NAME##_remove(void) \
{ \
    BAG b; BAG_OBJ(b, T); \
    vf_malloc_may_fail(1); \
    vf_assume(b.size >= 1); \
    size_t n = b.size, r = vf_range("r", 0, VF_BIG, 20), w = vf_range("w", 0, VF_BIG, 20); \
    vf_assume(r < n); vf_assume(w < n); \
    T old = b.data[w]; T last = b.data[n - 1]; \
    M##_remove_nth(&b, r); \
    vf_cover("post"); \
    vf_assert(b.size == n - 1, "remove drops one element"); \
    vf_assert(b.size <= b.capacity, "size within capacity"); \
    vf_assert(vf_valid(b.data, b.capacity * sizeof(T)), "the array has room for capacity elements"); \
    if (w < n - 1 && w != r) vf_assert(EQ(b.data[w], old), "remove preserves the other elements"); \
    if (r < n - 1) vf_assert(EQ(b.data[r], last), "the hole is filled with the last element"); \
    vf_assert(b.capacity >= 1, "capacity stays positive"); \
    M##_deinit(&b); \
    vf_assert(vf_live() == 0, "deinit releases the array"); \
} \
void H_##NAME##_clear(void) \
{ \
    BAG b; BAG_OBJ(b, T); \
    vf_malloc_may_fail(1); \
    M##_clear(&b); \
    vf_cover("post"); \
    vf_assert(b.size == 0, "clear empties"); \
    vf_assert(b.capacity >= b.min_capacity, "capacity stays positive"); \
    vf_assert(vf_valid(b.data, b.capacity * sizeof(T)), "the array has room for capacity elements"); \
    T v; FRESH(v); \
    if (M##_add(&b, v) == HT_ERR_OK) { vf_assert(b.size == 1 && EQ(b.data[0], v), "usable after clear"); } \
    M##_deinit(&b); \
    vf_assert(vf_live() == 0, "deinit releases the array"); \
} \
void H_##NAME##_init(void) \
{ \
    BAG b; size_t m = vf_range("min_capacity", 1, VF_BIG, 8); \
    vf_malloc_may_fail(1); \
    HT_ErrorCode rc = M##_init(&b, m); \
    vf_cover("post"); \
    if (rc == HT_ERR_OK) { \
        vf_assert(b.size == 0 && b.capacity >= 1 && b.min_capacity <= b.capacity, "empty after init"); \
        vf_assert(vf_valid(b.data, b.capacity * sizeof(T)), "the array has room for capacity elements"); \
        M##_deinit(&b); \
    } else vf_cover("oom"); \
    vf_assert(vf_live() == 0, "nothing leaked"); \
}
#define SCALAR_EQ(x, y) ((x) == (y))
#define SCALAR_FRESH(v) v = vf_u64("v")
#define PTR_FRESH(v) v = (void*)(uintptr_t)vf_u64("v")
#define ENTRY_EQ(x, y) (vf_and(vf_and((x).a == (y).a, (x).b == (y).b), (x).c == (y).c))
#define ENTRY_FRESH(x) do { (x).a = (void*)(uintptr_t)vf_u64("a"); (x).b = (void*)(uintptr_t)vf_u64("b"); (x).c = (void*)(uintptr_t)vf_u64("c"); } while (0)
BAG_HARNESS(bag_u64, HT_BagUInt64, ht_bag_uint64, uint64_t, SCALAR_EQ, SCALAR_FRESH)
BAG_HARNESS(bag_int, HT_BagInt, ht_bag_int, int, SCALAR_EQ, SCALAR_FRESH)
BAG_HARNESS(bag_ptr, HT_BagVoidPtr, ht_bag_void_ptr, void*, SCALAR_EQ, PTR_FRESH)
BAG_HARNESS(bag_entry, HT_BagEntry, ht_bag_entry, Entry, ENTRY_EQ, ENTRY_FRESH)

/* ---------------------------------------------------------------- stack */
static HT_Stack s;
static size_t n, sz, w, k;
static HT_Byte ow; static uint64_t ok;
static int what; /* 0: contents, 1: element boundaries */
static void arbitrary_stack(void)
{
    s.min_capacity = vf_range("min_capacity", 1, VF_BIG, 4);
    s.capacity = vf_range("capacity", 1, VF_BIG, 24);
    s.size = sz = vf_range("size", 0, VF_BIG, 24);
    vf_assume(s.min_capacity <= s.capacity);
    vf_assume(s.size <= s.capacity);
    s.data = vf_obj("data", s.capacity);
    vf_heapify(s.data);
    BAG_OBJ(s.sizes_stack, void*);
    n = s.sizes_stack.size;
    vf_assume(vf_peek64(s.sizes_stack.data, n - 1, n) <= sz);
    vf_assume(vf_imp(n > 1, vf_peek64(s.sizes_stack.data, n - 2, n) <= vf_peek64(s.sizes_stack.data, n - 1, n)));
    w = vf_range("w", 0, VF_BIG, 24);
    k = vf_range("k", 0, VF_BIG, 20);
    if (what == 0) ow = vf_peek(s.data, w, sz);
    else ok = vf_peek64(s.sizes_stack.data, k, n);
}
static void stack_ok(size_t n2, size_t sz2, size_t keptn, size_t kept)
{
    vf_assert(s.size <= s.capacity, "size within capacity");
    vf_assert(vf_valid(s.data, s.capacity), "the stack has room for capacity bytes");
    vf_assert(s.sizes_stack.size <= s.sizes_stack.capacity, "size within capacity");
    vf_assert(vf_valid(s.sizes_stack.data, s.sizes_stack.capacity * sizeof(void*)), "the array has room for capacity elements");
    vf_assert(s.sizes_stack.size == n2, "the number of elements is right");
    vf_assert(s.size == sz2, "the total size is right");
    if (what == 1) vf_assert(vf_peek64(s.sizes_stack.data, n2 - 1, n2) <= sz2, "offsets within the contents");
    if (what == 0) vf_assert(vf_imp(w < kept, vf_peek(s.data, w, kept) == ow), "the elements below are preserved");
    if (what == 1) vf_assert(vf_imp(k < keptn, vf_peek64(s.sizes_stack.data, k, keptn) == ok), "the element boundaries are preserved");
    vf_assert(s.capacity >= 1, "capacity stays positive");
}
static void push(void)
{
    vf_unroll(64);
    arbitrary_stack();
    vf_malloc_may_fail(1);
    size_t len = vf_range("len", 0, VF_BIG, 40);
    HT_Byte* d = (HT_Byte*)vf_obj("d", len);
    size_t x = vf_range("x", 0, VF_BIG, 40);
    vf_cover("pre");
    HT_ErrorCode rc = ht_stack_push(&s, d, len);
    if (rc == HT_ERR_OK)
    {
        vf_cover("ok");
        stack_ok(n + 1, sz + len, n, sz);
        if (what == 1) vf_assert((HT_Byte*)ht_stack_top(&s) == (HT_Byte*)s.data + sz, "the element pushed is on top");
        if (what == 0) vf_assert(vf_peek((HT_Byte*)s.data + sz, x, len) == vf_peek(d, x, len), "the top holds the bytes pushed");
    }
    else
    {
        vf_cover("oom");
        stack_ok(n, sz, n, sz);
    }
    ht_stack_deinit(&s);
    vf_assert(vf_live() == 0, "deinit releases everything");
}
static void pop(void)
{
    arbitrary_stack();
    vf_malloc_may_fail(1);
    vf_assume(n >= 1);
    size_t top = (size_t)s.sizes_stack.data[n - 1];
    vf_cover("pre");
    ht_stack_pop(&s);
    vf_cover("post");
    stack_ok(n - 1, top, n - 1, top);
    ht_stack_deinit(&s);
    vf_assert(vf_live() == 0, "deinit releases everything");
}
static void stack_ok0(void)
{
    vf_assert(vf_valid(s.data, s.capacity), "the stack has room for capacity bytes");
    vf_assert(vf_valid(s.sizes_stack.data, s.sizes_stack.capacity * sizeof(void*)), "the array has room for capacity elements");
}
void H_stack_push_contents(void) { what = 0; push(); }
void H_stack_push_boundaries(void) { what = 1; push(); }
void H_stack_pop_contents(void) { what = 0; pop(); }
void H_stack_pop_boundaries(void) { what = 1; pop(); }
void H_stack_init(void)
{
    size_t c = vf_range("c", 1, VF_BIG, 8), m = vf_range("m", 1, VF_BIG, 8);
    vf_malloc_may_fail(1);
    HT_ErrorCode rc = ht_stack_init(&s, c, m);
    vf_cover("post");
    if (rc == HT_ERR_OK)
    {
        vf_assert(s.size == 0 && s.sizes_stack.size == 0, "empty after init");
        vf_assert(s.capacity >= 1 && s.min_capacity <= s.capacity, "capacity is positive");
        stack_ok0();
        ht_stack_deinit(&s);
    }
    else vf_cover("oom");
    vf_assert(vf_live() == 0, "nothing leaked");
}
