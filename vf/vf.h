/* Specification intrinsics.  Under the verifier they are interpreted (vf/builtins.py);
   natively (counterexample replay, random search) they are provided by vf_native.c. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vf_u64(const char* name);
uint32_t vf_u32(const char* name);
uint16_t vf_u16(const char* name);
uint8_t vf_u8(const char* name);
int vf_bool(const char* name);
/* lo..hi in a proof, lo..small_hi in a bounded run */
uint64_t vf_range(const char* name, uint64_t lo, uint64_t hi, uint64_t small_hi);
void vf_assume(int c);
void vf_assert(int c, const char* what);
void vf_cover(const char* what);
void* vf_obj(const char* name, size_t n);
void* vf_raw(const char* name, size_t n);
char* vf_cstr(const char* name, size_t max, size_t small_max);
void* vf_lazy_(const char* name, size_t count, size_t capacity, size_t elem, void (*init)(size_t, void*));
void vf_lazy_reset(const void* p);
void vf_inv(int (*f)(void));
void* vf_loop_buf(void);
void vf_term(uint64_t (*f)(void));
void vf_inv_clear(void);
void vf_watch(uint64_t v);
void vf_unroll(int n);
void vf_havoc(void* p, size_t n);
void vf_guard(const void* p, size_t n, const int* flag);
/* other threads change these bytes at any time; own changes must be atomic steps, recorded in log */
typedef struct { uint64_t steps, old_value, new_value; } vf_step;
void vf_shared(void* p, size_t n, vf_step* log, const int* held);
int vf_live(void);
int vf_valid(const void* p, size_t n);
int vf_alive(const void* p);
void vf_heapify(void* p);
size_t vf_objsize(const void* p);
void vf_malloc_may_fail(int v);
int vf_is_proof(void);
int vf_is_verifier(void);
void vf_stop(void);
uint64_t vf_ite(int c, uint64_t a, uint64_t b);
int vf_and(int a, int b);
int vf_imp(int a, int b);
uint8_t vf_peek(const void* p, size_t i, size_t n);
uint64_t vf_peek64(const void* p, size_t i, size_t n);
#ifdef VF_NATIVE
void* vf_malloc(size_t n);
void* vf_calloc(size_t a, size_t b);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
#ifndef __cplusplus
#define malloc(n) vf_malloc(n)
#define calloc(a, b) vf_calloc(a, b)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#endif
#endif
/* array of `capacity` elements whose first `count` have the shape init() gives them */
static inline void* vf_lazy(const char* name, size_t count, size_t capacity, size_t elem, void (*init)(size_t, void*))
{
    if (vf_is_proof()) return vf_lazy_(name, count, capacity, elem, init);
    char* p = (char*)vf_raw(name, capacity * elem);
    for (size_t i = 0; i < count; i++) init(i, p + i * elem);
    return p;
}
#ifdef __cplusplus
}
#endif
#define VF_BIG ((uint64_t)1 << 40)
#endif
