#include "hawktracer/event_id_provider.h"
#ifdef __cplusplus
extern "C" {
#endif
void* ht_alloc(size_t n) { return malloc(n); }
void ht_free(void* p) { free(p); }
#ifdef __cplusplus
}
#define HARNESS extern "C" void
#else
#define HARNESS void
#endif
