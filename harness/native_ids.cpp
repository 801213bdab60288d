/* Native cross-check: ids taken by several threads at once are unique and dense. */
#include <thread>
#include <vector>
#include <algorithm>
#include "vf.h"
#include "hawktracer/event_id_provider.h"
extern "C" {
#include "hawktracer/thread.h"
void* ht_alloc(size_t n) { return malloc(n); }
void ht_free(void* p) { free(p); }
}
#include "lib/event_id_provider.cpp"
extern "C" {
#include "lib/thread.c"
}
extern "C" void N_threads_ids(void)
{
    const int T = 4; const size_t N = 40000;
    HT_EventIdProvider* p = ht_event_id_provider_create();
    std::vector<std::vector<HT_EventId>> got(T);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { got[t].reserve(N); for (size_t i = 0; i < N; i++) got[t].push_back(ht_event_id_provider_next(p)); });
    for (auto& x : th) x.join();
    std::vector<HT_EventId> all;
    for (auto& g : got) { vf_assert(std::is_sorted(g.begin(), g.end()), "ids of one thread increase"); all.insert(all.end(), g.begin(), g.end()); }
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); i++) vf_assert(all[i] == i, "ids taken by several threads are unique and consecutive");
    ht_event_id_provider_destroy(p);
}
extern "C" void N_thread_ids(void)
{
    const int T = 64;
    std::vector<HT_ThreadId> ids(T);
    std::vector<std::thread> th;
    volatile int go = 0;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { while (!go) std::this_thread::yield(); ids[t] = ht_thread_get_current_thread_id(); if (ids[t] != ht_thread_get_current_thread_id()) ids[t] = 0; });
    go = 1;
    for (auto& x : th) x.join();
    std::sort(ids.begin(), ids.end());
    for (int t = 0; t < T; t++) vf_assert(ids[t] != 0 && (!t || ids[t] != ids[t - 1]), "every thread has its own id and keeps it");
}
