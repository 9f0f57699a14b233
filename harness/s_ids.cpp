// Event and thread identifiers asked for by concurrent threads.
#include "common.hpp"
#include "rt/vs.h"
#include <hawktracer.h>
#include <hawktracer/event_id_provider.h>
#include <hawktracer/thread.h>
#include <thread>
static int g_calls, g_threads;
static void tid(int who) { long long i = ht_thread_get_current_thread_id(); vs::emit(J("Tid").i("t", who).i("id", i)); }
static void next(HT_EventIdProvider* p, int n, HT_Timeline* via) {
    int c; { vs::Quiet q; c = ++g_calls; }
    vs::emit(J("Inv").i("c", c).i("p", n));
    HT_EventId id;
    if (via) { HT_DECL_EVENT(HT_Event, e); ht_timeline_init_event(via, &e); id = e.id; } else id = ht_event_id_provider_next(p);
    vs::emit(J("Ret").i("c", c).i("id", id));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
        { vs::Quiet q; g_calls = g_threads = 0; ht_init(0, nullptr); }
        HT_EventIdProvider* own = ht_event_id_provider_create();
        if (vs::rnd(2)) tid(0);
        static const int warm[] = {0, 0, 0, 0, 0, 120, 126, 250, 254, 1020};
        for (int p = 0; p < 2; p++) if (int n = vs::rnd(200) == 0 ? 65530 : warm[vs::rnd(10)]) {     // many identifiers have been used before
            HT_EventId last = 0; bool grow = true;
            { vs::Quiet q; HT_EventIdProvider* pr = p ? own : ht_event_id_provider_get_default();
              for (int k = 0; k < n; k++) { HT_EventId i = ht_event_id_provider_next(pr); if (k && i <= last) grow = false; last = i; } }
            vs::emit(J("Used").i("p", p).i("last", last).b("grow", grow));
        }
        int waves = 1 + vs::rnd(3);
        for (int w = 0; w < waves; w++) {
            int n = 2 + vs::rnd(3);
            std::vector<std::thread> th;
            for (int i = 0; i < n; i++) { int who = ++g_threads; th.emplace_back([&, who] {
                HT_Timeline* tl = vs::rnd(3) == 0 ? ht_timeline_create(100, HT_FALSE, HT_TRUE, nullptr, nullptr) : nullptr;
                for (int k = 1 + vs::rnd(4); k > 0; k--) switch (vs::rnd(3)) {
                    case 0: tid(who); break;
                    case 1: next(own, 1, nullptr); break;
                    default: next(ht_event_id_provider_get_default(), 0, tl);
                }
                tid(who);
                if (tl) ht_timeline_destroy(tl);
            }); }
            if (vs::rnd(2)) next(own, 1, nullptr);
            for (auto& t : th) t.join();
        }
        tid(0);
        ht_event_id_provider_destroy(own);
        vs::emit(J("End"));
    });
    fclose(out);
}
