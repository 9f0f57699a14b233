// Concurrent class registration and metadata requests.
#include "klasses.hpp"
#include "rt/vs.h"
#include <thread>
#include <memory>
using namespace kl;
static int g_c;
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            std::vector<std::unique_ptr<Dyn>> dyn;
            { vs::Quiet q;
              g_c = 0;
              ht_init(0, nullptr);
              HT_EventKlass* ck[] = {HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent), HT_EVENT_KLASS_GET(HT_Event), HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent), HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent), HT_EVENT_KLASS_GET(HT_CallstackBaseEvent), HT_EVENT_KLASS_GET(HT_CallstackIntEvent), HT_EVENT_KLASS_GET(HT_CallstackStringEvent), HT_EVENT_KLASS_GET(HT_StringMappingEvent), HT_EVENT_KLASS_GET(HT_SystemInfoEvent)};
              for (size_t i = 0; i < core().size(); i++) { vs::emit(J("RegInv").raw("n", bytes(core()[i].n)).raw("f", jf(core()[i].f))); vs::emit(J("RegRet").raw("n", bytes(core()[i].n)).raw("id", num((uint32_t)ck[i]->klass_id))); }
              int nd = 1 + vs::rnd(4);
              for (int i = 0; i < nd; i++) { C c; c.n = "D" + std::to_string(i); c.f.push_back(ev()); for (int j = vs::rnd(3); j > 0; j--) c.f.push_back({"uint32_t", "f" + std::to_string(j), 4, UN}); dyn.emplace_back(new Dyn(c)); }
            }
            std::vector<std::thread> th;
            int nt = 2 + vs::rnd(2);
            for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
                int k = 1 + vs::rnd(3);
                for (int i = 0; i < k; i++) {
                    if (vs::rnd(3) != 0) {
                        Dyn* d = dyn[vs::rnd(dyn.size())].get();
                        { vs::Quiet q; vs::emit(J("RegInv").raw("n", bytes(d->c.n)).raw("f", jf(d->c.f))); }
                        uint32_t id = ht_registry_register_event_klass(&d->k);
                        { vs::Quiet q; vs::emit(J("RegRet").raw("n", bytes(d->c.n)).raw("id", num(id))); }
                    } else {
                        int n; std::string* b; { vs::Quiet q; n = ++g_c; b = new std::string; vs::emit(J("MetaInv").i("c", n)); }
                        ht_timeline_listener_push_metadata([](TEventPtr e, size_t n, HT_Boolean s, void* u) { vs::point(); vs::Quiet q; collect(e, n, s, u); }, b, vs::rnd(2));
                        { vs::Quiet q; vs::emit(J("MetaRet").i("c", n).b("big", big_endian()).raw("b", bytes(*b))); }
                    }
                }
            });
            for (auto& t : th) t.join();
            vs::Quiet q; vs::emit(J("Quiet"));
        });
    }
    fclose(out);
}
