// Concurrent pushes and flushes on one (or two, sharing a group) thread-safe
// timelines, under the deterministic scheduler.
// Trace: Case{ls}, Inv{t,n,tl,b,op}, Ret{t,n}, Dlv{l,tl,evs}, End
#include "common.hpp"
#include "rt/vs.h"
#include <hawktracer.h>
#include <map>
#include <set>
#include <thread>
#include <memory>

struct Lst { int id; };
static std::map<std::string, int>* g_bytes;   // bytes of a pushed event -> push number
static std::set<size_t>* g_lens;
static int g_push;

static void listener(TEventPtr events, size_t size, HT_Boolean ser, void* ud) {
    vs::point();
    vs::Quiet q;
    std::string s((const char*)events, size);
    std::vector<std::string> evs; size_t o = 0;
    std::vector<long long> nums;
    while (o < s.size()) {
        int n = -1; size_t len = 0;
        for (size_t l : *g_lens) { if (o + l > s.size()) break; auto it = g_bytes->find(s.substr(o, l)); if (it != g_bytes->end()) { n = it->second; len = l; } }
        nums.push_back(n);
        if (n < 0) break;
        o += len;
    }
    vs::emit(J("Dlv").i("l", ((Lst*)ud)->id).list("evs", nums));
}
static void note(const std::string& b, int n) { (*g_bytes)[b] = n; g_lens->insert(b.size()); }

static void do_push(HT_Timeline* tl, bool ser, int tnum) {
    HT_CallstackStringEvent e; HT_CallstackIntEvent ei; HT_StringMappingEvent em; HT_Event eb;
    memset(&e, 0, sizeof e); memset(&ei, 0, sizeof ei); memset(&em, 0, sizeof em); memset(&eb, 0, sizeof eb);
    std::string lab; HT_Event* ev; int n;
    { vs::Quiet q;
      n = ++g_push;
      uint64_t r = vs::rnd(100);
      lab = std::string(r < 70 ? vs::rnd(20) : 40 + vs::rnd(200), 'a' + vs::rnd(26));
      switch (vs::rnd(4)) {
        case 0: e.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackStringEvent); e.label = lab.c_str(); e.base.thread_id = tnum; ev = HT_EVENT(&e); break;
        case 1: ei.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackIntEvent); ei.label = n; ev = HT_EVENT(&ei); break;
        case 2: em.base.klass = HT_EVENT_KLASS_GET(HT_StringMappingEvent); em.identifier = n; em.label = lab.c_str(); ev = HT_EVENT(&em); break;
        default: eb.klass = HT_EVENT_KLASS_GET(HT_Event); ev = &eb; break;
      }
      ev->id = n; ev->timestamp = 1000 + n;
      std::string b;
      if (ser) { b.resize(ev->klass->get_size(ev)); ev->klass->serialize(ev, (HT_Byte*)&b[0]); }
      else b.assign((const char*)ev, ev->klass->type_info->size);
      note(b, n);
      vs::emit(J("Inv").i("t", vs::self()).t("op", "push").i("n", n));
    }
    ht_timeline_push_event(tl, ev);
    vs::emit(J("Ret").i("t", vs::self()).i("n", n));
}

int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            std::vector<Lst> ls; HT_Timeline* tl; bool ser; int nthr;
            { vs::Quiet q;
              g_bytes = new std::map<std::string, int>; g_lens = new std::set<size_t>; g_push = 0;
              ht_init(0, nullptr);
              static const size_t caps[] = {1, 24, 40, 90, 130, 300, 4096};
              ser = vs::rnd(3) != 0;
              tl = ht_timeline_create(caps[vs::rnd(7)], HT_TRUE, ser, nullptr, nullptr);
              nthr = 2 + vs::rnd(2);
              int nl = 1 + vs::rnd(2);
              for (int i = 0; i < nl; i++) ls.push_back(Lst{i + 1});
              for (auto& l : ls) { ht_timeline_register_listener(tl, listener, &l); vs::emit(J("Reg").i("l", l.id)); }
            }
            std::vector<std::thread> th;
            for (int t = 0; t < nthr; t++) th.emplace_back([&, t] {
                int k = 1 + vs::rnd(5);
                for (int i = 0; i < k; i++) {
                    if (vs::rnd(4) == 0) {
                        int n; { vs::Quiet q; n = ++g_push; }
                        vs::emit(J("Inv").i("t", vs::self()).t("op", "flush").i("n", n));
                        ht_timeline_flush(tl);
                        vs::emit(J("Ret").i("t", vs::self()).i("n", n));
                    } else do_push(tl, ser, t);
                }
            });
            for (auto& t : th) t.join();
            int n = ++g_push;
            bool fl = vs::rnd(2);
            vs::emit(J("Inv").i("t", 0).t("op", fl ? "flush" : "destroy").i("n", n));
            if (fl) ht_timeline_flush(tl); else ht_timeline_destroy(tl);
            vs::emit(J("Ret").i("t", 0).i("n", n));
            if (fl) { vs::emit(J("Inv").i("t", 0).t("op", "destroy").i("n", n + 1)); ht_timeline_destroy(tl); vs::emit(J("Ret").i("t", 0).i("n", n + 1)); }
            vs::emit(J("End"));
        });
    }
    fclose(out);
}
