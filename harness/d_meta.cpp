// Class registration and metadata, sequentially: random classes, repeated
// registration, restarts of the library, metadata by both serialisations and
// by the dump file.
#include "seq.hpp"
#include "klasses.hpp"
#include <hawktracer/listeners/file_dump_listener.h>
#include <fstream>
#include <sstream>
#include <memory>
using namespace seq;
using namespace kl;
static std::vector<std::unique_ptr<Dyn>> g_dyn;   // live for the whole process: the registry keeps pointers
static int g_c = 0;
static std::string word(uint32_t v) { return num(v); }
static void reg_line(const C& c, uint32_t id) { emit(J("RegInv").raw("n", bytes(c.n)).raw("f", jf(c.f))); emit(J("RegRet").raw("n", bytes(c.n)).raw("id", word(id))); }
static std::string nm(const char* p, int i) {
    std::string s = p + std::to_string(i) + "_";
    int n = chance(88) ? rnd(6) : chance(75) ? rnd(40) : chance(80) ? rnd(300) : chance(80) ? rnd(2000) : 4000 + rnd(1200);
    for (int k = 0; k < n; k++) s += (char)('a' + rnd(26));
    return s;
}
static void meta() {
    int c = ++g_c; std::string b;
    emit(J("MetaInv").i("c", c));
    int how = rnd(3); size_t r = 0;
    if (how < 2) r = ht_timeline_listener_push_metadata(collect, &b, how == 0);
    else {
        std::string p = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : ".") + "/meta." + std::to_string(getpid());
        static const size_t sizes[] = {0, 1, 20, 64, 1000, 4096, 100000};
        HT_FileDumpListener* l = ht_file_dump_listener_create(p.c_str(), sizes[rnd(7)], nullptr);
        if (!l) { emit(J("NoDump")); return; }
        ht_file_dump_listener_destroy(l);
        std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); b = ss.str(); unlink(p.c_str());
    }
    (void)r;
    emit(J("MetaRet").i("c", c).b("big", big_endian()).raw("b", bytes(b)));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    seq::run(a, true, [&](uint64_t n) {
        bool mass = chance(2);   // very many classes
        int epochs = mass ? 1 : 1 + rnd(3), dn = 0;
        std::vector<int> dyn_known;
        for (int e = 0; e < epochs; e++) {
            if (e) emit(J("Restart"));
            ht_init(0, nullptr);
            size_t cnt = 0; ht_registry_get_event_klasses(&cnt);
            HT_EventKlass* ck[] = {HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent), HT_EVENT_KLASS_GET(HT_Event), HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent), HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent), HT_EVENT_KLASS_GET(HT_CallstackBaseEvent), HT_EVENT_KLASS_GET(HT_CallstackIntEvent), HT_EVENT_KLASS_GET(HT_CallstackStringEvent), HT_EVENT_KLASS_GET(HT_StringMappingEvent), HT_EVENT_KLASS_GET(HT_SystemInfoEvent)};
            for (size_t i = 0; i < core().size(); i++) reg_line(core()[i], ck[i]->klass_id);
            if (chance(30)) meta();
            int steps = mass ? 0 : 1 + rnd(7);
            bool crowd = chance(3);
            for (int s = 0; s < steps; s++) {
                int r = rnd(100);
                if (r < 35) { int i = rnd(9); reg_line(own()[i], reg_own(i)); }
                else if (r < 75) {
                    int k = crowd ? 20 + rnd(40) : 1 + rnd(2);
                    for (int q = 0; q < k; q++) {
                        size_t i;
                        if (!g_dyn.empty() && chance(30)) i = rnd(g_dyn.size());
                        else {
                            C c; c.n = nm("D", ++dn);
                            if (chance(90)) c.f.push_back(ev());
                            int nf = chance(1) ? 100 + rnd(155) : rnd(6);
                            for (int j = 0; j < nf; j++) { static const int sz[] = {1, 2, 4, 8}; int kind = chance(30) ? TX : chance(10) ? PT : chance(50) ? IN : UN;
                                // a structure of any size; floating point members are announced as they are declared
                                if (chance(8)) { static const uint64_t zs[] = {0, 25, 255, 256, 257, 300, 4096, 65535, 65536, 65561, 1u << 24, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000018ull, 1ull << 40}; c.f.push_back({nm("S", j), nf > 50 ? "f" + std::to_string(j) : nm("f", j), zs[rnd(16)], ST}); continue; }
                                if (chance(4)) { bool d = chance(50); c.f.push_back({d ? "double" : "float", nf > 50 ? "f" + std::to_string(j) : nm("f", j), (uint64_t)(d ? 8 : 4), d ? 5 : 4}); continue; }
                                c.f.push_back({nf > 50 || chance(50) ? "T" : nm("type", j), nf > 50 ? "f" + std::to_string(j) : nm("f", j), (uint64_t)(kind == TX || kind == PT ? 8 : sz[rnd(4)]), kind}); }
                            g_dyn.emplace_back(new Dyn(c)); i = g_dyn.size() - 1;
                        }
                        reg_line(g_dyn[i]->c, ht_registry_register_event_klass(&g_dyn[i]->k));
                    }
                }
                else meta();
            }
            if (mass) for (int q = 0, m = chance(50) ? 180 + rnd(120) : 240 + rnd(40); q < m; q++) {
                size_t i;
                if (!g_dyn.empty() && chance(10)) i = rnd(g_dyn.size());
                else { C c; c.n = "M" + std::to_string(++dn); c.f.push_back(ev()); if (chance(30)) c.f.push_back({"T", "f", 4, IN}); g_dyn.emplace_back(new Dyn(c)); i = g_dyn.size() - 1; }
                reg_line(g_dyn[i]->c, ht_registry_register_event_klass(&g_dyn[i]->k));
            }
            meta();
            emit(J("Quiet"));
            ht_deinit();
        }
    });
}
