// File dump listeners, sequentially: deliveries of batches (direct or through
// a timeline), flushes, stops, repeated stops, several dumps at once.
#include "seq.hpp"
#include "dump.hpp"
#include <hawktracer/listeners/file_dump_listener.h>
using namespace seq;
using namespace dump;
struct D { int d; HT_FileDumpListener* l; HT_Timeline* tl; bool ser, stopped; std::string path; };
int main(int argc, char** argv) {
    Args a(argc, argv);
    std::string dir = getenv("SCRATCH") ? getenv("SCRATCH") : ".";
    seq::run(a, true, [&](uint64_t n) {
        Book bk; std::vector<std::vector<std::unique_ptr<Ev>>> keep;
        auto rn = [](uint64_t k) { return rnd(k); };
        ht_init(0, nullptr);
        for (auto& c : core()) emit(klass_line(c));
        int own_at = rnd(4);   // when the own classes are registered
        bool own_known = false;
        auto reg = [&] { if (own_known) return; own_known = true; for (int i : {0, 1, 5}) { reg_own(i); emit(klass_line(kl::own()[i])); } };
        if (own_at < 2) reg();
        static const size_t sizes[] = {0, 1, 2, 7, 19, 20, 21, 24, 40, 64, 100, 333, 1000, 4096, 65536};
        static const size_t caps[] = {1, 40, 100, 500, 4096};
        std::vector<D> ds; int call = 0, dn = 0;
        bool mega = n % 64 == 7;             // buffers and batches of megabytes
        auto open = [&] {
            D d; d.d = ++dn; d.stopped = false; d.tl = nullptr; d.ser = true; d.path = dir + "/dump." + std::to_string(getpid()) + "." + std::to_string(d.d);
            if (chance(30)) { std::ofstream f(d.path, std::ios::binary); f << std::string(rnd(9000), 'x'); }
            if (chance(8)) {
                HT_ErrorCode err = HT_ERR_OK; std::string bad = dir + "/nowhere-at-all/x";
                HT_FileDumpListener* l = ht_file_dump_listener_create(bad.c_str(), 64, &err);
                emit(J("OpenFail").b("ok", !l && err != HT_ERR_OK)); if (l) ht_file_dump_listener_destroy(l);
            }
            bk.reference(d.d);
            HT_ErrorCode err = HT_ERR_OK; size_t bs = mega && chance(80) ? ((size_t)1 << 20) + rnd(2500000) : chance(80) ? sizes[rnd(15)] : rnd(700);
            if (chance(40)) {
                d.ser = chance(60);
                d.tl = ht_timeline_create(mega && chance(60) ? 1500000 + rnd(1500000) : caps[rnd(5)], HT_FALSE, d.ser, nullptr, nullptr);
                d.l = ht_file_dump_listener_register(d.tl, d.path.c_str(), bs, &err);
            } else d.l = ht_file_dump_listener_create(d.path.c_str(), bs, &err);
            emit(J("Open").i("d", d.d).b("ok", d.l && err == HT_ERR_OK));
            if (d.l) ds.push_back(d); else if (d.tl) ht_timeline_destroy(d.tl);
        };
        auto deliver = [&](D& d) {
            int k = chance(80) ? 1 + rnd(4) : 1 + rnd(25);
            std::vector<std::unique_ptr<Ev>> v; int ml = chance(80) ? 60 : chance(80) ? 600 : 5000;
            if (mega && chance(50)) ml = 900000;
            for (int i = 0; i < k; i++) v.push_back(bk.make(rn, ml, own_known));
            emit(J("Inv").i("d", d.d).list("ms", nums(v)).b("seq", true));
            if (d.tl) { for (auto& x : v) ht_timeline_push_event(d.tl, x->e()); ht_timeline_flush(d.tl); }
            else { bool ser = chance(60); std::string b = batch(v, ser);
                   std::unique_ptr<HT_Byte[]> p(new HT_Byte[b.size()]); memcpy(p.get(), b.data(), b.size());
                   ht_file_dump_listener_callback(p.get(), b.size(), ser, d.l); }
            emit(J("Ret").i("d", d.d).list("ms", nums(v)));
            keep.push_back(std::move(v));
        };
        auto stop = [&](D& d) {
            emit(J("StopInv").i("d", d.d)); ht_file_dump_listener_stop(d.l); emit(J("StopRet").i("d", d.d));
            d.stopped = true; emit(bk.see("SeeEnd", d.d, 0, d.path));
        };
        auto flush = [&](D& d) {
            bool full = chance(70); int c = ++call;
            emit(J("FlushInv").i("d", d.d).i("c", c)); HT_ErrorCode r = ht_file_dump_listener_flush(d.l, full);
            if (full) emit(bk.see("See", d.d, c, d.path));
            emit(J("FlushRet").i("c", c).b("full", full).b("ok", r == HT_ERR_OK));
        };
        auto close = [&](D& d) {
            emit(J("StopInv").i("d", d.d));
            if (d.tl) ht_timeline_destroy(d.tl); else ht_file_dump_listener_destroy(d.l);
            emit(J("StopRet").i("d", d.d)); emit(bk.see("SeeEnd", d.d, 0, d.path)); unlink(d.path.c_str());
        };
        open();
        int steps = 2 + rnd(12);
        for (int s = 0; s < steps; s++) {
            if (ds.empty() || chance(8)) { open(); continue; }
            size_t i = rnd(ds.size()); D& d = ds[i]; int r = rnd(100);
            if (own_at == 2 && chance(20)) reg();
            if (r < 60) deliver(d); else if (r < 85) flush(d); else if (r < 94) stop(d);
            else { close(d); ds.erase(ds.begin() + i); }
        }
        for (auto& d : ds) close(d);
        ht_file_dump_listener_destroy(nullptr);
        ht_deinit();
    });
}
