// Concurrent deliveries, flushes and stops of one file dump listener.
#include "dump.hpp"
#include "rt/vs.h"
#include <hawktracer/listeners/file_dump_listener.h>
#include <thread>
#include <unistd.h>
using namespace dump;
int main(int argc, char** argv) {
    Args a(argc, argv);
    std::string path = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : ".") + "/sdump." + std::to_string(getpid());
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            Book* bk; std::vector<std::vector<std::unique_ptr<Ev>>> work; int call = 0; HT_FileDumpListener* l; int nt;
            auto rn = [](uint64_t k) { return vs::rnd(k); };
            { vs::Quiet q;
              bk = new Book; ht_init(0, nullptr);
              for (auto& k : core()) vs::emit(klass_line(k));
              bk->reference(1);
            }
            static const size_t sizes[] = {0, 1, 20, 30, 64, 100, 1000};
            l = ht_file_dump_listener_create(path.c_str(), sizes[vs::rnd(7)], nullptr);
            vs::emit(J("Open").i("d", 1).b("ok", l != nullptr));
            nt = 2 + vs::rnd(2);
            std::vector<std::thread> th;
            for (int t = 0; t < nt; t++) th.emplace_back([&] {
                int k = 1 + vs::rnd(4);
                for (int i = 0; i < k; i++) {
                    int r = vs::rnd(100);
                    if (r < 62) {
                        std::vector<std::unique_ptr<Ev>>* v; std::string* b; bool ser = vs::rnd(2); std::string* ln;
                        { vs::Quiet q; v = new std::vector<std::unique_ptr<Ev>>; int m = 1 + vs::rnd(3); for (int j = 0; j < m; j++) v->push_back(bk->make(rn, 40, false));
                          b = new std::string(batch(*v, ser)); ln = new std::string(J("Ret").i("d", 1).list("ms", nums(*v)));
                          vs::emit(J("Inv").i("d", 1).list("ms", nums(*v)).b("seq", false)); }
                        ht_file_dump_listener_callback((TEventPtr)b->data(), b->size(), ser, l);
                        vs::emit(*ln);
                    } else if (r < 90) {
                        bool full = vs::rnd(2); int n;
                        { vs::Quiet q; n = ++call; vs::emit(J("FlushInv").i("d", 1).i("c", n)); }
                        HT_ErrorCode e = ht_file_dump_listener_flush(l, full);
                        { vs::Quiet q; if (full) vs::emit(bk->see("See", 1, n, path)); vs::emit(J("FlushRet").i("c", n).b("full", full).b("ok", e == HT_ERR_OK)); }
                    } else {
                        vs::emit(J("StopInv").i("d", 1)); ht_file_dump_listener_stop(l); vs::emit(J("StopRet").i("d", 1));
                        { vs::Quiet q; vs::emit(bk->see("SeeEnd", 1, 0, path)); }
                    }
                }
            });
            for (auto& t : th) t.join();
            vs::emit(J("StopInv").i("d", 1)); ht_file_dump_listener_destroy(l); vs::emit(J("StopRet").i("d", 1));
            { vs::Quiet q; vs::emit(bk->see("SeeEnd", 1, 0, path)); unlink(path.c_str()); }
        });
    }
    fclose(out);
}
