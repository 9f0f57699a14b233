#include "common.hpp"
#include "rt/vs.h"
#include <hawktracer.h>
#include <thread>
#define POINT() vs::point()
#define QUIET() vs::Quiet q_
#define EMIT(x) vs::emit(x)
#include "labels.inc"
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
        HT_Timeline* t;
        { vs::Quiet q; g_calls = 0; ht_init(0, nullptr);
          static const size_t caps[] = {1, 60, 4000};
          t = ht_timeline_create(caps[vs::rnd(3)], HT_TRUE, HT_TRUE, nullptr, nullptr);
          ht_feature_cached_string_enable(t, HT_TRUE);
          ht_timeline_register_listener(t, on_labels, nullptr); }
        std::vector<std::thread> th; int n = 2 + vs::rnd(2);
        for (int i = 0; i < n; i++) th.emplace_back([&] {
            static const char* W[] = {"Ab", "BA", "one", "BB", "three"};
            for (int k = 1 + vs::rnd(4); k > 0; k--) {
                unsigned r = vs::rnd(10);
                if (r < 3) add_static(t, vs::rnd(4), true);
                else if (r < 9) add_dyn(t, W[vs::rnd(5)], true);
                else resend(t);
            }
        });
        for (auto& x : th) x.join();
        ht_timeline_flush(t); vs::emit(J("Settled"));
        ht_timeline_destroy(t);
    });
    fclose(out);
}
