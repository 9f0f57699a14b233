// Thread identifiers of very many threads, one after another and side by side.
#include "seq.hpp"
#include <hawktracer/thread.h>
#include <algorithm>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace seq;
static std::string runs(std::vector<uint64_t> v) {      // as runs of consecutive numbers; one that comes twice is in two runs
    std::sort(v.begin(), v.end()); std::string s;
    for (size_t i = 0; i < v.size();) { size_t j = i + 1; while (j < v.size() && v[j] == v[j - 1] + 1) j++; s += (s.empty() ? "[" : ",[") + std::to_string(v[i]) + "," + std::to_string(v[j - 1]) + "]"; i = j; }
    return "[" + s + "]";
}
static void one() {
    int total = rnd(60) == 0 ? 66000 : 20 + rnd(chance(20) ? 1200 : 100);
    auto self = [] { emit(J("Tid").i("t", 0).i("id", ht_thread_get_current_thread_id())); };
    if (rnd(2)) self();
    while (total > 0) {
        int n = std::min<int>(total, 1 + (total > 5000 ? 20000 : rnd(300)));
        int wide = 1 + rnd(30);
        std::vector<uint64_t> ids(n); std::vector<char> same(n);
        for (int i = 0; i < n; i += wide) {
            std::vector<std::thread> th;
            for (int k = i; k < n && k < i + wide; k++) for (int tries = 0;; tries++) try { th.emplace_back([&, k] { ids[k] = ht_thread_get_current_thread_id(); same[k] = ids[k] == ht_thread_get_current_thread_id(); }); break; } catch (const std::system_error&) { if (tries > 3000) throw; usleep(10000); }   // the system is short of threads
            for (auto& t : th) t.join();
        }
        emit(J("Tids").i("n", n).raw("iv", runs(ids)).b("same", std::all_of(same.begin(), same.end(), [](char c) { return c; })));
        total -= n;
        if (rnd(3) == 0) self();
    }
    self();
}
int main(int argc, char** argv) { Args a(argc, argv); seq::run(a, true, [](uint64_t) { one(); }, 400); }
