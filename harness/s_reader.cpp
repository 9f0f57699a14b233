// The stream reader under controlled schedules: finite streams, streams that
// are fed by another thread, files; waiters, pollers and stoppers.
#include "wire.hpp"
#include "rt/vs.h"
#include <hawktracer/parser/file_stream.hpp>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace wire;
// fed from outside; reads block until there is data, an end, or a stop
class FedStream : public P::Stream {
public:
    explicit FedStream(bool cont) : _cont(cont) {}
    bool start() override { std::lock_guard<std::mutex> l(_m); _stopped = false; return true; }
    void stop() override { std::lock_guard<std::mutex> l(_m); _stopped = true; _cv.notify_all(); }
    int read_byte() override { std::unique_lock<std::mutex> l(_m); if (!wait(l, 1)) return -1; return (unsigned char)_d[_p++]; }
    bool read_data(char* b, size_t n) override { std::unique_lock<std::mutex> l(_m); if (!wait(l, n)) return false; memcpy(b, &_d[_p], n); _p += n; return true; }
    bool is_continuous() override { return _cont; }
    void feed(const std::string& s) { std::lock_guard<std::mutex> l(_m); _d += s; _cv.notify_all(); }
    void fin() { std::lock_guard<std::mutex> l(_m); _fin = true; _cv.notify_all(); }
private:
    bool wait(std::unique_lock<std::mutex>& l, size_t n) { _cv.wait(l, [&] { return _d.size() - _p >= n || _fin || _stopped; }); return _d.size() - _p >= n; }
    std::mutex _m; std::condition_variable _cv; std::string _d; size_t _p = 0; bool _fin = false, _stopped = false, _cont;
};
int main(int argc, char** argv) {
    Args a(argc, argv);
    std::string path = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : ".") + "/reader." + std::to_string(getpid());
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            int kind, nev, nl; std::vector<std::string> evs; P::KlassRegister* reg; P::Stream* st; FedStream* fed = nullptr; bool flat, begun = false;
            std::mutex done_m; std::condition_variable done_cv; 
            { vs::Quiet q;
              kind = vs::rnd(10) < 6 ? 2 : vs::rnd(10) < 7 ? 0 : 1;   // fed, memory, file
              nev = vs::rnd(4); nl = 1 + vs::rnd(2); flat = vs::rnd(2);
              Out o; o.klass(9, "K", 2); o.field(9, "HT_Event", "base", 24, 1); o.field(9, "uint32_t", "v", 4, 99);
              // events 1 to 3 are the description
              std::string h = o.b;
              for (int i = 0; i < nev; i++) { Out e; if (vs::rnd(3) == 0) e.head(1, 5, i + 4); else { e.head(9, 5, i + 4); e.n(i, 4); } evs.push_back(e.b); }
              evs.insert(evs.begin(), h);
              std::string all; for (auto& e : evs) all += e;
              if (kind == 0) st = new MemStream(all);
              else if (kind == 1) { std::ofstream f(path, std::ios::binary); f << all; f.close(); st = new P::FileStream(path); }
              else st = fed = new FedStream(vs::rnd(4) != 0);
              if (kind != 2) { vs::emit(J("Feed").i("k", nev + 3)); vs::emit(J("Fin")); }
              reg = new P::KlassRegister;
            }
            bool cont = st->is_continuous();
            bool ends = kind != 2 || !cont || vs::rnd(3) != 0;   // a stream that never ends must be stoppable: only a continuous one is
            bool second_stop = vs::rnd(4) == 0;
            int role = vs::rnd(10);      // who ends it: 0-4 wait then stop, 5-7 stop at any time (others may wait), 8 only destroy, 9 never started
            {
              P::ProtocolReader r(reg, std::unique_ptr<P::Stream>(st), flat);
              std::vector<std::thread> th;
              auto eos = [&] { vs::emit(J("Ask").i("t", vs::self())); bool v = r.eos(); vs::emit(J("Eos").i("t", vs::self()).b("v", v)); return v; };
              auto wait = [&] { vs::emit(J("Wait")); r.wait_for_complete(); vs::emit(J("Waited")); };
              auto stop = [&] { vs::emit(J("Stop")); r.stop(); vs::emit(J("Stopped")); };
              std::vector<int> cnt(nl, 0);
              for (int k = 0; k < nl; k++) {
                  { vs::Quiet q; vs::emit(J("Listen").i("k", k + 1)); }
                  r.register_events_listener([&, k](const P::Event& e) {
                      vs::point(); vs::Quiet q; cnt[k]++;
                      // the describing events, then by identifier
                      long long i = e.get_klass()->get_id() == 2 ? 1 : e.get_klass()->get_id() == 3 ? (e.get_value<char*>("field_name")[0] == 'b' ? 2 : 3) : 0;
                      if (!i) { if (e.get_klass()->get_id() == 1 || flat) i = e.get_value<uint64_t>("id"); else i = e.get_value<P::Event*>("base")->get_value<uint64_t>("id"); }
                      vs::emit(J("Call").i("k", k + 1).i("i", i)); });
              }
              if (role == 9) { if (vs::rnd(2)) eos(); if (vs::rnd(2)) wait(); stop(); eos(); if (second_stop) stop(); }
              else {
                vs::emit(J("Start")); bool ok = r.start(); vs::emit(J("Started").b("ok", ok));
                if (fed) th.emplace_back([&] {
                    std::string pend; size_t k = 0; 
                    for (auto& e : evs) {
                        int m = k == 0 ? 3 : 1; k++;
                        { vs::Quiet q; vs::emit(J("Feed").i("k", m)); }
                        size_t cut = vs::rnd(3) ? e.size() : vs::rnd(e.size() + 1);
                        fed->feed(e.substr(0, cut)); if (cut < e.size()) fed->feed(e.substr(cut));
                    }
                    if (ends) { vs::emit(J("Fin")); fed->fin(); }
                });
                if (role < 5 && ends) {
                    int extra = vs::rnd(2);
                    for (int i = 0; i < extra; i++) th.emplace_back([&] { wait(); eos(); });
                    if (vs::rnd(3) == 0) for (int i = 0; i < 3 && !eos(); i++) vs::point();
                    wait(); eos();
                    if (vs::rnd(3)) { stop(); eos(); if (second_stop) stop(); }
                } else if (role < 8 && (ends || cont)) {
                    int extra = vs::rnd(3);
                    for (int i = 0; i < extra; i++) th.emplace_back([&] { wait(); eos(); });
                    for (int i = vs::rnd(4); i > 0; i--) vs::point();
                    if (vs::rnd(2)) eos();
                    stop(); eos(); if (second_stop) { stop(); eos(); }
                    if (vs::rnd(3) == 0) wait();
                } 
              }
              for (auto& t : th) t.join();
              vs::emit(J("Stop"));
            }
            vs::Quiet q; vs::emit(J("Stopped")); vs::emit(J("End")); unlink(path.c_str());
        });
    }
    fclose(out);
}
