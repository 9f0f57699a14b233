// The task scheduler under a controlled clock; callbacks may schedule, remove
// (themselves too) and take time.
#include "seq.hpp"
#include "vclock.hpp"
#include <hawktracer/task_scheduler.h>
#include <hawktracer/alloc.h>
#include <memory>
using namespace seq;
static int64_t g_t, g_unit = 1; static long g_blocks;      // times are recorded in units of g_unit nanoseconds
static void set(int64_t t) { g_t = t; t *= g_unit; vclock::sec = 5 + t / 1000000000; vclock::nsec = t % 1000000000; }
static void* alloc(void* p, size_t n, void*) { if (!p && n) g_blocks++; if (p && !n) { g_blocks--; free(p); return nullptr; } return n ? realloc(p, n) : nullptr; }
struct T; static HT_TaskScheduler* S; static std::vector<std::unique_ptr<T>>* g_tasks; static int g_depth;
struct T { HT_TaskId id = -7; int left; int mischief; int64_t takes; };
static HT_Boolean cb(void* ud);
static void schedule() {
    if (chance(2)) { HT_TaskId id = ht_task_scheduler_schedule_task(S, HT_TASK_SCHEDULING_IGNORE_DELAYS, 5, nullptr, nullptr); if (id == HT_TASK_SCHEDULER_INVALID_TASK_ID) emit(J("NoSched").b("cb", false)); else emit(J("Sched").i("id", -1).t("mode", "?").i("p", 0).i("t0", 0).i("t1", 0)); return; }
    g_tasks->emplace_back(new T); T* t = g_tasks->back().get();
    t->left = chance(50) ? 1000 : 1 + rnd(4); t->mischief = chance(25) ? 1 + rnd(4) : 0; t->takes = chance(75) ? 0 : rnd(40);
    bool keep = chance(50); static const int ps[] = {0, 1, 2, 3, 5, 6, 10, 12, 15, 30, 60, 100};
    int64_t p = g_depth ? 1 + rnd(40) : chance(80) ? ps[rnd(12)] : chance(80) ? rnd(500) : rnd(1000000000);
    t->id = ht_task_scheduler_schedule_task(S, keep ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER, p * g_unit, cb, t);
    if (t->id == HT_TASK_SCHEDULER_INVALID_TASK_ID) emit(J("NoSched").b("cb", true));
    else emit(J("Sched").i("id", t->id).t("mode", keep ? "keep" : "restart").i("p", p).i("t0", g_t).i("t1", g_t));
}
static long long best() { HT_DurationNs v = ht_task_scheduler_get_optimal_tick_period(S); return v % g_unit ? -1 : (long long)(v / g_unit); }
static void remove_id(HT_TaskId id) { emit(J("Remove").i("id", id).b("ok", ht_task_scheduler_remove_task(S, id))); }
static HT_TaskId some() { int r = rnd(10); if (r == 0) return -1; if (r == 1) return g_tasks->size() + rnd(3); if (r == 2) return rnd(g_tasks->size() + 1) - 3; return g_tasks->empty() ? 0 : (*g_tasks)[rnd(g_tasks->size())]->id; }
static HT_Boolean cb(void* ud) {
    T* t = (T*)ud; HT_TaskId id = t->id; g_depth++;
    emit(J("Run").i("id", id).i("t", g_t));
    if (t->mischief == 1) remove_id(some()); else if (t->mischief == 2) remove_id(id); else if (t->mischief == 3) schedule();
    else if (t->mischief == 4) { emit(J("Best").i("v", best())); if (chance(30)) { remove_id(id); remove_id(id); } }
    set(g_t + t->takes);
    bool again = --t->left > 0; g_depth--;
    // true is any value other than false? the documentation names two values
    emit(J("Ran").i("id", id).b("again", again).i("t", g_t));
    return again ? HT_TRUE : HT_FALSE;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_allocator_set(alloc, nullptr);
    seq::run(a, false, [&](uint64_t) {
        std::vector<std::unique_ptr<T>> tasks; g_tasks = &tasks; g_depth = 0; g_unit = chance(70) ? 1 : chance(50) ? 1ll << 24 : 3000000007ll; set(1 + rnd(1000)); long b0 = g_blocks;
        HT_ErrorCode err; S = ht_task_scheduler_create(&err);
        int steps = 2 + rnd(60); bool many = chance(10);
        for (int s = 0; s < steps; s++) {
            int r = rnd(100);
            if (many && r < 50) r = 0;
            if (r < 20) { for (int k = many ? 1 + rnd(12) : 1; k > 0; k--) schedule(); }
            else if (r < 30) remove_id(some());
            else if (r < 35) emit(J("Best").i("v", best()));
            else if (r < 60) set(g_t + (chance(90) ? rnd(20) : rnd(2000)));
            else { emit(J("Tick").i("t", g_t)); ht_task_scheduler_tick(S); emit(J("Ticked")); }
        }
        if (chance(1) && chance(30)) {       // very many tasks: identifiers stay distinct
            int n = 66000; HT_TaskId lo = -1, hi = -1; bool dense = true, gone = true;
            for (int k = 0; k < n && dense; k++) { HT_TaskId id = ht_task_scheduler_schedule_task(S, HT_TASK_SCHEDULING_RESTART_TIMER, 1000, cb, nullptr); if (lo < 0) lo = id; else dense = id == hi + 1; hi = id; if (dense && k + 3 < n) gone = ht_task_scheduler_remove_task(S, id) && gone; }
            if (dense) { emit(J("Bulk").i("lo", lo).i("hi", hi).b("gone", gone)); for (HT_TaskId id : {hi - 65536, hi - 1 - 65536, lo, hi, lo + 1, hi - 1, hi - 65536}) remove_id(id); }
            for (auto& t : tasks) remove_id(t->id);
        }
        ht_task_scheduler_destroy(S);
        emit(J("End").i("blocks", g_blocks - b0));
    });
}
