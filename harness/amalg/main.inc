/* A program of two files that uses most of what the header declares. */
#include "hawktracer.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(PrEvent, HT_Event, (INTEGER, uint16_t, num), (STRING, const char*, text))
int pr_other(HT_Timeline* t);
HT_DECLS_END
#if defined(HT_MONOTONIC_CLOCK_IMPL_CUSTOM)
static HT_TimestampNs now = 5;
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return now++; }
#endif
#if defined(HT_PLATFORM_FEATURE_CPU_USAGE_CUSTOM_SOURCE)
struct _HT_CPUUsageContext { int x; };
HT_CPUUsageContext* ht_cpu_usage_context_create(void* p) { (void)p; return (HT_CPUUsageContext*)malloc(sizeof(HT_CPUUsageContext)); }
void ht_cpu_usage_context_destroy(HT_CPUUsageContext* c) { free(c); }
float ht_cpu_usage_get_percentage(HT_CPUUsageContext* c) { (void)c; return 1.5f; }
#endif
static unsigned long bytes, calls;
static void on_events(TEventPtr events, size_t size, HT_Boolean serialized, void* user_data)
{
    (void)events; (void)serialized; (void)user_data;
    bytes += (unsigned long)size; calls++;
}
static int ticks;
static HT_Boolean tick(void* p) { (void)p; ticks++; return HT_TRUE; }
#if defined(HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED)
static int mallocs;
static void on_malloc(void* p, size_t n, void* u) { (void)p; (void)n; (void)u; mallocs++; }
#endif
#define CHECK(x) if (!(x)) { printf("line %d: %s\n", __LINE__, #x); return 1; }
int main(int argc, char** argv)
{
    HT_Timeline* t;
    HT_TaskScheduler* s;
    unsigned long want;
    ht_init(argc, argv);
    CHECK(ht_is_initialized());
    CHECK(strlen(HT_VERSION) >= 5);
    CHECK(ht_system_info_get_endianness() == HT_ENDIANNESS_LITTLE);
    CHECK(ht_thread_get_current_thread_id() != 0);
    ht_PrEvent_register_event_klass();
    t = ht_timeline_create(1000, HT_TRUE, HT_TRUE, NULL, NULL);
    CHECK(t != NULL);
    CHECK(ht_timeline_register_listener(t, on_events, NULL) == HT_ERR_OK);
    CHECK(ht_feature_callstack_enable(t) == HT_ERR_OK);
    CHECK(ht_feature_cached_string_enable(t, HT_TRUE) == HT_ERR_OK);
    ht_timeline_flush(t);
    want = bytes;
    HT_TIMELINE_PUSH_EVENT(t, PrEvent, 7, "seven");
    ht_timeline_flush(t);
    want += 20 + 2 + 6;
    CHECK(bytes == want);
    {
        HT_TP_SCOPED_STRING(t, "scope");
        ht_feature_callstack_start_int(t, 77);
        ht_feature_callstack_stop(t);
    }
    ht_timeline_flush(t);
    want += (20 + 12 + 8) + (20 + 12 + 6);
    CHECK(bytes == want);
#if defined(__cplusplus) || defined(HT_USE_PTHREADS)
    {
        HT_TRACE_OPT_STATIC(t, "static label");
    }
    {
        HT_TRACE_FUNCTION_OPT(t);
    }
#endif
    { HT_TRACE_OPT_DYNAMIC(t, argv[0]); }
    { HT_TRACE(t, "text"); }
    { HT_TRACE_FUNCTION(t); }
    CHECK(pr_other(t) == 0);
    ht_timeline_flush(t);
    CHECK(bytes > want);
    s = ht_task_scheduler_create(NULL);
    CHECK(s != NULL);
    ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 1, tick, NULL);
    while (ticks == 0) { ht_task_scheduler_tick(s); }
    ht_task_scheduler_destroy(s);
#if defined(HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED)
    {
        HT_CPUUsageContext* c = ht_cpu_usage_context_create(NULL);
        CHECK(c != NULL);
        ht_cpu_usage_get_percentage(c);
        ht_cpu_usage_context_destroy(c);
    }
#endif
#if defined(HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED)
    {
        HT_MemoryUsageContext* c = ht_memory_usage_context_create(NULL);
        size_t m = 0;
        CHECK(c != NULL);
        CHECK(ht_memory_usage_get_usage(c, &m, NULL, NULL) == HT_ERR_OK && m > 0);
        ht_memory_usage_context_destroy(c);
    }
#endif
#if defined(HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED)
    {
        void* volatile q;
        ht_alloc_hooks_register_hooks(on_malloc, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
        q = malloc(3);
        free(q);
        CHECK(mallocs == 1);
        ht_alloc_hooks_register_hooks(NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
    }
#endif
#if defined(HT_ENABLE_TCP_LISTENER)
    {
        void (*f)(TEventPtr, size_t, HT_Boolean, void*) = ht_tcp_listener_callback;
        CHECK(f != NULL);
    }
#endif
    {
        HT_G_TRACE_FUNCTION();
    }
    ht_timeline_destroy(t);
    ht_deinit();
    printf("fine\n");
    return 0;
}
