#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#include <hawktracer/timeline.h>
#include <hawktracer/scoped_tracepoint.h>
#include <hawktracer/tracepoint.h>
void tp_c_int(HT_Timeline* t, uint64_t l, void (*body)(void*), void* ud);
void tp_c_string(HT_Timeline* t, const char* l, void (*body)(void*), void* ud);
void tp_c_trace(HT_Timeline* t, const char* l, void (*body)(void*), void* ud);
void tp_c_func(HT_Timeline* t, void (*body)(void*), void* ud);
#ifdef __cplusplus
}
#endif
