/* Scopes opened from C code with the library's macros (cleanup attribute). */
#include "tp_c.h"
void tp_c_int(HT_Timeline* t, uint64_t l, void (*body)(void*), void* ud) { HT_TP_SCOPED_INT(t, l); body(ud); }
void tp_c_string(HT_Timeline* t, const char* l, void (*body)(void*), void* ud) { HT_TP_SCOPED_STRING(t, l); body(ud); }
void tp_c_trace(HT_Timeline* t, const char* l, void (*body)(void*), void* ud) { HT_TRACE(t, l); body(ud); }
void tp_c_func(HT_Timeline* t, void (*body)(void*), void* ud) { HT_TRACE_FUNCTION(t); body(ud); }
