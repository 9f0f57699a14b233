/* Event classes the drivers use, declared with the library's own macros. */
#ifndef VERIF_EVENTS_H
#define VERIF_EVENTS_H
#include <hawktracer/core_events.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(VInts, HT_Event,
    (INTEGER, uint8_t, u8), (INTEGER, int8_t, i8), (INTEGER, uint16_t, u16), (INTEGER, int16_t, i16),
    (INTEGER, uint32_t, u32), (INTEGER, int32_t, i32), (INTEGER, uint64_t, u64), (INTEGER, int64_t, i64))
HT_DECLARE_EVENT_KLASS(VStr, HT_Event, (STRING, const char*, s1), (INTEGER, uint32_t, mid), (STRING, const char*, s2))
HT_DECLARE_EVENT_KLASS(VBase, HT_CallstackBaseEvent, (INTEGER, uint16_t, code), (STRING, const char*, label))
HT_DECLARE_EVENT_KLASS(VDeep, VBase, (INTEGER, int64_t, extra), (POINTER, void*, ptr), (STRING, const char*, note))
HT_DECLARE_EVENT_KLASS(VNest, HT_Event, (INTEGER, uint8_t, head), (STRUCT, VStr, inner), (INTEGER, uint16_t, tail))
HT_DECLARE_EVENT_KLASS(VBig, HT_Event,
    (INTEGER, uint64_t, f1), (INTEGER, uint64_t, f2), (INTEGER, uint64_t, f3), (INTEGER, uint64_t, f4),
    (INTEGER, uint64_t, f5), (INTEGER, uint64_t, f6), (INTEGER, uint64_t, f7), (INTEGER, uint64_t, f8),
    (INTEGER, uint64_t, f9), (INTEGER, uint64_t, f10), (INTEGER, uint64_t, f11), (INTEGER, uint64_t, f12),
    (INTEGER, uint64_t, f13), (INTEGER, uint64_t, f14), (INTEGER, uint64_t, f15), (INTEGER, uint64_t, f16))
HT_DECLARE_EVENT_KLASS(VBaseOnly, HT_Event, (INTEGER, uint8_t, x))
HT_DECLARE_EVENT_KLASS(VInh, VBase, (INTEGER, int64_t, extra), (STRING, const char*, note))
HT_DECLARE_EVENT_KLASS(VNest2, VInh, (STRUCT, VNest, nest), (INTEGER, uint8_t, last), (STRUCT, HT_Event, plain))
HT_DECLS_END
#endif
