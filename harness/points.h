#pragma once
#include <stdint.h>
#include <hawktracer.h>
#ifdef __cplusplus
extern "C" {
#endif
struct PointSite { char mode; const char* text; void (*go)(HT_Timeline*, const char*, uint64_t, void (*)(void*), void*); };
enum { POINT_OWN = 12, POINT_ALL = 23 };
extern const struct PointSite c_points[];
extern const struct PointSite cpp_points[];
#ifdef __cplusplus
}
#endif
