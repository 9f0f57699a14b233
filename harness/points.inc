// the trace point macros, once per language: SITE(number, ...) functions and their table
typedef void (*Body)(void*);
#define S(n, text) static void PRE(static##n)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TRACE_OPT_STATIC(t, text) b(u); }
#define G(n, text) static void PRE(gstatic##n)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_G_TRACE_OPT_STATIC(text) b(u); }
S(0, "first") S(1, "second one") S(2, "") S(3, "first") S(4, "caf\xc3\xa9")
G(0, "first") G(1, "third") G(2, "\"quoted\" %s")
static void PRE(old_gstatic)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_G_STRACEPOINT("old style") b(u); }
static void PRE(two)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { { HT_TRACE_OPT_STATIC(t, "upper") b(u); } }
static void PRE(dyn)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TRACE_OPT_DYNAMIC(t, x) b(u); }
static void PRE(gdyn)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_G_TRACE_OPT_DYNAMIC(x) b(u); }
static void PRE(old_gdyn)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_G_DYN_STRACEPOINT(x) b(u); }
static void PRE(str)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TRACE(t, x); b(u); }
static void PRE(gstr)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_G_TRACE(x); b(u); }
static void PRE(old_gstr)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_GLOBAL_SCOPED_STRING(x); b(u); }
static void PRE(num)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_SCOPED_INT(t, i); b(u); }
static void PRE(gnum)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_GLOBAL_SCOPED_INT(i); b(u); }
static void PRE(fun)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TRACE_FUNCTION(t); b(u); }
static void PRE(optfun)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TRACE_FUNCTION_OPT(t) b(u); }
static void PRE(gfun)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_G_TRACE_FUNCTION() b(u); }
static void PRE(old_gfun)(HT_Timeline* t, const char* x, uint64_t i, Body b, void* u) { HT_TP_G_FUNCTION() b(u); }
#define Q_(x) #x
#define Q(x) Q_(x)
#define NAME(x) Q(PRE(x))
/* mode, text (0: the caller's), function; the first OWN ones need no global timeline */
const struct PointSite TABLE[] = {
    {'c', "first", PRE(static0)}, {'c', "second one", PRE(static1)}, {'c', "", PRE(static2)}, {'c', "first", PRE(static3)}, {'c', "caf\xc3\xa9", PRE(static4)}, {'c', "upper", PRE(two)},
    {'c', 0, PRE(dyn)}, {'c', 0, PRE(dyn)}, {'s', 0, PRE(str)}, {'i', 0, PRE(num)}, {'s', NAME(fun), PRE(fun)}, {'c', NAME(optfun), PRE(optfun)},
    {'c', "first", PRE(gstatic0)}, {'c', "third", PRE(gstatic1)}, {'c', "\"quoted\" %s", PRE(gstatic2)}, {'c', "old style", PRE(old_gstatic)}, {'c', 0, PRE(gdyn)}, {'c', 0, PRE(old_gdyn)},
    {'s', 0, PRE(gstr)}, {'s', 0, PRE(old_gstr)}, {'i', 0, PRE(gnum)}, {'c', NAME(gfun), PRE(gfun)}, {'c', NAME(old_gfun), PRE(old_gfun)}};
