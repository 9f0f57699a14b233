// shared by d_labels (sequential, sanitizers) and s_labels (schedules)
struct Sink { bool ser; };
static Sink g_sink;
static void on_labels(TEventPtr p, size_t n, HT_Boolean ser, void*) {
    POINT();
    QUIET();
    size_t o = 0; auto u = [&](int w) { uint64_t v = 0; if (o + w <= n) memcpy(&v, p + o, w); o += w; return v; };
    auto str = [&]() { std::string s; while (o < n && p[o]) s += (char)p[o++]; o++; return s; };
    while (o < n) {
        if (ser) {
            uint32_t kid = u(4); u(8); u(8);
            if (kid == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { uint64_t i = u(8); std::string t = str(); EMIT(J("Map").t("id", u64s(i)).t("text", t)); }
            else if (kid == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { u(8); u(4); EMIT(J("Use").t("id", u64s(u(8)))); }
            else { EMIT(J("Strange").i("k", kid)); return; }
        } else {
            HT_Event* e = (HT_Event*)(p + o); o += e->klass->type_info->size;
            if (e->klass == HT_EVENT_KLASS_GET(HT_StringMappingEvent)) EMIT(J("Map").t("id", u64s(((HT_StringMappingEvent*)e)->identifier)).t("text", ((HT_StringMappingEvent*)e)->label));
            else if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) EMIT(J("Use").t("id", u64s(((HT_CallstackIntEvent*)e)->label)));
            else { EMIT(J("Strange")); return; }
        }
        if (o > n) { EMIT(J("Torn")); return; }
    }
}
static int g_calls;
static const char* STATICS[] = {"alpha", "beta", "a longer label with spaces", "", "Ab", "BA", "caf\xc3\xa9", "%d \"quoted\""};
// two different addresses with the same text
static const char g_same1[] = "same text", g_same2[] = "same text";
static void use(HT_Timeline* t, uintptr_t i) { HT_DECL_EVENT(HT_CallstackIntEvent, e); e.label = i; ht_timeline_push_event(t, HT_EVENT(&e)); }
static void add_static(HT_Timeline* t, int n, bool touse) {
    const char* s = n < 8 ? STATICS[n] : n == 8 ? g_same1 : g_same2; std::string k = "s" + std::to_string(n);
    EMIT(J("InvAdd").t("k", k).t("text", s));
    uintptr_t i = ht_feature_cached_string_add_mapping(t, s);
    EMIT(J("RetAdd").t("k", k).t("id", u64s(i)));
    if (touse) use(t, i);
}
static void add_dyn(HT_Timeline* t, const std::string& s, bool touse) {
    char* c; { QUIET(); c = (char*)malloc(s.size() + 1); strcpy(c, s.c_str()); EMIT(J("InvAdd").t("k", "d" + s).t("text", s)); }
    uintptr_t i = ht_feature_cached_string_add_mapping_dynamic(t, c);
    { QUIET(); memset(c, 'X', s.size()); free(c); EMIT(J("RetAdd").t("k", "d" + s).t("id", u64s(i))); }
    if (touse) use(t, i);
}
static void resend(HT_Timeline* t) {
    int c; { QUIET(); c = ++g_calls; }
    EMIT(J("InvMap").i("c", c));
    ht_feature_cached_string_push_map(t);
    EMIT(J("RetMap").i("c", c));
}
