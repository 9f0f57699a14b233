#include "hawktracer.h"
HT_DECLS_BEGIN
int pr_other(HT_Timeline* t);
HT_DECLS_END
int pr_other(HT_Timeline* t)
{
    HT_Event e;
    (void)e;
    { HT_TRACE(t, "in the other file"); }
    if (ht_HT_Event_get_size(&e) != 20) return 1;
    if (ht_HT_CallstackIntEvent_get_event_klass_instance()->klass_id == 0) return 2;
    return ht_thread_get_current_thread_id() ? 0 : 3;
}
