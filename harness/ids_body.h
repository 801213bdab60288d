static HT_EventIdProvider* any_provider(vf_step* log)
{
    HT_EventIdProvider* p = ht_event_id_provider_create();
    vf_assume(p != NULL);
    log->steps = 0;
    vf_shared(p, sizeof *p, log, NULL);     /* any number of other threads take ids from it */
    return p;
}
static vf_step g_log;
HARNESS H_next(void)
{
    HT_EventIdProvider* p = any_provider(&g_log);
    vf_cover("pre");
    HT_EventId a = ht_event_id_provider_next(p);
    vf_assert(g_log.steps == 1, "an id is taken in a single atomic step");
    vf_assert(g_log.new_value == g_log.old_value + 1, "the counter advances by one");
    vf_assert(a == g_log.old_value, "the id is the value before the step");
}
/* no-native H_next */
HARNESS H_create(void)
{
    vf_malloc_may_fail(1);
    HT_EventIdProvider* p = ht_event_id_provider_create();
    if (p)
    {
        vf_cover("ok");
        vf_assert(ht_event_id_provider_next(p) == 0, "ids start at zero");
        vf_assert(ht_event_id_provider_next(p) == 1, "and are consecutive");
    }
    else vf_cover("oom");
    ht_event_id_provider_destroy(p);
    vf_assert(vf_live() == 0, "nothing leaks");
}
HARNESS H_default(void)
{
    HT_EventIdProvider* p = ht_event_id_provider_get_default();
    vf_cover("pre");
    vf_assert(p != NULL && ht_event_id_provider_get_default() == p, "one default source");
    HT_EventId a = ht_event_id_provider_next(p), b = ht_event_id_provider_next(ht_event_id_provider_get_default());
    vf_assert(b == a + 1, "handed out consecutively");
}
