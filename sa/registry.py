"""Which drivers and rules decide which property.

D(module, driver, **options): a driver explored to a fixpoint.  L(rule): a rule over syntax tree and call graph.
Options: thorough=True only in the thorough tier; tmin: options overriding in the thorough tier.
"""
REG = {}


def D(module, func, **opts):
    return ("driver", "specs." + module, func, opts)


def L(rule, **opts):
    return ("rule", rule, None, opts)


def P(pid, *units):
    REG[pid] = list(units)


def W(f, **o):
    return D("workqueue", f, **o)


def G(f):
    """Long histories."""
    return D("longer", f)


def O(f, **o):
    """Odd failures and sizes."""
    return D("odd", f, **o)


P("Q01", W("q01"), G("queue_thousands"), W("q01_equal"), G("queue_waiters"))
P("Q02", W("q02"), G("queue_thousands"), W("q02_cancel"))
P("Q03", W("q03"), W("q03_delaying"), W("q03_rate"), W("q03_ends_delaying"), W("q03_ends_rate"), W("q03_ends_default"), O("shut_at_once"))
P("Q04", W("q04"), G("queue_thousands"), G("queue_plain"), G("queue_delaying"), W("q04_equal"), W("q04_delaying"))
P("Q05", W("q05"), G("delays_thousands"), G("delays_many"), W("q05_same"), W("q05_zero"), W("q05_symbolic"), W("q05_three"), W("q05_full"), W("q05_equal"), W("q05_races"), W("q05_four", thorough=True), O("round_and_round"))
P("Q06", W("q06_counts"), G("limiter_thousands"), G("limiter_many"), W("q06_equal"), W("q06_symbolic"), W("q06_total"), O("limiter_wide"))
P("Q07", W("q07_max"), W("q07_default"), W("q07_add"), O("limited_again"))
P("Q08", W("q08"), W("q08_long"), W("q08_reject"))
P("Q09", W("q09"))

def S(f, **o):
    return D("stores", f, **o)


def F(f, **o):
    return D("delta", f, **o)


P("S01", S("s01"), G("stores_thousands"), G("stores_many"), S("s01_three"), S("s01_indexer"), S("s01_concurrent"), O("equal_objects"))
P("S02", S("s02"), G("stores_thousands"), G("stores_many"), S("s02_two"), S("s02_namespace"), S("s01_concurrent"), O("equal_objects"))
P("S03", S("s03"), S("s03_namespace"))
P("S04", S("s04"), G("fifo_thousands"), G("fifo_many"), S("s05_wait"), O("fifo_errors"), O("fifo_requeue"), O("equal_queues"))
P("S05", S("s05_sync"), G("fifo_thousands"), S("s05_close"), S("s05_wait"), O("fifo_requeue"), O("fifo_errors"))
P("F01", F("f01"), G("deltas_thousands"), G("deltas_many"), G("deltas_deep"), F("f01_one"), F("f01_deep"), F("f01_known"), F("f01_known_one"), O("delta_same"), O("equal_queues"), O("delta_requeue"))
P("F02", F("f02"), G("deltas_many"), F("f01_known"), F("f02_deep", thorough=True), O("delta_gone"))
P("F03", F("f03"), G("deltas_thousands"), O("delta_requeue"), O("delta_errors"))
P("F04", F("f04_close"), F("f04_wait"), F("f04_requeue"), F("f04_closed_requeue"), F("f04_cancel"), F("f04_keys"), O("delta_errors"), O("delta_requeue"))
P("F05", F("f05"), F("f01_known_one"), F("f01_known"), F("f05_fail", thorough=True))
P("F06", F("f01"), F("f01_one"), F("f01_known"))


def U(f, **o):
    return D("util", f, **o)


def R(f, **o):
    return D("reflect", f, **o)


P("U01", U("u01_loop"), G("loop_many"), U("u01_until"), U("u01_busy"), U("u01_jitter"))
P("U02", U("u02_backoff"), G("poll_many"), G("backoff_many"), U("u02_cap"), U("u02_backoff_cap"), U("u02_poll"), U("u02_slow"), O("condition_errors"))
P("U03", U("u03_fake_timers"), G("clock_many"), G("ticker_many"), U("u03_fake_ticker"), U("u03_real_timer"), U("u03_real_ticker"))
P("A01", U("a01"), U("a01_symbolic"), U("a01_list"), U("a01_record"), U("a01_reject"))
P("A02", U("a02"))
P("R01", R("r01_events"), G("reflect_thousands"), G("reflect_many"), R("r01_gvk"), R("r01_error"), O("slow_store"), O("reflector_errors"))
P("R02", R("r03"), G("reflect_many"), R("r01_events"), O("slow_store"))
P("R03", R("r03_limits"), G("relist_many"), R("r03"), R("r05_error"), O("slow_store"), O("reflector_errors"), O("resync_errors"))
P("R04", R("r04_run"), R("r04_cycle"), R("r04_slow"))
P("R05", R("r05"), G("resync_many"), R("r05_error"), R("r05_none"), O("resync_errors"))


def M(f, **o):
    return D("muxes", f, **o)


P("M01", M("m01_one"), G("events_thousands"), M("m01_readers"), G("watchers_many"), G("events_many"), M("m01_rendezvous"), M("m01_two"), M("m01_two_rendezvous"), M("m01_types"), M("m01_longer"), M("m01_full"), M("m01_full_two"), M("m01_pressure"),
  M("m01_three", thorough=True), M("m01_stop", thorough=True), O("rendezvous_pressure"))
P("M02", M("m02"), G("drops_many"), M("m02_full"), M("m02_two"), M("m02_prefix"), M("m01_types"))
P("M03", M("m01_stop_small"), M("m03_full"), M("m03_full_down"), M("m01_stop_rendezvous"), M("m03_stop_race"), M("m03_stop_race_rendezvous"), M("m03_all"),
  M("m03_down"), M("m03_down_rendezvous"), M("m03_context"), M("m01_stop", thorough=True))
P("M04", M("m04"), M("m04_context"))


def C(f, **o):
    return D("ctrl", f, **o)


P("C01", C("c01"), C("c01_often"), G("work_many"), C("c02_two"), O("reconcile_errors"))
P("C02", C("c02"), G("work_many"), C("c02_cancel"), C("c02_drain"), C("c02_two"), O("reconcile_errors"))
P("C03", C("c03"))
P("C04", C("c04"), C("c04_update"), C("c04_direct"), C("c04_built"))
P("C10", C("c10"), C("c10_source"), C("c10_reconcile"))


def K(f, **o):
    return D("cachespec", f, **o)


P("C05", K("c05"), K("c05_wait"), K("c05_first"))
P("C06", K("c06"), K("c05_wait"))
P("C07", K("c07"))
P("C08", K("c08"))
P("C09", K("c09"))
P("C11", K("c11"), K("c11_use"))
P("C12", D("whole", "c12_changes"), D("whole", "c12_answers"), D("whole", "c12_broken"), D("whole", "c12_slow"), D("whole", "c12_two"))


def E(f, **o):
    return D("elect", f, **o)


P("L01", E("l01"), G("candidate_many"), E("l03"), O("lock_errors"))
P("L02", E("l01"), E("l03"), E("l04_release"))
P("L03", E("l03"), G("leader_many"), E("l02_pace"), O("lock_errors"))
P("L04", E("l01"), E("l04_acquire"), E("l04"), E("l04_release"))
P("L05", E("l05"), E("l05_factor"))
P("L06", E("l06"), E("l06_stale"))
P("L07", E("l07"))



def I(f, **o):
    return D("informer", f, **o)


P("I01", I("i01_plain"), I("i01_many"), I("i01_shared"), I("i01_slow"), I("i01_listing"), I("i01_slow_two", thorough=True), O("process_errors"))
P("I02", I("i02_two"), I("i02_resync"), I("i02_late"), I("i02_any"), I("i02_plain"), I("i02_listing"), O("stuck_resync"))
P("I03", I("i03_early"), I("i03"), I("i03_slow"), I("i03_pair"), I("i03_burst"), I("i03_relist"), I("i03_stopped"), I("i03_full", thorough=True),
  I("i03_slow_full", thorough=True), I("i03_pair_full", thorough=True))
P("I04", I("i04_backlog"), I("i04_thousands"), I("i04_slow"), I("i04_failing"), I("i04_long"), O("handler_errors"))
P("I05", I("i05_shared"), I("i05_plain"), I("i05_resync"), I("i05_queue"), I("i03_stopped"))
P("I06", I("i06"), I("i02_any"))
P("I07", I("i07_plain"), I("i07_shared"), I("i07_wait"), I("i07_wait_fails"), I("i07_retry"), I("i05_queue"), I("i07_stopped"), I("i07_unversioned"), O("process_errors"))
P("I08", I("i08"))


def N(d):
    """A driver used only to find coroutines that are created and never awaited."""
    return d[:3] + (dict(d[3], never=True),)


def T(f, **o):
    return D("fakes", f, **o)


P("T01", T("t01"), T("t01_keys"), T("t01_together"), T("t01_many"), T("t01_copies"), T("t01_pressure"), T("t01_deep", thorough=True))
P("T02", T("t02"))
P("X01", L("X01"), *[N(d) for d in (
    W("q04"), W("q04_delaying"), W("q03_delaying"), W("q05_same"), W("q02_cancel"), S("s01"), S("s01_indexer"), S("s02"), S("s05_wait"),
    F("f01_one"), F("f04_close"), F("f04_requeue"), U("u01_loop"), U("u01_until"), U("u02_poll"), U("u03_fake_timers"), U("u03_real_ticker"),
    R("r01_events"), R("r04_cycle"), R("r05"), M("m01_rendezvous"), M("m01_two_rendezvous"), M("m01_longer"), M("m03_down_rendezvous"), M("m04"),
    C("c01"), C("c02"), C("c03"), C("c04"), C("c04_built"), C("c02_cancel"), K("c05"), K("c05_wait"), K("c06"), K("c07"), K("c08"), K("c09"),
    E("l01"), E("l04_release"), E("l04_acquire"), E("l06"), I("i01_shared"), I("i01_plain"), I("i05_shared"), I("i05_resync"), I("i07_retry"),
    I("i07_shared"))])
P("X02", L("X02"))
P("X03", L("X03"))
P("X04", *[D("twins", "x04_" + f) for f in ("queues", "limiters", "stores", "watch", "mux", "clocks", "informers", "caches", "managers",
                                            "controllers", "sources", "electors")])

NOTES = {}
NOT_APPLICABLE = {}


def more(units, *pids):
    """Long mixed histories, by what they bear on."""
    for p in pids:
        REG[p].extend(D("mixed", u) for u in units)


more(["queue_plain"], "Q01", "Q02", "Q03", "Q04")
more(["queue_delaying"], "Q04")
more(["delays"], "Q05")
more(["limiters"], "Q06")
more(["fifos"], "S04", "S05")
more(["deltas_known", "deltas_plain"], "F01", "F03", "F06")
more(["deltas_known"], "F02", "F05")
more(["stores"], "S01", "S02")
more(["bus_wait"], "M01", "M03")
more(["bus_drop"], "M02")
more(["informer_plain", "informer_shared"], "I01")
more(["informer_shared"], "I03", "I08", "R02")
REG["C01"].append(O("limited_again"))
more(["controllers"], "C01", "C02")
more(["elections"], "L01", "L02", "L03", "L04", "L07")


def patient(unit, *pids):
    """Very long waits and delays of any size."""
    for p in pids:
        REG[p].append(D("patience", unit))


patient("queues", "Q01", "Q03")
patient("delays", "Q05", "Q07")
patient("fifos", "S05", "F04")
patient("buses", "M01", "M02")
patient("fakes", "M04")
patient("reflectors", "R01", "R04")
patient("informers", "I01", "I04")
patient("syncing", "I07")
patient("reconciles", "C02", "C03")
patient("managers", "C07")
patient("leaders", "L03", "L01")
