"""Which jobs decide which property, per tier."""

SQL = ("sqlite", "postgres", "mysql")
GIS = ("postgis",)

# settings a case needs
NEEDS = {
    "odd": {"VCASE_ACCOUNT": "vcase.MyAccount"},
    "maps": {"INSTALLED_APPS": ["django.contrib.contenttypes", "django.contrib.postgres", "denorm", "vcase"]},
}


def job(case, kw, **more):
    out = dict(kw, case=case, **more)
    if case in NEEDS:
        out["settings"] = dict(NEEDS[case], **kw.get("settings", {}))
    return out


def histories(oracles, cases, n, backends=SQL, streams=1, **kw):
    out = []
    for case in cases:
        for b in backends:
            for k in range(streams):
                out.append(job(case, kw, scenario="history", backend=b, oracles=oracles, n=n, tag="h%d" % k,
                               stream="%s-%d" % (b, k), cost=n))
    return out


def sweeps(oracles, cases, backends=SQL, parts=1, **kw):
    return [job(case, kw, scenario="sweep", backend=b, oracles=oracles, tag="s%d" % k, stream=b, share=[k, parts],
                cost=300 // parts)
            for case in cases for b in backends for k in range(parts)]


def each(cases, backends=SQL, **kw):
    return [job(c, kw, backend=b, stream=kw.get("tag", "") + b) for c in cases for b in backends]


PROPERTIES = {}


def prop(rule, level="exploration", require=None, distinct=20, assumptions=()):
    def deco(fn):
        PROPERTIES[fn.__name__.upper()] = dict(jobs=lambda tier: fn(tier == "quick"), level=level, rule=rule,
                                               require=require or {}, min_distinct=distinct, assumptions=list(assumptions))
        return fn
    return deco


@prop("a flush with pending work; distinct by the pending work and the rows it is for",
      require={"flush_calls": 200, "callback_values_compared": 5000, "scale:leaf": 6, "scale:long chain, root": 3, "many_rows_flushed": 6000}, distinct=50)
def c01(q):
    on = ["flush"]
    big = [dict(scenario="scale", case="main", backend=b, n=4 if q else 60, depth=22 if q else 60, deep=150 if q else 500, many=2300 if q else 9000,
                tag="n", stream=b, cost=1000) for b in SQL]
    if q:
        return big + histories(on, ["main"], 140, streams=2, pflush=0.5) + histories(on, ["pks", "links"], 90, pflush=0.5)
    return (big + histories(on, ["main"], 900, streams=3, pflush=0.5) +
            histories(on, ["pks", "links", "inherit", "names", "odd", "skip"], 900, pflush=0.5) +
            histories(on, ["main", "links"], 500, pflush=0.1, per=120, rows=12))


@prop("a change that makes at least one stored value differ from its function; distinct by what was changed by which API and "
      "which values became wrong", require={"steps": 500}, distinct=150)
def c02(q):
    on = ["silent"]
    if q:
        return (sweeps(on, ["main"], parts=2) + sweeps(on, ["kinds"], parts=2) + sweeps(on, ["maps"], backends=GIS) +
                histories(on, ["main"], 150) + histories(on, ["pks", "links", "loose", "codes", "generic", "solid"], 100))
    return (sweeps(on, ["kinds"], parts=3) + sweeps(on, ["maps"], backends=GIS, parts=2) +
            histories(on, ["maps"], 800, backends=GIS, streams=2) +
            sweeps(on, ["main", "links", "pks", "inherit", "names", "loose"], parts=3) + sweeps(on, ["main"], parts=4, k=3) +
            histories(on, ["main", "pks", "links", "inherit", "names", "loose", "kinds", "codes", "generic", "solid"], 800, streams=2))


@prop("an interruption of a flush that had work left; distinct by the statement or function interrupted, the way and the "
      "pending work", level="fault_enumeration", require={"recovered": 30}, distinct=30)
def c03(q):
    return each(["main", "links"] if q else ["main", "links", "inherit", "pks"], scenario="faults", n=300 if q else 4000, tag="f")


@prop("a change or flush of another session between two statements of a flush; distinct by the statements around it, the "
      "change and the rows it touches", distinct=100)
def c04(q):
    return each(["main", "links"] if q else ["main", "links", "pks", "inherit"], scenario="interleave", n=240 if q else 1200,
                tag="i")


@prop("a statement after which a counter or sum has another value than before; distinct by operation and values",
      require={"steps": 500}, distinct=200)
def c05(q):
    on = ["agg"]
    n = 1 if q else 8
    return (sweeps(on, ["main"] if q else ["main", "inherit", "pks"], pflush=0.2) + histories(on, ["main"], 150 * n) +
            histories(on, ["pks", "inherit", "kinds", "codes"], 100 * n) + histories(on, ["filters"], 300 * n, backends=SQL[1:]) +
            sweeps(on, ["filters"], backends=SQL[1:]))


@prop("a commit of another session between two statements of a save, and rounds of freely running sessions; distinct by the "
      "statements around it and what was committed", require={"injected": 60, "waited": 40, "operations_of_free_sessions": 300},
      distinct=60)
def c06(q):
    work = ["Shelf", "Box", "Item", "Person"]
    return (each(["main"], SQL[1:], scenario="parallel", mode="overlap", n=250 if q else 3000, tag="o", work=work) +
            each(["main"], scenario="parallel", mode="inject", n=250 if q else 3000, tag="i", work=work) +
            each(["main"], scenario="parallel", mode="free", n=25, rounds=6 if q else 80, tag="f", work=work))


@prop("a change after which an object depends on other data than before; distinct by operation, API and objects",
      require={"steps": 400}, distinct=100)
def c07(q):
    on = ["key"]
    if q:
        return (sweeps(on, ["keys"]) + sweeps(on, ["kinds"]) + sweeps(on, ["maps"], backends=GIS) +
                histories(on, ["main"], 150) + histories(on, ["keys", "pks", "loose", "codes", "generic"], 100))
    return (sweeps(on, ["keys", "main", "pks", "loose", "kinds"], parts=2) + sweeps(on, ["maps"], backends=GIS) +
            histories(on, ["main", "keys", "pks", "inherit", "links", "skip", "loose", "codes", "generic"], 900, streams=2))


@prop("a change next to objects with a key that do not depend on it; distinct by operation, API and objects",
      require={"steps": 300}, distinct=100)
def c08(q):
    on = ["keyquiet"]
    if q:
        return sweeps(on, ["keys"]) + histories(on, ["keys", "generic"], 100)
    return sweeps(on, ["keys"], parts=2) + histories(on, ["keys", "generic"], 1200, streams=3, weights=dict(noop=25))


@prop("reading a cached value that is no longer what it was at the last reading, or was never read; distinct by object, value and "
      "operation before it", require={"cached_values_compared": 2000}, distinct=100)
def c09(q):
    n = 400 if q else 4000
    return sweeps(["cached"], ["cachedvals"]) + histories(["cached"], ["cachedvals"], n, streams=1 if q else 2, pflush=0, per=50)


@prop("a save of an object whose stored values were out of date or that is new; distinct by model, API and values",
      require={"steps": 400}, distinct=100)
def c10(q):
    on = ["immediate"]
    if q:
        return (sweeps(on, ["main"], parts=2) + sweeps(on, ["odd"], parts=2) +
                sweeps(on, ["maps"], backends=GIS) + histories(on, ["main", "inherit", "links", "odd", "kinds"], 100))
    return (sweeps(on, ["main", "links", "inherit", "pks", "odd", "kinds"], parts=3) + sweeps(on, ["maps"], backends=GIS) +
            histories(on, ["main", "inherit", "links", "pks", "names", "odd", "kinds", "codes", "generic", "solid"], 900, streams=2))


@prop("a step of a sequence of installations and removals that changes the triggers of the database; distinct by the steps "
      "leading to it", require={"behaviour_checked": 20, "printed_statements_executed": 20}, distinct=60)
def c11(q):
    n = 200 if q else 2000
    return [dict(scenario="lifecycle", case=c, backend=b, n=n, tag="l", stream=b, aliases=["other"], table=t)
            for c, t in (("main", "vcase_box"), ("long", "elsewhere"), ("names", "elsewhere")) for b in SQL]


@prop("a rebuild that found wrong values in its scope; distinct by damage and scope",
      require={"out_of_scope_tables_compared": 50}, distinct=60)
def c12(q):
    n = 30 if q else 300
    apart = {"main": ["Node"], "scopes": ["Part", "PartKind", "Bit", "Vcase_Part"]}
    return [job(c, {}, scenario="rebuild", backend=b, n=n, tag="r", stream=b, unrelated=apart.get(c, []))
            for c in ("main", "inherit", "pks", "odd", "scopes", "codes", "generic", "solid") for b in SQL]


@prop("a commit of another session that leaves values out of date while the daemon runs, and starts and ends of daemons; "
      "distinct by change and daemon state", require={"cycles": 100, "second_start": 3, "started_despite_stale_pid_file": 3,
                                                        "run_once": 3}, distinct=30)
def c13(q):
    return each(["main", "links"], scenario="daemon", rounds=12 if q else 100, tag="d")


MIDDLEWARE = ["denorm.middleware.DenormMiddleware"]


@prop("a request that leaves values out of date when the view is done; distinct by changes and outcome", distinct=100)
def c14(q):
    n = 80 if q else 1000
    out = []
    for b in SQL:
        out += [
            dict(scenario="requests", case="main", backend=b, n=n, tag="m", stream=b, active=True, middleware=MIDDLEWARE),
            dict(scenario="requests", case="main", backend=b, n=n, tag="a", stream=b + "a", active=True, atomic=True,
                 middleware=["django.middleware.common.CommonMiddleware"] + MIDDLEWARE),
            dict(scenario="requests", case="links", backend=b, n=n, tag="s", stream=b + "s", active=True,
                 settings={"DENORM_FLUSH_AFTER_REQUEST": True}),
        ]
    return out + [dict(scenario="requests", case="links", backend="sqlite", n=n // 2, tag="n", stream="n", active=False,
                       settings={"DENORM_FLUSH_AFTER_REQUEST": False})]


@prop("a generated migration that was written, loaded and applied; distinct by its operations",
      require={"migrations_written": 100, "rows_by_historical_models": 300}, distinct=40)
def c15(q):
    return [dict(scenario="migrations", case=c, backend=b, n=12 if q else 60, tag="g", stream=b, aliases=["other"])
            for c in ("main", "pks", "inherit", "cachedvals", "keys", "opts", "names", "kinds", "codes") for b in SQL]


@prop("a pair of models with a dependency; distinct by relations, hints, order and form of the declaration",
      require={"resolved": 300, "refused:none": 200, "refused:several": 100, "tracked:forward": 30, "tracked:backward": 30,
               "tracked:forward_m2m": 30, "tracked:backward_m2m": 30, "tracked:forward_m2m:generic": 10, "tracked:backward_m2m:generic": 10}, distinct=1000)
def c16(q):
    return [dict(scenario="resolve", case="blank", backend=b, n=1200 if q else 12000, tables=300 if q else 3000, tag="r%d" % k,
                 stream="%s-%d" % (b, k)) for b in SQL for k in range(2)]


@prop("a change of skipped or tracked columns of a model others depend on; distinct by columns, API and what it marked",
      require={"steps": 400}, distinct=150)
def c17(q):
    on = ["silent", "precise", "key", "keyquiet", "flush"]
    return histories(on, ["skip"], 150 if q else 2000) + sweeps(on, ["skip"], parts=3)


@prop("a flush with pending work; distinct by the rows before it", distinct=60)
def c18(q):
    return histories(["intrude"], ["main", "inherit", "links"], 100 if q else 1500)


ALL = ["silent", "flush", "agg", "key", "immediate"]


@prop("an evaluation of the oracles of consistency, counters, keys and saving on models with unusual declarations; distinct as "
      "for those", require={"steps": 1000}, distinct=300)
def c19(q):
    n = 150 if q else 1500
    return (histories(ALL, ["pks", "names", "long", "inherit", "odd", "codes"], n) +
            sweeps(ALL, ["odd"], parts=3) + ([] if q else sweeps(ALL, ["pks", "names", "long", "inherit", "codes"], parts=2)))


@prop("a transaction or savepoint that changed something before it was rolled back; distinct by the steps inside", distinct=100)
def c20(q):
    return histories(["rollback", "flush"], ["main", "inherit", "links", "pks", "keys"], 120 if q else 1500,
                     weights=dict(txn=60, deep=25, flush=10, rebuild=3))


@prop("a write that changes nothing, or a change next to rows that do not depend on it; distinct by columns, API and marked rows",
      require={"steps": 400}, distinct=100)
def c21(q):
    n = 120 if q else 1500
    return (histories(["quiet"], ["main", "inherit", "links"], n, weights=dict(noop=40, load=2)) +
            sweeps(["quiet"], ["main", "inherit", "links", "pks", "kinds"] + ([] if q else ["names", "odd"]), noops=True) +
            sweeps(["quiet"], ["maps"], backends=GIS, noops=True) +
            histories(["precise"], ["main", "links", "pks", "loose", "kinds", "codes", "generic"], n))


@prop("as for consistency, counters and keys, with the setting that leaves out bulk protection", require={"steps": 400},
      distinct=150)
def c22(q):
    n = 150 if q else 1500
    kw = dict(settings={"DENORM_BULK_UNSAFE_TRIGGERS": True})
    on = ["silent", "flush", "agg", "key"]
    return (histories(on, ["unsafe"], n, **kw) + sweeps(on, ["unsafe"], parts=2, **kw) +
            histories(["silent"], ["main"], n // 2, settings={"DENORM_BULK_UNSAFE_TRIGGERS": False}))


@prop("a save of an object some of whose denormalized fields were set by hand, and a generated form; distinct by model, API and "
      "columns", require={"spoilt": 200, "form_saved": 200}, distinct=100)
def c23(q):
    n = 120 if q else 1500
    return histories(["byhand", "immediate"], ["main", "inherit", "pks", "keys", "odd"], n, spoil=0.9,
                     weights=dict(form=40, m2m=6, rel=2, noop=1, load=4, txn=1))


@prop("a value function that raises while its object is saved, flushed or rebuilt; distinct by function, kind of error, "
      "operation and API", require={"recovered": 300, "raised:save": 500, "raised:flush": 60, "raised:rebuild": 60}, distinct=300)
def c24(q):
    return each(["main", "inherit", "pks", "keys", "odd", "links"], scenario="errors", n=110 if q else 1200, tag="e")


ENGINES = {
    "sqlite": ["django.db.backends.sqlite3", "vengine.sqlite3"],
    "postgres": ["django.db.backends.postgresql", "django.db.backends.postgresql_psycopg2", "vengine.postgresql",
                 "vengine.postgresql_psycopg2", "vengine.postgis"],
    "postgis": ["django.contrib.gis.db.backends.postgis"],
    "mysql": ["django.db.backends.mysql", "django.contrib.gis.db.backends.mysql", "vengine.mysql"],
}
DIALECTS = {"sqlite": "denorm.db.sqlite3", "postgres": "denorm.db.postgresql", "postgis": "denorm.db.postgresql",
            "mysql": "denorm.db.mysql"}


@prop("a change or flush on a database by one of its names, or a refusal; distinct by the engine, the backend in the settings "
      "and what happened", require={"refused": 6, "own_backend_used": 6, "steps": 1000}, distinct=100)
def c25(q):
    on = ["silent", "agg", "key", "flush"]
    out = []
    for b, names in ENGINES.items():
        which = [(e, None) for e in names]
        which += [(e, d) for e in names[:1] + ["vengine.pool", "vengine.mssql"] for d in (DIALECTS[b], "vengine.mine")]
        for k, (e, d) in enumerate(which):
            for h in histories(on, ["main"] if q else ["main", "links", "inherit"], 50 if q else 400, backends=[b],
                               engine=e, denorm_backend=d):
                out.append(dict(h, scenario="engines", tag="e%d" % k, stream="%s-%d" % (b, k)))
        for k, e in enumerate(["vengine.pool", "vengine.mssql"]):
            out.append(dict(scenario="engines", case="main", backend=b, engine=e, refused=True, tag="r%d" % k, stream=b, cost=20))
    return out


@prop("loading a fixture; distinct by mode, order, values and rows", require={"loads": 200, "rows_loaded": 2000}, distinct=60)
def c26(q):
    n = 40 if q else 400
    cases = ["main", "pks", "inherit", "links", "codes", "solid"] + ([] if q else ["names", "odd", "generic", "loose"])
    return each(cases, scenario="fixtures", n=n, tag="x")
