import itertools

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P25"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "created", "asked_again", "same_instrument", "other_unit", "other_description", "other_kind", "case_variants", "comma_twins", "advisory_conflicts", "invalid_names", "invalid_units", "invalid_again", "measurements",
    "same_meter", "different_meters", "scope_attributes", "nameless_meters", "tracer_scopes", "logger_scopes", "concurrent_creations", "concurrent_observables", "concurrent_meters", "racing_creations",
]
RULE = (
    "Random histories of meters and instruments created over colliding names, units, descriptions, kinds and scopes, judged by a registry model and by the "
    "streams collected; the same creations from several threads at once under the schedule fuzzer, racing with collections; scopes of spans and log records "
    "compared with what was asked for; distinct = history or program plus context switches."
)
ASSUMPTIONS = ["names that are valid once surrounding blanks are stripped are not asked for", "an observable instrument asked for again keeps the callbacks it was created with"]
KINDS = ["Counter", "UpDownCounter", "Histogram", "Gauge", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge"]
CREATE = {
    "Counter": "create_counter", "UpDownCounter": "create_up_down_counter", "Histogram": "create_histogram", "Gauge": "create_gauge",
    "ObservableCounter": "create_observable_counter", "ObservableUpDownCounter": "create_observable_up_down_counter", "ObservableGauge": "create_observable_gauge",
}
NAMES = ["a", "A", "req.count", "Req.Count", "REQ.COUNT", "b", "x/y-z_0", "n" * 255, "N" * 255]
UNITS = ["", "ms", "By", "a,b", "a", "a,", "{x}", "u" * 63, None]
DESCS = ["", "d", "b,c", "c", ",c", "long\ntext", None]
BAD_NAMES = ["", "1a", "_a", "a b", "é", "a\nb", "n" * 256, "a,b", "a$", "-", "aé", "a*"]
BAD_UNITS = ["é", "u" * 64, "µs", "m\u00b2"]
SCOPES = [
    ("m", None, None, None), ("m", "1", None, None), ("m", "1", "https://s", None), ("m", None, "https://s", None), ("m", "1", "https://s", {"k": 1}), ("m", "1", "https://s", {"k": 2}),
    ("n", None, None, None), ("m", None, None, {"k": 1}), ("m", "2", None, None), ("M", None, None, None),
]


def act(kind, h, v, attrs=None):
    {"Counter": lambda: h.add(v, attrs), "UpDownCounter": lambda: h.add(v, attrs), "Histogram": lambda: h.record(v, attrs), "Gauge": lambda: h.set(v, attrs)}[kind]()


def scope_key(s):
    return (s[0], s[1], s[2] or None, mm.key(s[3]))


def point_value(kind, p):
    return p.sum if kind == "Histogram" else p.value


def histories(case):
    from opentelemetry.metrics import Observation

    rng = case.rng
    quiet.silence()
    reader = mm.reader_class()(preferred_temporality=mm.temporality(rng, False)[0])
    from opentelemetry.sdk.resources import Resource

    res = Resource(rng.choice([{}, {"service.name": "s"}, {"a": 1, "b": "x"}]), rng.choice(["", "https://r/1"]))
    prov = mm.provider([reader], resource=res)
    reg = {}  # (scope, name, kind, unit, desc) -> handle
    meters = {}
    totals = {}
    unique = itertools.count(1)
    callbacks = {}
    shape = []
    names, kinds = rng.sample(NAMES, 3), rng.sample(KINDS, rng.choice([2, 3, 7]))
    pairs = [(rng.choice(UNITS), rng.choice(DESCS)) for _ in range(rng.choice([1, 2, 4]))] + ([("a", "b,c"), ("a,b", "c")] if rng.random() < 0.3 else [])
    scs = rng.sample(SCOPES, rng.choice([1, 2, 10]))
    failed = set()
    for _ in range(rng.randrange(4, 28)):
        sc = rng.choice(scs)
        attrs = dict(sc[3]) if sc[3] else rng.choice([None, {}]) if sc[3] is None else None
        m = prov.get_meter(sc[0], version=sc[1], schema_url=sc[2], attributes=attrs)
        if attrs:
            attrs["k"] = "changed by the caller"
            case.observe("scope_attributes")
        k = scope_key(sc)
        if k in meters:
            case.check(meters[k] is m, "meter-again", f"another meter for {sc}")
            case.observe("same_meter")
        else:
            case.check(all(m is not x for x in meters.values()), "meter-shared", f"the meter of {sc} is that of another scope")
            if meters:
                case.observe("different_meters")
            meters[k] = m
        kind = rng.choice(kinds)
        unit, desc = rng.choice(pairs)
        name = rng.choice(names)
        bad = None
        if rng.random() < 0.15:
            name, bad = rng.choice(BAD_NAMES), "name"
        elif rng.random() < 0.05:
            unit, bad = rng.choice(BAD_UNITS), "unit"
        kw = dict(unit=unit, description=desc)
        adv = None
        if kind == "Histogram" and rng.random() < 0.3:
            adv = rng.choice([[1, 2], [5]])
            kw["explicit_bucket_boundaries_advisory"] = adv
        n = next(unique)
        if kind.startswith("Obs"):
            kw["callbacks"] = [lambda o, n=n: [Observation(n)]]
        shape.append((k, name, kind, unit, desc))
        with quiet.capture() as logs:
            try:
                h = getattr(m, CREATE[kind])(name, **kw)
                raised = None
            except Exception as exc:
                h, raised = None, exc
        if bad:
            case.observe("invalid_names" if bad == "name" else "invalid_units")
            what = f"{kind} {name[:20]!r} unit {unit!r}"
            case.check(raised is not None or logs, "invalid-silent", f"{what} was accepted silently")
            case.check(not isinstance(raised, (KeyError, AttributeError, TypeError)), "invalid-error", f"{what}: {raised!r}")
            f = (k, name, kind, unit, desc)
            if f in failed:
                case.observe("invalid_again")
            failed.add(f)
            if h is not None and not kind.startswith("Obs"):
                act(kind, h, n)
            continue
        if raised is not None:
            case.fail("create-raised", f"{kind} {name[:20]!r} unit {unit!r} description {desc!r}: {raised!r}")
        ident = (k, name.lower(), kind, unit or "", desc or "")
        if ident in reg:
            case.check(reg[ident][0] is h, "again", f"another instrument for {ident}")
            case.observe("asked_again")
            case.observe("same_instrument")
            if name != reg[ident][1]:
                case.observe("case_variants")
            if adv != reg[ident][2]:
                case.check(logs, "advisory-silent", f"advisory {adv} instead of {reg[ident][2]} without a warning")
                case.observe("advisory_conflicts")
        else:
            twin = [x for x in reg if reg[x][0] is h]
            case.check(not twin, "shared", f"{ident} is the instrument {twin[:1]}")
            for x in reg:
                if x[:2] == ident[:2]:
                    case.observe("other_kind" if x[2] != kind else "other_unit" if x[3] != ident[3] else "other_description")
                    if x[2] == kind and ",".join(x[3:]) == ",".join(ident[3:]):
                        case.observe("comma_twins")
            reg[ident] = (h, name, adv)
            case.observe("created")
            if kind.startswith("Obs"):
                totals[ident] = n
        if not kind.startswith("Obs"):
            v = next(unique)
            act(kind, h, v)
            totals[ident] = v if kind == "Gauge" else totals.get(ident, 0) + v
            case.observe("measurements")
        if rng.random() < 0.05:
            bad = rng.choice(["", None])
            with quiet.capture() as logs:
                nm = prov.get_meter(bad)
            case.check(logs, "nameless-silent", f"get_meter({bad!r}) without a warning")
            nm.create_counter("c").add(1)
            case.observe("nameless_meters")
    got = {}
    md = reader.take()
    seen = set()
    for rm in md.resource_metrics if md else []:
        case.check(rm.resource == res and (rm.schema_url or "") == res.schema_url, "resource", f"metrics reported for {rm.resource!r} {rm.schema_url!r} want {res!r}")
        for sm in rm.scope_metrics:
            sk = (sm.scope.name, sm.scope.version, sm.scope.schema_url or None, mm.key(sm.scope.attributes))
            case.eq(sm.schema_url or None, sk[2], "scope-schema-url", "schema URL of the collected scope metrics")
            case.check(sk not in seen, "scope-twice", f"{sk} reported twice")
            seen.add(sk)
            for x in sm.metrics:
                t = type(x.data).__name__
                case.check(len(x.data.data_points) == 1, "points", f"{x.name}: {len(x.data.data_points)} points")
                p = x.data.data_points[0]
                got.setdefault((sk, x.name, x.unit, x.description or "", t, getattr(x.data, "is_monotonic", None)), []).append(p.sum if t == "Histogram" else p.value)
    want = {}
    for (k, name, kind, unit, desc), v in totals.items():
        t = "Gauge" if kind.endswith("Gauge") else kind if kind == "Histogram" else "Sum"
        mono = {"Counter": True, "ObservableCounter": True, "UpDownCounter": False, "ObservableUpDownCounter": False}.get(kind)
        want.setdefault((k, name, unit, desc, t, mono), []).append(v)
    for x in set(got) | set(want):
        case.check(sorted(got.get(x, [])) == sorted(want.get(x, [])), "streams", f"{x}: {got.get(x)} want {want.get(x)}")
    case.sig(shape)
    prov.shutdown()


def scopes(case):
    """The scope of spans and log records is the one asked for."""
    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import InMemoryLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = case.rng
    quiet.silence()
    res = Resource(rng.choice([{}, {"service.name": "s"}, {"a": 1, "b": "x"}]), rng.choice(["", "https://r/1"]))
    tp, lp = TracerProvider(resource=res, shutdown_on_exit=False), LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
    se, le = InMemorySpanExporter(), InMemoryLogExporter()
    tp.add_span_processor(SimpleSpanProcessor(se))
    lp.add_log_record_processor(SimpleLogRecordProcessor(le))
    asked, shape = [], []
    tracers, loggers = {}, {}
    for n in range(rng.randrange(3, 15)):
        sc = rng.choice(SCOPES)
        shape.append(scope_key(sc))
        attrs = dict(sc[3]) if sc[3] else None
        t = tp.get_tracer(sc[0], sc[1], schema_url=sc[2], attributes=attrs)
        lg = lp.get_logger(sc[0], version=sc[1], schema_url=sc[2], attributes=attrs)
        tracers[scope_key(sc)], loggers[scope_key(sc)] = t, lg
        if attrs:
            attrs["k"] = "later"
        # an earlier handle of the same scope must do as well
        asked.append(sc)
        t.start_span(f"s{n}").end()
        lg.emit(LogRecord(body=f"s{n}", resource=Resource({})))
    spans, logs = se.get_finished_spans(), le.get_finished_logs()
    case.check(len(spans) == len(logs) == len(asked), "count", f"{len(spans)} spans {len(logs)} logs of {len(asked)}")
    for sc, sp, lg in zip(asked, spans, logs):
        for what, x in (("span", sp.instrumentation_scope), ("log", lg.instrumentation_scope)):
            got = (x.name, x.version or None, x.schema_url or None, mm.key(x.attributes))
            case.eq(got, scope_key(sc), "scope", f"scope of a {what}")
            case.observe("tracer_scopes" if what == "span" else "logger_scopes")
    for sp in spans:
        case.check(sp.resource == res and sp.resource.schema_url == res.schema_url, "resource", f"span of resource {sp.resource!r} want {res!r}")
    # equal exactly when asked for equally
    for i, a in enumerate(asked):
        for j, b in enumerate(asked):
            same = scope_key(a) == scope_key(b)
            for xs in (spans, logs):
                x, y = xs[i].instrumentation_scope, xs[j].instrumentation_scope
                case.check((x == y) == same, "scope-equality", f"{x} == {y} is {x == y}, asked {a} and {b}")
                case.check(not same or hash(x) == hash(y), "scope-hash", f"{x}")
    case.sig(shape)
    tp.shutdown()
    lp.shutdown()


def concurrent(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=400_000)
    box = {}

    def main():
        import threading
        from opentelemetry.metrics import Observation

        reader = mm.reader_class()(preferred_temporality=mm.temporality(rng, False)[0])
        prov = mm.provider([reader])
        bit = itertools.count()
        totals = {}
        observed = {}
        handles, ms = {}, {}
        busy = {}

        def create(scope, name, kind):
            m = prov.get_meter(scope, version="1")
            ms.setdefault(scope, []).append(m)
            case.observe("concurrent_meters")
            ident = (scope, name.lower(), kind)
            busy[ident] = busy.get(ident, 0) + 1
            if busy[ident] > 1:
                case.observe("racing_creations")
            b = 1 << next(bit)
            kw = {}
            if kind.startswith("Obs"):
                observed.setdefault(ident, []).append(b)
                kw["callbacks"] = [lambda o: [Observation(b)]]
                case.observe("concurrent_observables")
            h = getattr(m, CREATE[kind])(name, **kw)
            busy[ident] -= 1
            handles.setdefault(ident, []).append(h)
            case.observe("concurrent_creations")
            if not kind.startswith("Obs"):
                act(kind, h, b)
                totals[ident] = totals.get(ident, 0) + b

        pool = [(sc, nm, k) for sc in ("m", "n")[: rng.choice([1, 2])] for nm in ("a", "A", "b")[: rng.choice([1, 2, 3])] for k in rng.sample(["Counter", "UpDownCounter", "Histogram", "ObservableCounter", "ObservableGauge"], rng.choice([1, 2]))]
        plans = [[rng.choice(pool) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 3, 4]))]

        def work(plan):
            for x in plan:
                create(*x)

        ts = [threading.Thread(target=work, args=(p,)) for p in plans]
        if rng.random() < 0.5:
            ts.append(threading.Thread(target=lambda: mm.streams(reader.take())))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        box.update(md=reader.take(), totals=totals, observed=observed, handles=handles, ms=ms)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if not box:
        return
    for k, m in box["ms"].items():
        case.check(len({id(x) for x in m}) == 1, "meters", f"{len({id(x) for x in m})} meters for one scope {k}")
    for k, h in box["handles"].items():
        case.check(len({id(x) for x in h}) == 1, "instruments", f"{len({id(x) for x in h})} instruments for {k}")
    seen = {}
    for scope, m in mm.streams(box["md"]):
        t = type(m.data).__name__
        kind = "ObservableGauge" if t == "Gauge" else t if t == "Histogram" else ("UpDownCounter" if not m.data.is_monotonic else None)
        (p,) = m.data.data_points
        v = p.sum if t == "Histogram" else p.value
        seen.setdefault((scope.name, m.name, kind), []).append(v)
    want = {}
    for (sc, nm, kind), v in box["totals"].items():
        want.setdefault((sc, nm, None if kind == "Counter" else kind), []).append({v})
    for (sc, nm, kind), vs in box["observed"].items():
        want.setdefault((sc, nm, None if kind == "ObservableCounter" else kind), []).append(set(vs))
    case.eq(sorted(map(str, seen)), sorted(map(str, want)), "streams", "streams collected")
    for k, vs in seen.items():
        options = list(want[k])
        case.check(len(vs) == len(options), "duplicated", f"{k}: streams {vs} for {options}")
        for v in vs:
            hit = [o for o in options if v in o]
            case.check(hit, "values", f"{k}: {v} want one of each of {options}")
            options.remove(hit[0])


WORKLOADS = [Workload("histories", histories, 1600, 60_000), Workload("scopes", scopes, 240, 4_000), Workload("concurrent", concurrent, 1600, 40_000)]
