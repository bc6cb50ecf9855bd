import contextlib
import os
import random
import shutil
import sys
import tempfile
import threading
import warnings

from mon import forked, gen, quiet, sched
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P40"
VENV = "pb5"
SCHED = True
CASE_TIMEOUT = 300
REQUIRED = [
    "programs", "spans", "instruments", "points", "logs", "events", "operations_before", "scopes_with_attributes", "late_instruments", "stale_providers", "rejected_names", "races", "setters", "warnings", "proxies_seen",
    "winners_seen", "values_after_set", "instruments_created_in_races", "exemplars", "callbacks", "explicit_providers", "env_providers", "noop_spans", "noop_with_parent", "noop_without_parent", "noop_nested", "noop_injected", "noop_instruments", "noop_logs", "noop_exceptions", "decorated",
]
RULE = (
    "Fresh processes run one program twice, obtaining tracers, meters, instruments, loggers and event loggers before and after the providers are set, and both exports are compared with each other and the request; "
    "threads under the schedule fuzzer race setters, getters and users of all four globals; without a provider (proxies, no-op providers, a disabled SDK) random API programs must leave the context of the parent in place."
)
ASSUMPTIONS = ["measurements taken while the provider is being set may be lost (documented); a name the SDK rejects stays a no-op instrument when it was asked for early"]

SIGNALS = ["trace", "metrics", "logs", "events"]


# --- one program, obtained early or late ---------------------------------------------------------------------------------

KINDS = ["counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"]


def scope(rng):
    return dict(
        name=rng.choice(["lib", "lib.a", "näme", "x" * 50]),
        version=rng.choice([None, "", "1", "2.0"]),
        schema=rng.choice([None, "", "https://s/1"]),
        attributes=rng.choice([None, None, {}, {"a": 1}, {"b": "x", "c": ("y", "z")}]),
        via=rng.choice(["function", "global", "stale"]),
        keywords=rng.random() < 0.5,
    )


def program(rng):
    p = dict(tracers=[scope(rng) for _ in range(rng.randrange(1, 4))], meters=[], loggers=[scope(rng) for _ in range(rng.randrange(1, 3))], event_loggers=[scope(rng) for _ in range(rng.randrange(1, 3))])
    n = 0
    for _ in range(rng.randrange(1, 4)):
        m = scope(rng)
        m["instruments"] = []
        same = rng.choice([0.1, 0.1, 0.8])
        for _ in range(rng.randrange(0, 5)):
            n += 1
            kind = rng.choice(KINDS)
            bad = rng.random() < 0.06
            m["instruments"].append(
                dict(
                    kind=kind, name=rng.choice(["", "1x", "sp ace", "ü"]) if bad else f"i{n if rng.random() > same else 1}", bad=bad, unit=rng.choice(["", "ms", "1"]), description=rng.choice(["", "d", "what it is"]),
                    late=rng.random() < 0.3, boundaries=rng.choice([None, None, [1.0, 10.0], [0, 5, 50]]), sampled=rng.random() < 0.5, values=[(rng.choice([1, 2, 0.5, 7]), rng.choice([None, {}, {"k": "v"}, {"k": "w", "n": 1}])) for _ in range(rng.randrange(1, 4))],
                    style=rng.choice(["positional", "keyword"]), callbacks=rng.choice([1, 1, 2, 3]),
                )
            )
        p["meters"].append(m)
    p["order"] = rng.sample(SIGNALS, 4)
    p["before"] = rng.random() < 0.8
    p["seed"] = rng.random()
    return p


def obtain(kind, spec, stale):
    """The tracer, meter, logger or event logger in one of the ways there are to get it."""
    from opentelemetry import _events, _logs, metrics, trace

    n, v, s, a = spec["name"], spec["version"], spec["schema"], spec["attributes"]
    module, get, get_provider, stale_provider = {
        "trace": (trace, "get_tracer", trace.get_tracer_provider, stale["trace"]), "metrics": (metrics, "get_meter", metrics.get_meter_provider, stale["metrics"]),
        "logs": (_logs, "get_logger", _logs.get_logger_provider, stale["logs"]), "events": (_events, "get_event_logger", _events.get_event_logger_provider, stale["events"]),
    }[kind]
    if spec["via"] == "function":
        if kind == "trace":
            return trace.get_tracer(n, v, schema_url=s, attributes=a) if spec["keywords"] else trace.get_tracer(n, v, None, s, a)
        if kind == "metrics":
            return metrics.get_meter(n, v, schema_url=s, attributes=a) if spec["keywords"] else metrics.get_meter(n, v, None, s, a)
        if kind == "logs":
            return _logs.get_logger(n, v, schema_url=s, attributes=a) if spec["keywords"] else _logs.get_logger(n, v, None, s, a)
        return _events.get_event_logger(n, v, schema_url=s, attributes=a) if spec["keywords"] else _events.get_event_logger(n, v, s, a)
    p = get_provider() if spec["via"] == "global" else stale_provider
    if spec["keywords"] and kind != "trace":
        return getattr(p, get)(n, version=v, schema_url=s, attributes=a)
    return getattr(p, get)(n, v, s, a)


def make_instrument(meter, spec):
    kind = spec["kind"]
    kw, args = {}, []
    if kind.startswith("observable"):
        def callback(options, spec=spec):
            from opentelemetry.metrics import Observation

            return [Observation(v, a) for v, a in spec["values"]]

        def another(n):
            def callback(options):
                from opentelemetry.metrics import Observation

                return [Observation(n, {"callback": n})]

            return callback

        args = [[callback] + [another(n) for n in range(1, spec.get("callbacks", 1))]]
    create = getattr(meter, f"create_{kind}")
    if kind == "histogram" and spec["boundaries"] is not None:
        kw["explicit_bucket_boundaries_advisory"] = spec["boundaries"]
    if spec["style"] == "positional":
        return create(spec["name"], *args, spec["unit"], spec["description"], **kw)
    if args:
        kw["callbacks"] = args[0]
    return create(name=spec["name"], unit=spec["unit"], description=spec["description"], **kw)


def record(inst, spec):
    """Records the values, also in the explicit context of a sampled span, so that they leave exemplars."""
    from opentelemetry import context, trace

    if spec.get("sampled"):
        ctx = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(1234, 56, False, trace.TraceFlags(1))), context.Context())
        for v, a in spec["values"]:
            if spec["kind"] in ("counter", "up_down_counter"):
                inst.add(v, a, ctx)
            elif spec["kind"] == "histogram":
                inst.record(v, a, context=ctx)
            elif spec["kind"] == "gauge":
                inst.set(v, a, ctx)
        return
    for v, a in spec["values"]:
        if spec["kind"] in ("counter", "up_down_counter"):
            inst.add(v, a) if a is not None else inst.add(v)
        elif spec["kind"] == "histogram":
            inst.record(v, attributes=a)
        elif spec["kind"] == "gauge":
            inst.set(v, a)


def scope_tuple(s):
    return (s.name, s.version, s.schema_url, sorted((k, repr(v)) for k, v in (s.attributes or {}).items()))


def run_program(p, early, with_sched=False):
    """In a child: what the program exports."""
    from opentelemetry import _events, _logs, context, metrics, trace
    from opentelemetry._events import Event
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import InMemoryLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = random.Random(p["seed"])
    stale = {"trace": trace.get_tracer_provider(), "metrics": metrics.get_meter_provider(), "logs": _logs.get_logger_provider(), "events": _events.get_event_logger_provider()}
    objs = {}
    insts = []
    rejected = 0

    def get_all():
        for kind, specs in (("trace", "tracers"), ("metrics", "meters"), ("logs", "loggers"), ("events", "event_loggers")):
            objs[kind] = [obtain(kind, s, stale) for s in p[specs]]
        for i, m in enumerate(p["meters"]):
            for s in m["instruments"]:
                if not s["late"]:
                    create(i, s)
        objs["decorator"] = objs["trace"][0].start_as_current_span("decorated", attributes={"d": 1})(lambda x: (x, trace.get_current_span().get_span_context().span_id))

    def create(i, s):
        nonlocal rejected
        try:
            insts.append((i, s, make_instrument(objs["metrics"][i], s)))
        except Exception:
            if not s["bad"]:
                raise
            rejected += 1

    resource = Resource({"service.name": "svc"})
    spans, reader, logs = InMemorySpanExporter(), InMemoryMetricReader(), InMemoryLogExporter()

    def set_providers():
        tp = TracerProvider(resource=resource, shutdown_on_exit=False)
        tp.add_span_processor(SimpleSpanProcessor(spans))
        mp = MeterProvider([reader], resource=resource, shutdown_on_exit=False)
        lp = LoggerProvider(resource=resource, shutdown_on_exit=False)
        lp.add_log_record_processor(SimpleLogRecordProcessor(logs))
        for kind in p["order"]:
            if kind == "trace":
                trace.set_tracer_provider(tp)
            elif kind == "metrics":
                metrics.set_meter_provider(mp)
            elif kind == "logs":
                _logs.set_logger_provider(lp)
            else:
                _events.set_event_logger_provider(EventLoggerProvider(lp))

    def operate(tag):
        for i, t in enumerate(objs["trace"]):
            with t.start_as_current_span(f"{tag}-outer-{i}", kind=trace.SpanKind.SERVER, attributes={"i": i}) as outer:
                outer.add_event("e", {"x": 1})
                child = objs["trace"][rng.randrange(len(objs["trace"]))].start_span(f"{tag}-inner-{i}", context.get_current(), links=[trace.Link(outer.get_span_context(), {"l": 1})], start_time=5)
                child.set_attribute("k", "v")
                for j, lg in enumerate(objs["logs"]):
                    lg.emit(LogRecord(timestamp=1, body=f"{tag}-{i}-{j}", attributes={"a": 1}, resource=resource))
                for j, el in enumerate(objs["events"]):
                    el.emit(Event(f"{tag}-{i}-{j}", timestamp=1, body={"b": j}))
                child.end(end_time=9)
            try:
                with t.start_as_current_span(f"{tag}-failed-{i}", record_exception=i % 2 == 0):
                    raise KeyError("k")
            except KeyError:
                pass
        for i, s, inst in insts:
            record(inst, s)
        return objs["decorator"](tag)

    done = {}
    if early:
        get_all()
        if p["before"]:
            operate("before")
        set_providers()
    else:
        set_providers()
        get_all()
        if p["before"]:
            rng.random()
    # the early and the late program make the same choices from here on
    rng.seed(p["seed"])
    for i, m in enumerate(p["meters"]):
        for s in m["instruments"]:
            if s["late"]:
                create(i, s)
    done["decorated"] = operate("after")[0]
    # another provider, asked by name of its argument, is used instead of the global one
    spans2, reader2, logs2 = InMemorySpanExporter(), InMemoryMetricReader(), InMemoryLogExporter()
    tp2, mp2, lp2 = TracerProvider(resource=resource, shutdown_on_exit=False), MeterProvider([reader2], resource=resource, shutdown_on_exit=False), LoggerProvider(resource=resource, shutdown_on_exit=False)
    tp2.add_span_processor(SimpleSpanProcessor(spans2))
    lp2.add_log_record_processor(SimpleLogRecordProcessor(logs2))
    trace.get_tracer("other", "3", tracer_provider=tp2, schema_url="s", attributes={"o": 1}).start_span("other").end()
    metrics.get_meter("other", "3", meter_provider=mp2, schema_url="s", attributes={"o": 1}).create_counter("other").add(1)
    _logs.get_logger("other", "3", logger_provider=lp2, schema_url="s", attributes={"o": 1}).emit(LogRecord(timestamp=1, body="other", attributes={}, resource=resource))
    _events.get_event_logger("other", "3", event_logger_provider=EventLoggerProvider(lp2), schema_url="s", attributes={"o": 1}).emit(Event("other", timestamp=1, body="other"))
    done["explicit"] = [scope_tuple(s.instrumentation_scope) for s in spans2.get_finished_spans()] + [scope_tuple(sm.scope) for rm in reader2.get_metrics_data().resource_metrics for sm in rm.scope_metrics] + [scope_tuple(d.instrumentation_scope) for d in logs2.get_finished_logs()]

    out = {"spans": [], "metrics": [], "logs": [], "rejected": rejected, "bad": sum(s["bad"] for m in p["meters"] for s in m["instruments"])}
    ids = {s.context.span_id: s.name for s in spans.get_finished_spans()}
    for s in spans.get_finished_spans():
        out["spans"].append(
            (s.name, scope_tuple(s.instrumentation_scope), str(s.kind), dict(s.attributes), ids.get(s.parent.span_id) if s.parent else None, [e.name for e in s.events], [(ids.get(x.context.span_id), dict(x.attributes)) for x in s.links],
             s.status.status_code.name, dict(s.resource.attributes))
        )
    data = reader.get_metrics_data()
    for rm in data.resource_metrics if data else []:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                points = []
                for d in m.data.data_points:
                    points.append((sorted((k, repr(v)) for k, v in (d.attributes or {}).items()), getattr(d, "value", None), getattr(d, "sum", None), tuple(getattr(d, "bucket_counts", ())), tuple(getattr(d, "explicit_bounds", ())), sorted({x.trace_id or 0 for x in getattr(d, "exemplars", ())})))
                out["metrics"].append((scope_tuple(sm.scope), m.name, m.unit, m.description, type(m.data).__name__, getattr(m.data, "is_monotonic", None), sorted(points, key=repr), dict(rm.resource.attributes)))
    out["metrics"].sort(key=repr)
    for d in logs.get_finished_logs():
        r = d.log_record
        out["logs"].append((scope_tuple(d.instrumentation_scope), r.body, dict(r.attributes or {}), ids.get(r.span_id), dict(r.resource.attributes), r.timestamp))
    out["done"] = done
    return out


def child_program(p, early):
    def child():
        quiet.silence()
        warnings.simplefilter("ignore")
        with environment({}):
            return run_program(p, early)

    res = forked.call(child)
    return res


def want_scope(s):
    return (s["name"], s["version"] or "", s["schema"] or "", sorted((k, repr(v)) for k, v in (s["attributes"] or {}).items()))


def normal(t):
    return (t[0], t[1] or "", t[2] or "", t[3])


def equivalence(case):
    rng = case.rng
    p = program(rng)
    a, b = child_program(p, True), child_program(p, False)
    for name, res in (("before", a), ("after", b)):
        if res[0] != "ok":
            case.fail("program-failed", f"the program that obtains everything {name} the providers are set failed: {res[1]}: {res[2]}", tb=res[3], program=p)
    a, b = a[1], b[1]
    bad = any(s["bad"] for m in p["meters"] for s in m["instruments"])
    for part in ("spans", "metrics", "logs", "done"):
        case.check(a[part] == b[part], f"early-{part}-differ", lambda: f"obtained early: {diff(a[part], b[part])}", program=p)
    case.eq(a["done"]["explicit"], [("other", "3", "s", [("o", "1")])] * 4, "explicit-provider", "scopes exported by providers given as argument", program=p)
    case.observe("explicit_providers")
    # against the request itself
    tracers = [want_scope(s) for s in p["tracers"]]
    for i, t in enumerate(tracers):
        got = [normal(s[1]) for s in a["spans"] if s[0] == f"after-outer-{i}"]
        case.check(got == [t], "span-scope", lambda: f"tracer {i} was asked for as {t}, its span has scope {got}", program=p)
    case.check(not [s for s in a["spans"] if s[0].startswith("before")] and not [x for x in a["logs"] if str(x[1]).startswith("before")], "recorded-before", "something recorded before a provider was set was exported", program=p)
    case.check([s[0] for s in a["spans"]].count("decorated") == 1, "decorated", "a function decorated early made no span", program=p)
    case.observe("decorated")
    want_logs = [want_scope(s) for s in p["loggers"]]
    want_events = [want_scope(s) for s in p["event_loggers"]]
    n = 0
    for i in range(len(tracers)):
        for j, w in enumerate(want_logs):
            got = [normal(x[0]) for x in a["logs"] if x[1] == f"after-{i}-{j}"]
            case.check(got == [w], "log-scope", lambda: f"logger {j} was asked for as {w}, its record has scope {got}", program=p)
            n += 1
        for j, w in enumerate(want_events):
            got = [normal(x[0]) for x in a["logs"] if x[2].get("event.name") == f"after-{i}-{j}"]
            case.check(got == [w], "event-scope", lambda: f"event logger {j} was asked for as {w}, its record has scope {got}", program=p)
            n += 1
    case.check(len(a["logs"]) == n, "log-count", lambda: f"{len(a['logs'])} log records instead of {n}", program=p)
    counts = {}
    for m in p["meters"]:
        for s in m["instruments"]:
            if s["bad"]:
                continue
            key = (repr(want_scope(m)), s["name"].lower())
            counts.setdefault(key, []).append(s)
            mine = [x for x in a["metrics"] if normal(x[0]) == want_scope(m) and x[1] == s["name"] and x[3] == s["description"] and x[2] == s["unit"]]
            case.check(mine, "metric-missing", lambda: f"nothing was exported for {s} of meter {want_scope(m)}: {a['metrics']}", program=p)
            case.observe("instruments")
            if s["late"]:
                case.observe("late_instruments")
    for m in p["meters"]:
        for s in m["instruments"]:
            if s["kind"].startswith("observable") and not s["bad"] and len(counts[(repr(want_scope(m)), s["name"].lower())]) == 1:
                x = [x for x in a["metrics"] if normal(x[0]) == want_scope(m) and x[1] == s["name"]]
                got = sorted(k[1] for pt in x[0][6] for k in pt[0] if k[0] == "callback")
                case.check(got == [str(n) for n in range(1, s["callbacks"])], "callbacks", lambda: f"{s} exported {x}", program=p)
                case.observe("callbacks", s["callbacks"])
            if not s["bad"] and len(counts[(repr(want_scope(m)), s["name"].lower())]) == 1 and s["kind"] in ("counter", "up_down_counter", "histogram"):
                x = [x for x in a["metrics"] if normal(x[0]) == want_scope(m) and x[1] == s["name"]][0]
                case.check(all(pt[5] == ([1234] if s["sampled"] else []) for pt in x[6]), "context", lambda: f"{s} in the context of trace 1234: the exemplars are of {[pt[5] for pt in x[6]]}", program=p)
                case.observe("exemplars", int(s["sampled"]))
                total = sum(pt[1] if s["kind"] != "histogram" else pt[2] for pt in x[6])
                case.check(total == sum(v for v, _ in s["values"]), "metric-value", lambda: f"{s} exported {x}", program=p)
                if s["kind"] == "histogram" and s["boundaries"] is not None:
                    case.check(all(tuple(pt[4]) == tuple(s["boundaries"]) for pt in x[6]), "boundaries", lambda: f"{s} exported {x}", program=p)
    case.observe("programs")
    case.observe("spans", len(a["spans"]))
    case.observe("points", sum(len(x[6]) for x in a["metrics"]))
    case.observe("logs", len(p["loggers"]) * len(tracers))
    case.observe("events", len(p["event_loggers"]) * len(tracers))
    case.observe("operations_before", int(p["before"]))
    if bad:
        case.observe("rejected_names")
    allscopes = p["tracers"] + p["meters"] + p["loggers"] + p["event_loggers"]
    case.observe("scopes_with_attributes", sum(bool(s["attributes"]) for s in allscopes))
    case.observe("stale_providers", sum(s["via"] == "stale" for s in allscopes))
    case.sig(p["seed"])
    case.sample(p)


def diff(x, y):
    if isinstance(x, dict):
        return f"{x} instead of {y}"
    return f"{[i for i in x if i not in y][:3]} instead of {[i for i in y if i not in x][:3]} ({len(x)} against {len(y)})"


# --- races of setters, getters and users ---------------------------------------------------------------------------------


def race(case):
    rng = case.rng
    kind = rng.choice(SIGNALS + ["metrics", "metrics"])
    setters = rng.choice([1, 2, 2, 3])
    getters, users = rng.choice([0, 1, 2]), rng.choice([1, 2, 3])
    seed = rng.random()
    adds = rng.choice([2, 4])
    many = rng.random() < 0.5

    def child():
        with environment({}):
            return run_race(kind, setters, getters, users, adds, many, seed)

    res = forked.call(child)
    ctx = f"{setters} setters, {getters} getters, {users} users of {kind}"
    if res[0] != "ok":
        case.fail("race-failed", f"{ctx}: {res[1]}: {res[2]}", tb=res[3])
    out = res[1]
    case.check(not out["exceptions"], "thread-exception", lambda: f"{ctx}: {out['exceptions'][:1]}")
    W = out["winner"]
    case.check(W in range(setters), "winner", lambda: f"{ctx}: the global provider is {W} after all set calls returned")
    case.eq(out["warnings"], setters - 1, "warnings", f"{ctx}: number of warnings about rejected providers")
    case.observe("setters", setters)
    case.observe("warnings", out["warnings"])
    start, end = out["calls"][W]
    for j, (s2, e2) in enumerate(out["calls"]):
        case.check(j == W or e2 >= start, "late-winner", lambda: f"{ctx}: provider {W} was set at {start}, after the call that set {j} had returned at {e2}")
    for seq in out["seen"]:
        # a proxy first, then the winner for good
        case.check(all(x in ("proxy", W) for x in seq), "other-provider-seen", lambda: f"{ctx}: a thread saw {seq}, the winner is {W}")
        case.check("proxy" not in seq[seq.index(W):] if W in seq else True, "provider-unset", lambda: f"{ctx}: a thread saw {seq}")
        case.observe("proxies_seen", seq.count("proxy"))
        case.observe("winners_seen", seq.count(W))
    case.check(all(x == W for x in out["after_set"]), "not-set-after-set", lambda: f"{ctx}: right after set calls returned the global provider was {out['after_set']}, the winner is {W}")
    for u, (must, may, got, elsewhere) in enumerate(out["recorded"]):
        case.check(must <= got <= may, "lost-after-set", lambda: f"{ctx}: user {u} recorded {must} after a set call had returned and {may} in all; the winner got {got}")
        case.check(elsewhere == 0, "recorded-elsewhere", lambda: f"{ctx}: {elsewhere} recordings of user {u} went to a rejected provider")
        case.observe("values_after_set", must)
    case.observe("races")
    case.observe("instruments_created_in_races", out["many"])
    case.sig(kind, setters, getters, users, out["switches"])
    case.peak("switches", out["switches"][0])


def run_race(kind, setters, getters, users, adds, many, seed):
    from opentelemetry import _events, _logs, metrics, trace
    from opentelemetry._events import Event
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import InMemoryLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = random.Random(seed)
    resource = Resource({})
    sinks, providers = [], []
    out = {"seen": [[] for _ in range(getters)], "after_set": [], "calls": [None] * setters, "recorded": []}
    set_done = []
    observed = [0]
    use = [[0, 0] for _ in range(users)]

    def make():
        if kind == "trace":
            sink = InMemorySpanExporter()
            p = TracerProvider(resource=resource, shutdown_on_exit=False)
            p.add_span_processor(SimpleSpanProcessor(sink))
        elif kind == "metrics":
            sink = InMemoryMetricReader()
            p = MeterProvider([sink], resource=resource, shutdown_on_exit=False)
        else:
            sink = InMemoryLogExporter()
            p = LoggerProvider(resource=resource, shutdown_on_exit=False)
            p.add_log_record_processor(SimpleLogRecordProcessor(sink))
            if kind == "events":
                p = EventLoggerProvider(p)
        sinks.append(sink)
        providers.append(p)

    get = {"trace": trace.get_tracer_provider, "metrics": metrics.get_meter_provider, "logs": _logs.get_logger_provider, "events": _events.get_event_logger_provider}[kind]
    put = {"trace": trace.set_tracer_provider, "metrics": metrics.set_meter_provider, "logs": _logs.set_logger_provider, "events": _events.set_event_logger_provider}[kind]

    def which():
        p = get()
        for i, q in enumerate(providers):
            if p is q:
                return i
        return "proxy"

    delays = [[rng.randrange(0, 60) for _ in range(20)] for _ in range(setters + getters + users)]
    choices = [[rng.random() for _ in range(200)] for _ in range(users)]

    def pause(n):
        for _ in range(n):
            threading.Lock().acquire()  # a point where the scheduler may switch

    def main():
        for _ in range(setters):
            make()
        early = {}
        first_set = threading.Event()
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def setter(i):
            pause(delays[i][0])
            t = tick()
            put(providers[i])
            out["calls"][i] = (t, tick())
            set_done.append(i)
            first_set.set()
            out["after_set"].append(which())

        def getter(i):
            for k in range(8):
                pause(delays[setters + i][k] // 4)
                out["seen"][i].append(which())

        def user(u):
            c = iter(choices[u])
            d = delays[setters + getters + u]
            pause(d[0] // 2)
            name = f"u{u}"
            obj = early.get(u) if next(c) < 0.4 else None
            if obj is None:
                if kind == "trace":
                    obj = trace.get_tracer(name)
                elif kind == "metrics":
                    obj = metrics.get_meter(name)
                elif kind == "logs":
                    obj = _logs.get_logger(name)
                else:
                    obj = _events.get_event_logger(name)
            pause(d[1] // 2)
            inst = obj.create_counter(name) if kind == "metrics" and next(c) < 0.6 else None
            if many and kind == "metrics":
                more = [obj.create_counter(f"{name}-{k}") for k in range(12)]
                while not set_done and len(more) < 40:
                    pause(3)
                    more.append(obj.create_counter(f"{name}-{len(more)}"))
                first_set.wait()
                for x in more:
                    x.add(1)
                use[u][0] += len(more)
                use[u][1] += len(more)
                observed[0] += len(more)
            for k in range(adds):
                pause(d[2 + k] // 4)
                if kind == "metrics" and inst is None:
                    inst = obj.create_counter(name)
                sure = bool(set_done)
                if kind == "trace":
                    obj.start_span(name).end()
                elif kind == "metrics":
                    inst.add(1)
                elif kind == "logs":
                    obj.emit(LogRecord(body=name, resource=resource))
                else:
                    obj.emit(Event(name))
                use[u][0] += sure
                use[u][1] += 1
            # one more when the dust has settled
            later.append((u, obj, inst))

        later = []
        for u in range(users):
            if rng.random() < 0.5:
                early[u] = {"trace": trace.get_tracer, "metrics": metrics.get_meter, "logs": _logs.get_logger, "events": _events.get_event_logger}[kind](f"u{u}")
        ts = [threading.Thread(target=setter, args=(i,)) for i in range(setters)] + [threading.Thread(target=getter, args=(i,)) for i in range(getters)] + [threading.Thread(target=user, args=(i,)) for i in range(users)]
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for u, obj, inst in later:
            if kind == "trace":
                obj.start_span(f"u{u}").end()
            elif kind == "metrics":
                inst.add(1)
            elif kind == "logs":
                obj.emit(LogRecord(body=f"u{u}", resource=resource))
            else:
                obj.emit(Event(f"u{u}"))
            use[u][0] += 1
            use[u][1] += 1
        out["winner"] = which()

    s = sched.Scheduler(seed, max_steps=500_000)
    with quiet.capture() as recs:
        s.run(main)
    out["many"] = observed[0]
    out["exceptions"] = [repr(x) for x in s.thread_exceptions]
    out["warnings"] = sum("is not allowed" in r.getMessage() for r in recs)
    out["switches"] = (s.switches, s.signature())

    def count(sink, name):
        if kind == "trace":
            return sum(x.name == name for x in sink.get_finished_spans())
        if kind == "metrics":
            d = data[id(sink)]
            return sum(pt.value for rm in (d.resource_metrics if d else []) for sm in rm.scope_metrics if sm.scope.name == name for m in sm.metrics for pt in m.data.data_points)
        if kind == "logs":
            return sum(x.log_record.body == name for x in sink.get_finished_logs())
        return sum(x.log_record.attributes.get("event.name") == name for x in sink.get_finished_logs())

    data = {id(x): x.get_metrics_data() for x in sinks} if kind == "metrics" else {}
    W = out["winner"]
    for u in range(users):
        n = [count(x, f"u{u}") for x in sinks]
        out["recorded"].append((use[u][0], use[u][1], n[W] if W != "proxy" else -1, sum(n) - (n[W] if W != "proxy" else 0)))
    return out


@contextlib.contextmanager
def scratch_distribution():
    """No installed package names an event logger provider: a scratch distribution does."""
    root = tempfile.mkdtemp(prefix="mon40-")
    try:
        info = os.path.join(root, "monproviders-1.0.dist-info")
        os.mkdir(info)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: monproviders\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[opentelemetry_event_logger_provider]\nmon_event_logger_provider = opentelemetry.sdk._events:EventLoggerProvider\n")
        sys.path.insert(0, root)
        yield
    finally:
        if root in sys.path:
            sys.path.remove(root)
        shutil.rmtree(root)


def env_case(case):
    """The provider named by the environment is loaded once, by whichever thread comes first."""
    rng = case.rng
    kind = SIGNALS[case.index % 4]
    threads = rng.choice([1, 2, 3])
    late = rng.random() < 0.5
    seed = rng.random()
    variable = {"trace": "OTEL_PYTHON_TRACER_PROVIDER", "metrics": "OTEL_PYTHON_METER_PROVIDER", "logs": "OTEL_PYTHON_LOGGER_PROVIDER", "events": "OTEL_PYTHON_EVENT_LOGGER_PROVIDER"}[kind]
    value = {"trace": "sdk_tracer_provider", "metrics": "sdk_meter_provider", "logs": "sdk_logger_provider", "events": "mon_event_logger_provider"}[kind]

    def child():
        from opentelemetry import _events, _logs, metrics, trace
        from opentelemetry.sdk._events import EventLoggerProvider
        from opentelemetry.sdk._logs import LoggerProvider
        from opentelemetry.sdk.metrics import MeterProvider
        from opentelemetry.sdk.trace import TracerProvider

        get = {"trace": trace.get_tracer_provider, "metrics": metrics.get_meter_provider, "logs": _logs.get_logger_provider, "events": _events.get_event_logger_provider}[kind]
        put = {"trace": trace.set_tracer_provider, "metrics": metrics.set_meter_provider, "logs": _logs.set_logger_provider, "events": _events.set_event_logger_provider}[kind]
        cls = {"trace": TracerProvider, "metrics": MeterProvider, "logs": LoggerProvider, "events": EventLoggerProvider}[kind]
        seen = []

        def main():
            def work():
                seen.append(get())
                seen.append(get())

            ts = [threading.Thread(target=work) for _ in range(threads)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if late:
                put(cls() if kind == "events" else cls(shutdown_on_exit=False))
            seen.append(get())

        with scratch_distribution(), environment({variable: value, "OTEL_EXPERIMENTAL_RESOURCE_DETECTORS": ""}), quiet.capture() as recs:
            s = sched.Scheduler(seed, strategy="rare", max_steps=2_000_000)
            s.run(main)
        return [type(x) is cls for x in seen], len({id(x) for x in seen}), sum("is not allowed" in r.getMessage() for r in recs), [repr(x) for x in s.thread_exceptions]

    res = forked.call(child)
    ctx = f"{threads} threads getting the {kind} provider of the environment"
    if res[0] != "ok":
        case.fail("env-failed", f"{ctx}: {res[1]}: {res[2]}", tb=res[3])
    types, n, warned, errors = res[1]
    case.check(not errors, "thread-exception", lambda: f"{ctx}: {errors[:1]}")
    case.check(all(types) and n == 1, "env-provider", lambda: f"{ctx}: saw {n} providers, of the right type: {types}")
    case.check(warned == int(late), "env-warning", lambda: f"{ctx}: {warned} warnings")
    case.observe("env_providers")
    case.sig(kind, threads, late, seed)


# --- without a provider --------------------------------------------------------------------------------------------------


class Boom(Exception):
    pass


ODD = [None, "", 5, object(), b"x", [1], {"a": 1}, float("nan"), -1, "näme"]


def noop_case(case):
    from opentelemetry import _events, _logs, context, metrics, trace
    from opentelemetry._events import Event
    from opentelemetry.sdk._logs import LoggerProvider
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    flavour = rng.choice(["proxy", "proxy", "noop", "disabled"])
    with environment({"OTEL_SDK_DISABLED": "true"} if flavour == "disabled" else {}):
        if flavour == "proxy":
            tp, mp, lp, ep = trace.get_tracer_provider(), metrics.get_meter_provider(), _logs.get_logger_provider(), _events.get_event_logger_provider()
        elif flavour == "noop":
            tp, mp, lp, ep = trace.NoOpTracerProvider(), metrics.NoOpMeterProvider(), _logs.NoOpLoggerProvider(), _events.NoOpEventLoggerProvider()
        else:
            tp, mp, lp = TracerProvider(shutdown_on_exit=False, resource=Resource({})), MeterProvider(shutdown_on_exit=False, resource=Resource({})), LoggerProvider(shutdown_on_exit=False, resource=Resource({}))
            from opentelemetry.sdk._events import EventLoggerProvider

            ep = EventLoggerProvider(lp)
        tracer = tp.get_tracer(rng.choice(["t", "", "näme"]), rng.choice([None, "1"]), rng.choice([None, "s"]), rng.choice([None, {"a": 1}]))
        propagator = TraceContextTextMapPropagator()
        shape = [flavour]

        def judge(span, parent, ctx, where):
            """span was started below the span context `parent` (None: there is none)."""
            case.observe("noop_spans")
            sc = span.get_span_context()
            case.check(not span.is_recording(), "recording", f"a span of {flavour} {where} is recording")
            if parent is None:
                case.check(not sc.is_valid, "context-from-nowhere", lambda: f"{flavour} {where} without a parent gave {sc}")
                case.observe("noop_without_parent")
            else:
                same = (sc.trace_id, sc.span_id, sc.trace_flags, sc.trace_state.to_header(), sc.is_remote) == (parent.trace_id, parent.span_id, parent.trace_flags, parent.trace_state.to_header(), parent.is_remote)
                case.check(same, "parent-lost", lambda: f"{flavour} {where} gave {sc} below {parent}")
                case.observe("noop_with_parent")
                carrier, want = {}, {}
                propagator.inject(carrier, trace.set_span_in_context(span, ctx))
                propagator.inject(want, trace.set_span_in_context(trace.NonRecordingSpan(parent), context.Context()))
                case.check(carrier == want and want.get("traceparent"), "not-injected", lambda: f"{flavour} {where} below {parent} injects {carrier}, want {want}")
                case.observe("noop_injected")
            touch(span)
            after = span.get_span_context()
            case.check(after == sc, "context-changed", lambda: f"the context of a no-op span changed from {sc} to {after}")

        def touch(span):
            for _ in range(rng.randrange(0, 4)):
                what = rng.randrange(8)
                v = rng.choice(ODD)
                if what == 0:
                    span.set_attribute(rng.choice(["k", "", None, 5]), v)
                elif what == 1:
                    span.set_attributes({"a": v})
                elif what == 2:
                    span.add_event("e", {"a": v}, rng.choice([None, 5]))
                elif what == 3:
                    span.record_exception(Boom("x"), {"a": 1})
                elif what == 4:
                    span.set_status(trace.Status(trace.StatusCode.ERROR, "d") if rng.random() < 0.5 else trace.StatusCode.OK, None)
                elif what == 5:
                    span.update_name("other")
                elif what == 6:
                    span.end(rng.choice([None, 5]))
                else:
                    span.add_link(trace.INVALID_SPAN_CONTEXT, {"a": v}) if hasattr(span, "add_link") else None

        def parent_context():
            r = rng.random()
            base = context.set_value("marker", rng.randrange(1000), context.Context()) if rng.random() < 0.5 else context.Context()
            if r < 0.25:
                return base, None
            sc = gen.span_context(rng, valid=r < 0.85)
            return trace.set_span_in_context(trace.NonRecordingSpan(sc), base), sc if sc.is_valid else None

        def kwargs():
            out = {}
            if rng.random() < 0.3:
                out["kind"] = rng.choice(list(trace.SpanKind))
            if rng.random() < 0.3:
                out["attributes"] = {"k": rng.choice(ODD)}
            if rng.random() < 0.2:
                out["links"] = [trace.Link(gen.span_context(rng), {"a": 1})]
            if rng.random() < 0.2:
                out["start_time"] = rng.choice([None, 0, 5])
            if rng.random() < 0.3:
                out["record_exception"] = rng.random() < 0.5
            if rng.random() < 0.3:
                out["set_status_on_exception"] = rng.random() < 0.5
            return out

        def nest(depth, current):
            for _ in range(rng.choice([1, 2])):
                how = rng.random()
                explicit = rng.random() < 0.5
                ctx, parent = parent_context() if explicit else (None, current)
                kw = kwargs()
                if explicit:
                    kw["context"] = ctx
                before = context.get_current()
                if how < 0.4:
                    span = tracer.start_span(rng.choice(["", "s", "näme"]), **kw)
                    judge(span, parent, ctx, "start_span")
                    case.check(context.get_current() == before, "current-changed", "start_span changed the current context")
                elif how < 0.85:
                    boom = rng.random() < 0.3
                    try:
                        with tracer.start_as_current_span("s", end_on_exit=rng.random() < 0.5, **kw) as span:
                            judge(span, parent, ctx, "start_as_current_span")
                            now = trace.get_current_span().get_span_context()
                            case.check((now.trace_id, now.span_id) == ((parent.trace_id, parent.span_id) if parent else (0, 0)), "current-span", lambda: f"the current span in start_as_current_span below {parent} has {now}")
                            marker = [(k, v) for k, v in dict(before).items() if "marker" in k]
                            case.check(all(context.get_value(k) == v for k, v in marker), "context-lost", "start_as_current_span lost values of the current context")
                            if depth:
                                nest(depth - 1, parent)
                                case.observe("noop_nested")
                            if boom:
                                raise Boom("through")
                        case.check(not boom, "exception-swallowed", "start_as_current_span swallowed an exception")
                    except Boom:
                        case.check(boom, "exception", "an exception from elsewhere")
                        case.observe("noop_exceptions")
                    case.check(context.get_current() == before, "context-not-restored", lambda: f"after start_as_current_span the context is {context.get_current()} instead of {before}")
                else:
                    ctx2, parent2 = parent_context()
                    token = context.attach(ctx2)
                    try:
                        if depth:
                            nest(depth - 1, parent2)
                        span = tracer.start_span("s")
                        judge(span, parent2, ctx2, "start_span in an attached context")
                    finally:
                        context.detach(token)
                shape.append(round(how, 1))

        token = context.attach(context.Context())
        try:
            nest(rng.choice([0, 1, 2]), None)
        finally:
            context.detach(token)

        meter = mp.get_meter(rng.choice(["m", "näme"]), rng.choice([None, "1"]))
        for kind in rng.sample(KINDS, 4):
            spec = dict(kind=kind, name=rng.choice(["i", "i", "j"]), unit="", description=rng.choice(["", "other"]), boundaries=rng.choice([None, [1.0]]), values=[(rng.choice([1, -1, 0.5, float("nan")]), rng.choice([None, {}, {"a": 1}]))], style=rng.choice(["positional", "keyword"]))
            record(make_instrument(meter, spec), spec)
            case.observe("noop_instruments")
        from opentelemetry.sdk._logs import LogRecord

        logger = lp.get_logger("l", rng.choice([None, "1"]))
        logger.emit(LogRecord(body=rng.choice(ODD), resource=Resource({})))
        ep.get_event_logger("e").emit(Event("n", body=rng.choice(ODD)))
        case.observe("noop_logs")
    case.sig(tuple(shape))


WORKLOADS = [
    Workload("equivalence", equivalence, quick=80, thorough=1600, chunk=10),
    Workload("races", race, quick=400, thorough=12000, chunk=25),
    Workload("environment", env_case, quick=16, thorough=200, chunk=4),
    Workload("noop", noop_case, quick=600, thorough=12000),
]
