import os

from mon import gen, quiet
from mon.core import Workload

PROPERTY = "P09"
VENV = "pb5"
SCHED = False
REQUIRED = ["attrs_dropped", "events_dropped", "links_dropped", "values_truncated", "env_limits", "zero_limits", "shared_links_checked", "log_attrs_dropped"]
RULE = (
    "Random SpanLimits (arguments, environment variables, unset, zero) and random histories of attributes, events and links that cross "
    "them, compared with a bounded-container model; distinct = limits plus operation history."
)
ASSUMPTIONS = []

ENV = {
    "max_attributes": "OTEL_ATTRIBUTE_COUNT_LIMIT",
    "max_span_attributes": "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT",
    "max_event_attributes": "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT",
    "max_link_attributes": "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT",
    "max_events": "OTEL_SPAN_EVENT_COUNT_LIMIT",
    "max_links": "OTEL_SPAN_LINK_COUNT_LIMIT",
    "max_attribute_length": "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT",
    "max_span_attribute_length": "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT",
}
UNSET = -1


def effective(args, env):
    """Documented precedence, computed independently."""

    def first(name, default):
        if name in args and args[name] is not None:
            return None if args[name] == UNSET else args[name]
        if ENV[name] in env:
            return int(env[ENV[name]]) if env[ENV[name]].strip() else None
        return default

    out = {}
    out["max_events"] = first("max_events", 128)
    out["max_links"] = first("max_links", 128)
    g = first("max_attributes", None)
    model_default = 128 if g is None else g
    for k in ("max_span_attributes", "max_event_attributes", "max_link_attributes"):
        out[k] = first(k, model_default)
    out["max_attribute_length"] = first("max_attribute_length", None)
    out["max_span_attribute_length"] = first("max_span_attribute_length", out["max_attribute_length"])
    return out


class env_vars:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = {v: os.environ.pop(v, None) for v in ENV.values()}
        os.environ.update(self.env)

    def __exit__(self, *a):
        for v, o in self.old.items():
            os.environ.pop(v, None)
            if o is not None:
                os.environ[v] = o


def limits_case(case):
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
    from opentelemetry.trace import Link

    rng = case.rng
    quiet.silence()
    args, env = {}, {}
    for k in ENV:
        small = rng.choice([0, 1, 2, 3, 5])
        if "length" in k:
            small = rng.choice([0, 1, 3, 8])
        r = rng.random()
        if r < 0.35:
            args[k] = small
        elif r < 0.42:
            args[k] = UNSET
        if rng.random() < 0.35:
            env[ENV[k]] = rng.choice([str(small), f" {small + 1} ", "", str(small + 2)])
    if rng.random() < 0.1:
        # sizes near the default
        args, env = {"max_attributes": rng.choice([None, 130])}, {}
    lim = effective(args, env)
    out = []

    class P(SpanProcessor):
        def on_end(self, span):
            out.append(span)

    implicit = not args and rng.random() < 0.7
    with env_vars(env):
        prov = TracerProvider(
            resource=Resource({}), shutdown_on_exit=False, span_limits=None if implicit else SpanLimits(**args)
        )
    if env:
        case.observe("env_limits")
    if 0 in lim.values():
        case.observe("zero_limits")
    prov.add_span_processor(P())
    tracer = prov.get_tracer("m")
    big = rng.random() < 0.05 or len(args) == 1
    n = 140 if big else rng.randrange(0, 12)
    keys = (lambda r: f"k{r.randrange(160)}") if big else (lambda r: f"k{r.randrange(9)}")
    values = gen.value if rng.random() < 0.5 else (lambda r: gen.string(r))

    def attrs(k):
        return {keys(rng): values(rng) for _ in range(k)}

    trace = []
    sa = attrs(rng.randrange(0, 8))
    start_links = [(gen.span_context(rng), attrs(rng.randrange(0, 6))) for _ in range(rng.randrange(0, 6))]
    A = gen.BoundedMap(lim["max_span_attributes"], lim["max_span_attribute_length"], sa)
    E = gen.BoundedSeq(lim["max_events"])
    L = gen.BoundedSeq(lim["max_links"])

    def sub(what, a):
        return gen.BoundedMap(lim[what], lim["max_attribute_length"], a)

    user_links = [Link(c, dict(a)) for c, a in start_links]
    before = [(l.context, dict(l.attributes or {}), l.dropped_attributes) for l in user_links]
    mine = dict(sa)
    spans = []
    reps = 2 if user_links and rng.random() < 0.6 else 1
    for _ in range(reps):
        spans.append(tracer.start_span("s", attributes=mine, links=user_links))
    for c, a in start_links:
        L.put((c, sub("max_link_attributes", a)))
    span = spans[-1]
    for _ in range(n):
        o = rng.choice(["a", "a", "e", "l", "m"])
        trace.append(o)
        if o == "a":
            k, v = keys(rng), values(rng)
            span.set_attribute(k, v)
            A.put(k, v)
        elif o == "m":
            d = attrs(rng.randrange(0, 7))
            span.set_attributes(d)
            for k, v in d.items():
                A.put(k, v)
        elif o == "e":
            d = attrs(rng.randrange(0, 7))
            copy = dict(d)
            span.add_event("e", d)
            case.check(d == copy, "caller-mutated", "add_event changed the caller's mapping")
            E.put(sub("max_event_attributes", d))
        else:
            d = attrs(rng.randrange(0, 7))
            c = gen.span_context(rng)
            copy = dict(d)
            span.add_link(c, d)
            case.check(d == copy, "caller-mutated", "add_link changed the caller's mapping")
            L.put((c, sub("max_link_attributes", d)))
    for s in spans:
        s.end()
    ctx = dict(args=args, env=env, limits=lim, trace=trace)
    case.check(mine == sa, "caller-mutated", "the caller's attributes changed", **ctx)
    after = [(l.context, dict(l.attributes or {}), l.dropped_attributes) for l in user_links]
    case.check(after == before, "caller-link-mutated", f"the caller's Link objects changed: {before} -> {after}", **ctx)

    def compare(ro, A, E, L):
        case.check(gen.same_map(dict(ro.attributes), A.d), "attributes", f"{dict(ro.attributes)} want {A.d}", **ctx)
        case.eq(ro.dropped_attributes, A.dropped, "dropped-attributes", "dropped attributes", **ctx)
        case.eq(len(ro.events), len(E.held), "events", "events held", **ctx)
        case.eq(ro.dropped_events, E.dropped, "dropped-events", "dropped events", **ctx)
        for ev, m in zip(ro.events, E.held):
            case.check(gen.same_map(dict(ev.attributes), m.d), "event-attributes", f"{dict(ev.attributes)} want {m.d}", **ctx)
            case.eq(ev.dropped_attributes, m.dropped, "dropped-event-attributes", "dropped event attributes", **ctx)
        case.eq(len(ro.links), len(L.held), "links", "links held", **ctx)
        case.eq(ro.dropped_links, L.dropped, "dropped-links", "dropped links", **ctx)
        for ln, (c, m) in zip(ro.links, L.held):
            case.check(ln.context == c, "links", "link kept is not the newest", **ctx)
            case.check(gen.same_map(dict(ln.attributes), m.d), "link-attributes", f"{dict(ln.attributes)} want {m.d}", **ctx)
            case.eq(ln.dropped_attributes, m.dropped, "dropped-link-attributes", "dropped link attributes", **ctx)

    compare(out[-1], A, E, L)
    if reps == 2:
        # a sibling created from the same Link objects sees the same thing
        L0 = gen.BoundedSeq(lim["max_links"])
        for c, a in start_links:
            L0.put((c, sub("max_link_attributes", a)))
        compare(out[0], gen.BoundedMap(lim["max_span_attributes"], lim["max_span_attribute_length"], sa), gen.BoundedSeq(lim["max_events"]), L0)
        case.observe("shared_links_checked")
    case.observe("attrs_dropped", A.dropped)
    case.observe("events_dropped", E.dropped)
    case.observe("links_dropped", L.dropped)
    if lim["max_span_attribute_length"] is not None:
        case.observe("values_truncated", sum(1 for v in A.d.values() if isinstance(v, str) and len(v) == lim["max_span_attribute_length"]))
    case.sig(args, env, trace)
    case.sample(ctx)


def log_limits(case):
    from opentelemetry.sdk._logs import LogLimits, LogRecord
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    quiet.silence()
    args, env = {}, {}
    for k in ("max_attributes", "max_attribute_length"):
        v = rng.choice([0, 1, 2, 3, 8])
        r = rng.random()
        if r < 0.4:
            args[k] = v
        elif r < 0.5:
            args[k] = UNSET
        if rng.random() < 0.4:
            env[ENV[k]] = str(v + 1)
    def first(name, default):
        if args.get(name) is not None:
            return None if args[name] == UNSET else args[name]
        return int(env[ENV[name]]) if ENV[name] in env else default

    lim = (first("max_attributes", 128), first("max_attribute_length", None))
    a = {f"k{rng.randrange(12)}": gen.value(rng) for _ in range(rng.randrange(0, 10))}
    mine = dict(a)
    with env_vars(env):
        limits = LogLimits(**args)
    rec = LogRecord(attributes=mine, limits=limits, resource=Resource({}))
    M = gen.BoundedMap(lim[0], lim[1], a)
    ctx = dict(args=args, env=env, attrs=a)
    case.check(mine == a, "caller-mutated", "LogRecord changed the caller's attributes", **ctx)
    case.check(gen.same_map(dict(rec.attributes or {}), M.d), "log-attributes", f"{rec.attributes} want {M.d}", **ctx)
    case.eq(rec.dropped_attributes, M.dropped, "dropped-log-attributes", "dropped log attributes", **ctx)
    case.observe("log_attrs_dropped", M.dropped)
    case.sig(args, env, tuple(a))


WORKLOADS = [
    Workload("spans", limits_case, quick=6000, thorough=120000),
    Workload("logs", log_limits, quick=1500, thorough=20000),
]
