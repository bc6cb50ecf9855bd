import struct
from collections import Counter as Bag

from mon import gen, otlp, quiet
from mon import metrics as mm
from mon.core import Workload

PROPERTY = "P30"
VENV = "pb5"
REQUIRED = [
    "messages", "metrics", "points", "kind_sum", "kind_gauge", "kind_histogram", "kind_exponential_histogram", "int_values", "double_values", "exemplars", "exemplars_with_context", "exemplars_without_context", "delta", "cumulative", "monotonic", "non_monotonic",
    "no_min_max", "empty_sides", "negative_sides", "extreme_numbers", "special_doubles", "units", "descriptions", "scope_schema_urls", "resource_schema_urls", "scope_attributes", "preferences_env", "preferences_argument", "exponential_by_preference", "bad_preferences", "other_aggregation_preferences",
]
RULE = (
    "Metrics collected by the real SDK (every instrument, aggregation, temporality, view and exemplar filter) and hand-made points at the edges are encoded, serialized, parsed back and compared point by point; "
    "the exporters' preferences are checked on what a reader with that exporter produces; distinct = shapes of messages."
)
ASSUMPTIONS = [
    "integers beyond 64 bits cannot be represented",
    "resources (and scopes within one) of a message are distinct, as the SDK produces them",
    "an absent and a zero start time are the same; an absent and an empty unit or description are the same",
]


def num(v):
    return ("i", int(v)) if isinstance(v, int) else dbl(v)


def dbl(v):
    if v is None:
        return None
    v = float(v)
    return ("d", "nan" if v != v else struct.pack(">d", v))


def exemplars_want(case, xs):
    out = []
    for x in xs:
        case.observe("exemplars")
        has = x.span_id is not None and x.trace_id is not None
        case.observe("exemplars_with_context" if has else "exemplars_without_context")
        out.append((x.time_unix_nano, x.span_id if has else 0, x.trace_id if has else 0, otlp.attributes(x.filtered_attributes)[0], num(x.value)))
    return tuple(out)


def number(p):
    k = p.WhichOneof("value")
    return ("i", p.as_int) if k == "as_int" else dbl(p.as_double) if k else None


def exemplars_got(xs):
    return tuple((x.time_unix_nano, int.from_bytes(x.span_id, "big"), int.from_bytes(x.trace_id, "big"), otlp.decode_attributes(x.filtered_attributes), number(x)) for x in xs)


def want_metric(case, m):
    d = m.data
    kind = {"Sum": "sum", "Gauge": "gauge", "Histogram": "histogram", "ExponentialHistogram": "exponential_histogram"}[type(d).__name__]
    case.observe("kind_" + kind)
    t = None
    if kind != "gauge":
        t = {"DELTA": 1, "CUMULATIVE": 2}[d.aggregation_temporality.name]
        case.observe(d.aggregation_temporality.name.lower())
    mono = None
    if kind == "sum":
        mono = bool(d.is_monotonic)
        case.observe("monotonic" if mono else "non_monotonic")
    if m.unit:
        case.observe("units")
    if m.description:
        case.observe("descriptions")
    pts = []
    for p in d.data_points:
        case.observe("points")
        base = (otlp.attributes(p.attributes)[0], p.start_time_unix_nano or 0, p.time_unix_nano, exemplars_want(case, p.exemplars))
        if kind in ("sum", "gauge"):
            v = num(p.value)
            case.observe("int_values" if v[0] == "i" else "double_values")
            pts.append(base + (v,))
        elif kind == "histogram":
            if p.min > p.max:
                case.observe("no_min_max")
            pts.append(base + (p.count, dbl(p.sum), tuple(p.bucket_counts), tuple(dbl(b) for b in p.explicit_bounds), dbl(p.min), dbl(p.max)))
        else:
            sides = []
            for s in (p.positive, p.negative):
                sides.append((s.offset, tuple(s.bucket_counts)) if s.bucket_counts else (0, ()))
                if not any(s.bucket_counts):
                    case.observe("empty_sides")
            if any(p.negative.bucket_counts):
                case.observe("negative_sides")
            pts.append(base + (p.count, dbl(p.sum), p.scale, p.zero_count, sides[0], sides[1], p.flags, dbl(p.min), dbl(p.max)))
    return (m.name, m.description or "", m.unit or "", kind, t, mono, tuple(pts))


def got_metric(m):
    kind = m.WhichOneof("data")
    if kind is None:
        return (m.name, m.description, m.unit, None, None, None, ())
    d = getattr(m, kind)
    t = int(d.aggregation_temporality) if kind != "gauge" else None
    mono = d.is_monotonic if kind == "sum" else None
    pts = []
    for p in d.data_points:
        base = (otlp.decode_attributes(p.attributes), p.start_time_unix_nano, p.time_unix_nano, exemplars_got(p.exemplars))
        if kind in ("sum", "gauge"):
            pts.append(base + (number(p),))
            continue
        opt = lambda f: dbl(getattr(p, f)) if p.HasField(f) else None  # noqa: E731
        if kind == "histogram":
            pts.append(base + (p.count, opt("sum"), tuple(p.bucket_counts), tuple(dbl(b) for b in p.explicit_bounds), opt("min"), opt("max")))
        else:
            sides = [(s.offset, tuple(s.bucket_counts)) if s.bucket_counts else (0, ()) for s in (p.positive, p.negative)]
            pts.append(base + (p.count, opt("sum"), p.scale, p.zero_count, sides[0], sides[1], p.flags, opt("min"), opt("max")))
    return (m.name, m.description, m.unit, kind, t, mono, tuple(pts))


def compare(case, data, msg=None):
    from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
    from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest

    if msg is None:
        msg = ExportMetricsServiceRequest.FromString(encode_metrics(data).SerializeToString())
    want, have = Bag(), Bag()
    for rm in data.resource_metrics:
        rk = (otlp.attributes(rm.resource.attributes)[0], rm.resource.schema_url or "")
        if rk[1]:
            case.observe("resource_schema_urls")
        for sm in rm.scope_metrics:
            s = sm.scope
            sk = (s.name or "", s.version or "", otlp.attributes(s.attributes)[0], s.schema_url or "")
            if sk[2]:
                case.observe("scope_attributes")
            if sk[3]:
                case.observe("scope_schema_urls")
            for m in sm.metrics:
                w = want_metric(case, m)
                case.observe("metrics")
                want[rk, sk, w] += 1
                if not w[-1]:
                    # without points the kind is not visible on the wire
                    want[rk, sk, w] -= 1
    want = +want
    names = {}
    for k in want:
        names.setdefault(k[2][0], []).append(k)
    for rm in msg.resource_metrics:
        rk = (otlp.decode_attributes(rm.resource.attributes), rm.schema_url)
        for sm in rm.scope_metrics:
            sk = (sm.scope.name, sm.scope.version, otlp.decode_attributes(sm.scope.attributes), sm.schema_url)
            for m in sm.metrics:
                k = (rk, sk, got_metric(m))
                if not k[2][-1]:
                    continue
                have[k] += 1
                if k not in want:
                    cands = names.get(k[2][0])
                    case.check(cands, "unknown-metric", f"{k[2][:3]}")
                    w = max(cands, key=lambda c: sum(a == b for a, b in zip(c[2], k[2])) + (c[0] == rk) + (c[1] == sk))
                    case.eq(rk, w[0], "resource", f"resource of {m.name!r}")
                    case.eq(sk, w[1], "scope", f"scope of {m.name!r}")
                    for f, a, b in zip(("name", "description", "unit", "kind", "temporality", "monotonic", "points"), k[2], w[2]):
                        case.eq(a, b, "field-" + f, f"{f} of {m.name!r}")
    case.check(have == want, "not-once", f"decoded {sum(have.values())} metrics, missing {list(want - have)[:1]}, surplus {list(have - want)[:1]}")
    case.observe("messages")


def collected(case):
    """Whatever the SDK collects."""
    from opentelemetry import trace as api
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, TraceBasedExemplarFilter
    from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation, SumAggregation, View
    from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags

    rng = case.rng
    quiet.silence()
    pick, _ = mm.temporality(rng)
    reader = mm.reader_class()(preferred_temporality=pick)
    views = []
    if rng.random() < 0.5:
        views.append(View(instrument_name="h*", aggregation=rng.choice([ExponentialBucketHistogramAggregation(max_size=rng.choice([4, 160]), max_scale=rng.choice([0, 5, 20])), ExplicitBucketHistogramAggregation(boundaries=rng.choice([[], [0], [-1, 0.5, 10]]), record_min_max=rng.random() < 0.5)])))
    if rng.random() < 0.2:
        views.append(View(instrument_name="c*", aggregation=rng.choice([LastValueAggregation(), SumAggregation(), ExplicitBucketHistogramAggregation()]), name=None))
    flt = rng.choice([AlwaysOnExemplarFilter, AlwaysOffExemplarFilter, TraceBasedExemplarFilter])()
    prov = mm.provider([reader], views, exemplar_filter=flt, resource=otlp.resources(rng, gen, 1)[0])
    fl = rng.random() < 0.5

    def val(neg=True):
        v = rng.choice([0, 1, 2, 5, 100, 2**40, rng.randrange(10**6)])
        v = v * rng.choice([1.0, 0.1, 1e-9]) if fl else v
        return -v if neg and rng.random() < 0.4 else v

    def attrs():
        a = gen.attributes(rng, 2, none_in_seq=False)
        return {k: (tuple(v) if isinstance(v, list) else v) for k, v in a.items()}

    pool = [attrs() for _ in range(3)]
    insts = []
    for name, version, url, sattrs in otlp.scopes(rng, 2):
        m = prov.get_meter(name, version, url, sattrs)
        kw = lambda: {"unit": rng.choice(["", "ms", "{é}"[:1] + "x}"]), "description": rng.choice(["", "some text", "ünï"])}  # noqa: E731
        tag = rng.choice(["", "x"])
        insts += [m.create_counter("c" + tag, **kw()), m.create_up_down_counter("u" + tag, **kw()), m.create_histogram("h" + tag, **kw()), m.create_gauge("g" + tag, **kw())]
        m.create_observable_counter("oc" + tag, [lambda o: [Observation(val(False), a) for a in pool[:2]]], **kw())
        m.create_observable_up_down_counter("ou" + tag, [lambda o: [Observation(val(), pool[0])]], **kw())
        m.create_observable_gauge("og" + tag, [lambda o: [Observation(val(), pool[1])]], **kw())
    shapes = []
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 3, 15])):
            i = rng.choice(insts)
            kind = type(i).__name__
            ctx = None
            if rng.random() < 0.6:
                ctx = api.set_span_in_context(NonRecordingSpan(SpanContext(rng.randrange(1, 2**128), rng.randrange(1, 2**64), False, TraceFlags(rng.choice([0, 1])))))
            a = rng.choice(pool)
            if "Gauge" in kind:
                i.set(val(), a, ctx)
            elif "Histogram" in kind:
                i.record(val(False), a, ctx) if rng.random() < 0.5 else i.record(abs(val()), a, ctx)
            else:
                i.add(val("UpDown" in kind), a, ctx)
        data = reader.take()
        if data is None:
            continue
        compare(case, data)
        shapes.append([(m.name, type(m.data).__name__, len(m.data.data_points)) for _, m in mm.streams(data)])
    case.sig(shapes)


def by_hand(case):
    """Points at the edges of every field."""
    from opentelemetry.sdk.metrics import Exemplar
    from opentelemetry.sdk.metrics._internal.point import Buckets, ExponentialHistogram, ExponentialHistogramDataPoint, ResourceMetrics, ScopeMetrics
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T
    from opentelemetry.sdk.metrics.export import Gauge, Histogram, HistogramDataPoint, Metric, MetricsData, NumberDataPoint, Sum
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.util.instrumentation import InstrumentationScope

    rng = case.rng
    quiet.silence()

    def f():
        v = gen.floating(rng)
        if rng.random() < 0.05:
            v = float("nan")
        if v != v or v in (float("inf"), float("-inf")) or (v == 0 and str(v)[0] == "-"):
            case.observe("special_doubles")
        return v

    def n():
        v = gen.integer(rng) if rng.random() < 0.5 else f()
        if v in (2**63 - 1, -(2**63)):
            case.observe("extreme_numbers")
        return v

    t = lambda: rng.choice([0, 1, 10**18, 2**64 - 1, rng.randrange(2**63)])  # noqa: E731
    u = lambda: rng.choice([0, 1, 7, 2**63, 2**64 - 1, rng.randrange(100)])  # noqa: E731

    def exs():
        return [
            Exemplar(gen.attributes(rng, 2), n(), t(), **rng.choice([{}, {"span_id": rng.randrange(1, 2**64), "trace_id": rng.randrange(1, 2**128)}, {"span_id": 2**64 - 1, "trace_id": 1}]))
            for _ in range(rng.choice([0, 0, 1, 3]))
        ]

    def sides():
        return Buckets(rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.randrange(-1000, 1000)]), rng.choice([[], [0], [u() for _ in range(rng.randrange(1, 6))]]))

    def data():
        k = rng.randrange(4)
        tt = rng.choice([T.DELTA, T.CUMULATIVE])
        a = lambda: gen.attributes(rng, 3)  # noqa: E731
        m = rng.randrange(1, 4)
        if k == 0:
            return Sum([NumberDataPoint(a(), t(), t(), n(), exs()) for _ in range(m)], tt, rng.random() < 0.5)
        if k == 1:
            return Gauge([NumberDataPoint(a(), None, t(), n(), exs()) for _ in range(m)])
        if k == 2:
            pts = []
            for _ in range(m):
                bounds = sorted(f() for _ in range(rng.randrange(0, 4)))
                lo, hi = (float("inf"), float("-inf")) if rng.random() < 0.2 else (n(), n())
                pts.append(HistogramDataPoint(a(), t(), t(), u(), n(), [u() for _ in range(len(bounds) + 1)], bounds, lo, hi, exs()))
            return Histogram(pts, tt)
        return ExponentialHistogram(
            [ExponentialHistogramDataPoint(a(), t(), t(), u(), n(), rng.choice([-10, 0, 20, rng.randrange(-10, 21)]), u(), sides(), sides(), rng.choice([0, 1]), n(), n(), exs()) for _ in range(m)], tt
        )

    rms = []
    for r in set(otlp.resources(rng, gen, rng.choice([1, 2]))):
        scs = list({InstrumentationScope(*s) for s in otlp.scopes(rng, rng.choice([1, 2]))})
        rms.append(
            ResourceMetrics(
                r,
                [ScopeMetrics(s, [Metric(gen.string(rng), rng.choice([None, "", gen.string(rng)]), rng.choice([None, "", "By", gen.string(rng)]), data()) for _ in range(rng.randrange(0, 4))], s.schema_url) for s in scs],
                r.schema_url,
            )
        )
    # resources which only differ in what cannot be encoded are one on the wire
    md = MetricsData(rms)
    compare(case, md)
    case.sig([[len(s.metrics) for s in r.scope_metrics] for r in rms], [type(m.data).__name__ for r in rms for s in r.scope_metrics for m in s.metrics])


def preferences(case):
    """Which temporality and aggregation a reader with the exporter produces."""
    import os

    from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter as Grpc
    from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter as Http
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk import metrics as sdk
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T
    from opentelemetry.sdk.metrics.export import MetricExportResult, PeriodicExportingMetricReader
    from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation

    rng = case.rng
    quiet.silence()
    got = []

    def export(self, metrics_data, timeout_millis=10_000, **kw):
        got.append(metrics_data)
        return MetricExportResult.SUCCESS

    base = rng.choice([Grpc, Http])
    cls = type("Exporter", (base,), {"export": export, "force_flush": lambda self, timeout_millis=10_000: True})
    env_t = rng.choice([None, "CUMULATIVE", "DELTA", "LOWMEMORY", "delta", " LowMemory ", "cumulative", "nonsense", ""])
    env_a = rng.choice([None, "explicit_bucket_histogram", "base2_exponential_bucket_histogram", "nonsense"])
    kinds = {"Counter": sdk.Counter, "UpDownCounter": sdk.UpDownCounter, "Histogram": sdk.Histogram, "ObservableCounter": sdk.ObservableCounter, "ObservableUpDownCounter": sdk.ObservableUpDownCounter}
    delta = {"DELTA": {"Counter", "Histogram", "ObservableCounter"}, "LOWMEMORY": {"Counter", "Histogram"}}.get((env_t or "").strip().upper(), set())
    want = {k: k in delta for k in kinds}
    kw = {}
    if rng.random() < 0.5:
        arg = {k: rng.choice([T.DELTA, T.CUMULATIVE]) for k in rng.sample(sorted(kinds), rng.randrange(0, 4))}
        want.update({k: v == T.DELTA for k, v in arg.items()})
        kw["preferred_temporality"] = {kinds[k]: v for k, v in arg.items()}
        case.observe("preferences_argument")
    expo = env_a == "base2_exponential_bucket_histogram"
    if rng.random() < 0.4:
        expo = rng.random() < 0.5
        kw["preferred_aggregation"] = {sdk.Histogram: ExponentialBucketHistogramAggregation() if expo else ExplicitBucketHistogramAggregation()}
    counters = None
    if rng.random() < 0.3:
        # a preference for another kind of instrument leaves that of histograms to the environment
        counters = rng.choice([ExplicitBucketHistogramAggregation((1, 2)), ExponentialBucketHistogramAggregation(), LastValueAggregation()])
        kw.setdefault("preferred_aggregation", {})[sdk.ObservableCounter if isinstance(counters, LastValueAggregation) and rng.random() < 0.5 else sdk.Counter] = counters
        case.observe("other_aggregation_preferences")
    if env_t or env_a:
        case.observe("preferences_env")
    if "nonsense" in (env_t, env_a):
        case.observe("bad_preferences")
    if expo:
        case.observe("exponential_by_preference")
    env = {"OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE": env_t, "OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION": env_a}
    old = {k: os.environ.get(k) for k in env}
    try:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        ex = cls(**kw)
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    reader = PeriodicExportingMetricReader(ex, export_interval_millis=float("inf"))
    prov = mm.provider([reader])
    m = prov.get_meter("m")
    m.create_counter("Counter").add(1)
    m.create_up_down_counter("UpDownCounter").add(1)
    m.create_histogram("Histogram").record(1)
    m.create_gauge("Gauge").set(1)
    m.create_observable_counter("ObservableCounter", [lambda o: [Observation(1)]])
    m.create_observable_up_down_counter("ObservableUpDownCounter", [lambda o: [Observation(1)]])
    m.create_observable_gauge("ObservableGauge", [lambda o: [Observation(1)]])
    reader.force_flush()
    case.check(len(got) == 1, "no-export", f"{len(got)} exports")
    seen = {mt.name.lower(): mt for _, mt in mm.streams(got[0])}
    case.eq(sorted(seen), sorted(k.lower() for k in [*kinds, "Gauge", "ObservableGauge"]), "missing-metric", "metrics exported")
    if counters is not None:
        other = "counter" if sdk.Counter in kw["preferred_aggregation"] else "observablecounter"
        kind = {ExplicitBucketHistogramAggregation: "Histogram", ExponentialBucketHistogramAggregation: "ExponentialHistogram", LastValueAggregation: "Gauge"}[type(counters)]
        case.eq(type(seen[other].data).__name__, kind, "aggregation", f"{other} with argument {kw['preferred_aggregation']}")
        if kind == "Gauge":
            want.pop({"counter": "Counter", "observablecounter": "ObservableCounter"}[other])
    for k, d in want.items():
        case.eq(seen[k.lower()].data.aggregation_temporality.name, "DELTA" if d else "CUMULATIVE", "temporality", f"{base.__module__.split('.')[-2]} exporter, {k}, environment {env_t!r}, argument {kw.get('preferred_temporality')}")
    case.eq(type(seen["histogram"].data).__name__, "ExponentialHistogram" if expo else "Histogram", "aggregation", f"histogram with environment {env_a!r} and argument {kw.get('preferred_aggregation')}")
    compare(case, got[0])
    case.sig(base.__module__, env_t, env_a, sorted(map(str, kw.items())))


WORKLOADS = [Workload("collected", collected, 1500, 60_000), Workload("by_hand", by_hand, 1500, 60_000), Workload("preferences", preferences, 400, 6_000)]
