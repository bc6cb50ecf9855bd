import itertools
import time

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P24"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "measurements", "exemplars", "sampled_contexts", "unsampled_contexts", "recording_unsampled", "filter_custom", "other_aggregations", "small_exponential", "empty_contexts", "invalid_span_contexts", "explicit_contexts", "current_contexts", "filtered_attribute_exemplars", "filter_on", "filter_off", "filter_trace",
    "full_reservoirs", "aligned_reservoirs", "custom_reservoirs", "observable_exemplars", "empty_collections", "cumulative_points", "delta_points", "mutated_attributes", "compared_values", "concurrent_exemplars", "racing_records",
]
RULE = (
    "Random histories of uniquely valued measurements under sampled, unsampled, invalid and absent spans, given or current, through every filter and "
    "reservoir, each exemplar looked up in the history; the same history without exemplars must aggregate to the same values; concurrent recorders and "
    "collectors under the schedule fuzzer; distinct = history or program plus context switches."
)
ASSUMPTIONS = ["custom reservoirs are the two the SDK offers, with other sizes and boundaries", "exponential histograms offer no zeros to their reservoir"]
SETS = [{}, {"a": 1}, {"a": 2, "b": "x"}, {"p": True, "q": 0, "r": "", "b": "x", "a": 3.5}, {"b": "y"}, {"a": 1, "c": [1, 2]}, None]


def contexts(rng, case):
    """(context, trace id, span id, sampled, how)"""
    from opentelemetry import trace
    from opentelemetry.context import Context

    r = rng.random()
    if r < 0.25:
        case.observe("empty_contexts")
        return Context(), None, None, False
    if r < 0.35:
        case.observe("invalid_span_contexts")
        bad = rng.choice([trace.INVALID_SPAN, trace.NonRecordingSpan(trace.SpanContext(0, 5, False, trace.TraceFlags(1))), trace.NonRecordingSpan(trace.SpanContext(5, 0, True, trace.TraceFlags(1)))])
        # whether an invalid but flagged span is admitted is not specified: its ids must not appear
        return trace.set_span_in_context(bad, Context()), None, None, None if bad is not trace.INVALID_SPAN else False
    sampled = rng.random() < 0.6
    case.observe("sampled_contexts" if sampled else "unsampled_contexts")
    t, sp = rng.getrandbits(128) | 1, rng.getrandbits(64) | 1
    flags = trace.TraceFlags(rng.choice([1, 3, 0xFF]) if sampled else rng.choice([0, 2, 0xFE]))
    # recording and sampling are independent of each other
    kind = trace.NonRecordingSpan
    if rng.random() < 0.3:
        case.observe("recording_unsampled" if not sampled else "recording_sampled")
        kind = type("Recording", (trace.NonRecordingSpan,), {"is_recording": lambda self: True})
    span = kind(trace.SpanContext(t, sp, rng.random() < 0.5, flags))
    return trace.set_span_in_context(span, Context({"k": 1})), t, sp, sampled


class Setup:
    """One provider with one or two readers; what the model knows about its streams."""

    def __init__(self, rng, case, filt, views, temps, kinds, provider_filter):
        R = mm.reader_class()
        self.readers = [R(preferred_temporality=t) for t in temps]
        self.prov = mm.provider(self.readers, views, exemplar_filter=provider_filter)
        self.meter = self.prov.get_meter("m")
        self.rec = {}
        self.observing = {}
        from opentelemetry.metrics import Observation

        for n, k in kinds:
            m = self.meter
            if k == "Counter":
                self.rec[n] = m.create_counter(n).add
            elif k == "UpDownCounter":
                self.rec[n] = m.create_up_down_counter(n).add
            elif k in ("Histogram", "Exponential"):
                self.rec[n] = m.create_histogram(n, explicit_bucket_boundaries_advisory=BOUNDS).record
            elif k == "Gauge":
                self.rec[n] = m.create_gauge(n).set
            else:
                cb = lambda o, n=n: [Observation(v, a, c) for v, a, c in self.observing.get(n, [])]
                getattr(m, {"ObservableCounter": "create_observable_counter", "ObservableGauge": "create_observable_gauge"}[k])(n, [cb])


BOUNDS = [10, 100, 1000]


def plain(md):
    """Values of a collection without exemplars and times."""
    out = []
    for sc, m in mm.streams(md):
        pts = []
        for p in m.data.data_points:
            row = [mm.key(p.attributes)]
            for f in ("value", "count", "sum", "min", "max", "scale", "zero_count", "bucket_counts", "explicit_bounds"):
                if hasattr(p, f):
                    row.append((f, str(getattr(p, f))))
            if hasattr(p, "positive"):
                row.append(str((p.positive, p.negative)))
            pts.append(row)
        out.append((m.name, m.unit, type(m.data).__name__, sorted(pts, key=repr)))
    return sorted(out, key=repr)


class OwnFilter:
    """A user's filter: admits by value and by attributes the stream may not keep."""

    def should_sample(self, value, time_unix_nano, attributes, context):
        return own_rule(value, attributes)


def own_rule(value, attributes):
    return value > 4 and (attributes or {}).get("b") != "y"


def histories(case):
    from opentelemetry import context as ctx
    from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, TraceBasedExemplarFilter
    from opentelemetry.sdk.metrics._internal.exemplar import AlignedHistogramBucketExemplarReservoir, SimpleFixedSizeExemplarReservoir
    from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation, SumAggregation, View

    rng = case.rng
    quiet.silence()
    filt = rng.choice(["on", "on", "trace", "trace", "off", "custom"])
    case.observe("filter_" + filt)
    F = {"custom": OwnFilter, "on": AlwaysOnExemplarFilter, "off": AlwaysOffExemplarFilter, "trace": TraceBasedExemplarFilter}
    pairs = [mm.temporality(rng) for _ in range(rng.choice([1, 1, 2]))]
    temps, names = [p[0] for p in pairs], [p[1] for p in pairs]
    kinds, views, conf = [], [], {}
    for i in range(rng.randrange(1, 4)):
        k = rng.choice(["Counter", "UpDownCounter", "Histogram", "Histogram", "Exponential", "Gauge", "ObservableCounter", "ObservableGauge"])
        n = f"i{i}"
        kinds.append((n, k))
        size = len(BOUNDS) + 1 if k == "Histogram" else 20 if k == "Exponential" else 1
        bounds = BOUNDS if k == "Histogram" else None
        kw = {}
        keys = rng.choice([None, None, set(), {"a"}, {"zz"}])
        if keys is not None:
            kw["attribute_keys"] = keys
        if k == "Exponential":
            most = rng.choice([160, 160, 25, 19, 7, 4])
            size = min(20, most)
            kw["aggregation"] = ExponentialBucketHistogramAggregation(max_size=most)
            case.observe("small_exponential", most < 20)
        elif rng.random() < 0.2:
            # an aggregation other than the instrument's own
            if k == "Histogram":
                kw["aggregation"], size, bounds = rng.choice([(SumAggregation(), 1, None), (LastValueAggregation(), 1, None), (ExplicitBucketHistogramAggregation([3, 30]), 3, [3, 30])])
            elif k in ("Counter", "Gauge"):
                kw["aggregation"], size, bounds = rng.choice([(LastValueAggregation(), 1, None), (ExplicitBucketHistogramAggregation([3, 30]), 3, [3, 30])])
            case.observe("other_aggregations", "aggregation" in kw)
        if rng.random() < 0.4:
            case.observe("custom_reservoirs")
            if rng.random() < 0.6:
                size, bounds = rng.choice([1, 2, 3, 8]), None
                kw["exemplar_reservoir_factory"] = lambda t, size=size: lambda **_: SimpleFixedSizeExemplarReservoir(size)
            else:
                bounds = rng.choice([[], [5], [1, 50, 500, 5000]])
                size = len(bounds) + 1
                kw["exemplar_reservoir_factory"] = lambda t, b=bounds: lambda **_: AlignedHistogramBucketExemplarReservoir(b)
        if kw:
            views.append(View(instrument_name=n, **kw))
        conf[n] = (k, size, bounds, keys)
    main = Setup(rng, case, filt, views, temps, kinds, F[filt]())
    # the same history with the other extreme of exemplar sampling
    other = Setup(rng, case, filt, views, temps, kinds, F["off" if filt != "off" else "on"]())
    unique = itertools.count(1)
    offered = [dict() for _ in temps]  # (name, point key) -> [(value, attrs, t0, t1, trace, span, admitted)] since the last collection
    ever = [dict() for _ in temps]
    shape = []

    def value(k):
        n = next(unique)
        v = rng.choice([n, n * 7, n + 0.5, n / 16])
        if k == "UpDownCounter" and rng.random() < 0.4:
            v = -v
        if k in ("Histogram", "Exponential") and rng.random() < 0.1:
            return 0
        return v

    def offer(i, n, v, a, t0, t1, c):
        keys = conf[n][3]
        pa = {x: y for x, y in (a or {}).items() if keys is None or x in keys}
        if conf[n][0] == "Exponential" and v == 0:
            admitted = False
        else:
            admitted = own_rule(v, a) if filt == "custom" else filt == "on" or (filt == "trace" and c[3])
        if filt == "trace" and c[3] is None:
            admitted = None
        offered[i].setdefault((n, mm.key(pa)), []).append((v, dict(a or {}), t0, t1, c[1], c[2], admitted))

    for _ in range(rng.randrange(3, 30)):
        time.sleep(0.001)
        if rng.random() < 0.8:
            n, k = rng.choice(kinds)
            if k.startswith("Obs"):
                continue
            for _ in range(rng.choice([1, 1, 2, 6])):
                v, a, c = value(k), rng.choice(SETS), contexts(rng, case)
                a = None if a is None else dict(a)
                given = None if a is None else dict(a)
                how = rng.random() < 0.5
                t0 = time.time_ns()
                if how:
                    case.observe("explicit_contexts")
                    # a current span that must not be used
                    tok = ctx.attach(contexts(rng, case)[0])
                    main.rec[n](v, a, c[0])
                    ctx.detach(tok)
                else:
                    case.observe("current_contexts")
                    tok = ctx.attach(c[0])
                    main.rec[n](v, a)
                    ctx.detach(tok)
                t1 = time.time_ns()
                if a and rng.random() < 0.3:
                    a["a"] = "changed later"
                    a["new"] = 1
                    case.observe("mutated_attributes")
                other.rec[n](v, given, c[0])
                case.observe("measurements")
                shape.append((n, v, str(given), c[3], how))
                for i in range(len(temps)):
                    offer(i, n, v, given, t0, t1, c)
        else:
            i = rng.randrange(len(temps))
            t0 = time.time_ns()
            cur = contexts(rng, case)
            for n, k in kinds:
                if k.startswith("Obs"):
                    rows = []
                    used = set()
                    for a in rng.sample(SETS, rng.randrange(0, 4)):
                        v = value(k)
                        given = rng.random() < 0.6
                        c = contexts(rng, case) if given else cur
                        rows.append((v, None if a is None else dict(a), c[0] if given else None, c))
                    main.observing[n] = other.observing[n] = [r[:3] for r in rows]
                    for v, a, _, c in rows:
                        offer(i, n, v, a, t0, None, c)
            tok = ctx.attach(cur[0])
            md = main.readers[i].take()
            ctx.detach(tok)
            t1 = time.time_ns()
            om = other.readers[i].take()
            shape.append(i)
            case.eq(plain(md), plain(om), "values-changed", f"aggregated values with filter {filt} and with the opposite one")
            case.observe("compared_values")
            reported = set()
            for (_, n), (mt, ps) in mm.points(case, md).items():
                k, size, bounds, keys = conf[n]
                for pk, p in ps.items():
                    case.observe("delta_points" if names[i].get(k if k != "Exponential" else "Histogram") else "cumulative_points")
                    rows = offered[i].get((n, pk), [])
                    exs = list(p.exemplars or [])
                    what = f"{k} {n} {pk} reader {i} filter {filt}"
                    admitted = [r for r in rows if r[6]]
                    maybe = [r for r in rows if r[6] is None]
                    if not rows:
                        case.observe("empty_collections")
                    case.check(len(exs) <= size, "too-many", f"{what}: {len(exs)} exemplars in a reservoir of {size}")
                    if len(exs) == size > 1:
                        case.observe("full_reservoirs")
                    case.check(exs or not admitted, "none", f"{what}: no exemplar although {len(admitted)} measurements were admitted")
                    left = list(admitted) + maybe
                    for x in exs:
                        case.observe("exemplars")
                        if k.startswith("Obs"):
                            case.observe("observable_exemplars")
                        hit = None
                        for r in left:
                            extra = {q: w for q, w in r[1].items() if keys is not None and q not in keys}
                            hi = t1 if r[3] is None else r[3]
                            if (
                                x.value == r[0]
                                and type(x.value) is type(r[0])
                                and (x.trace_id, x.span_id) == (r[4], r[5])
                                and mm.key(x.filtered_attributes) == mm.key(extra)
                                and r[2] <= x.time_unix_nano <= hi
                            ):
                                hit = r
                                break
                        case.check(
                            hit is not None,
                            "not-a-measurement",
                            f"{what}: exemplar {x} is none of the admitted measurements {[(r[0], r[1], r[2], r[3], r[4], r[5]) for r in left if r[0] == x.value][:3] or [r[0] for r in left][:10]}",
                        )
                        left.remove(hit)
                        if hit[1] and keys is not None and any(q not in keys for q in hit[1]):
                            case.observe("filtered_attribute_exemplars")
                    if bounds is not None:
                        case.observe("aligned_reservoirs")
                        slots = [next((j for j, b in enumerate(bounds) if x.value <= b), len(bounds)) for x in exs]
                        case.check(len(set(slots)) == len(slots), "same-bucket", f"{what}: exemplars {[x.value for x in exs]} share a bucket of {bounds}")
                        want = {next((j for j, b in enumerate(bounds) if r[0] <= b), len(bounds)) for r in admitted}
                        case.check(want <= set(slots), "bucket-missing", f"{what}: buckets {sorted(want)} have measurements, exemplars are in {sorted(slots)}")
            for n, k in kinds:
                for key in list(offered[i]):
                    if key[0] == n:
                        offered[i][key] = []
    case.sig(shape)
    main.prov.shutdown()
    other.prov.shutdown()


def concurrent(case):
    from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, TraceBasedExemplarFilter

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=400_000)
    box = {}

    def main():
        import threading
        from opentelemetry import trace
        from opentelemetry.context import Context
        from opentelemetry.sdk.metrics._internal.exemplar import SimpleFixedSizeExemplarReservoir
        from opentelemetry.sdk.metrics.view import View

        kind = rng.choice(["Counter", "Histogram", "Gauge"])
        t, names = mm.temporality(rng)
        reader = mm.reader_class()(preferred_temporality=t)
        size = rng.choice([1, 2, 4])
        views = []
        if kind != "Histogram" or rng.random() < 0.4:
            views = [View(instrument_name="i", attribute_keys=set(), exemplar_reservoir_factory=lambda t: lambda **_: SimpleFixedSizeExemplarReservoir(size))]
        else:
            size = None
            views = [View(instrument_name="i", attribute_keys=set())]
        prov = mm.provider([reader], views, exemplar_filter=rng.choice([AlwaysOnExemplarFilter, TraceBasedExemplarFilter])())
        m = prov.get_meter("m")
        rec = {"Counter": lambda: m.create_counter("i").add, "Gauge": lambda: m.create_gauge("i").set, "Histogram": lambda: m.create_histogram("i", explicit_bucket_boundaries_advisory=[2, 8, 32, 128]).record}[kind]()
        clock, bit = itertools.count(), itertools.count()
        rows, cols = {}, []
        plans = [rng.randrange(1, 5) for _ in range(rng.choice([2, 3]))]

        def recorder(n):
            for _ in range(n):
                b = next(bit)
                c = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(b + 1000, b + 1, False, trace.TraceFlags(1))), Context())
                row = [1 << b, next(clock), None, b, time.time_ns(), None]
                rows[1 << b] = row
                rec(1 << b, {"id": b}, c)
                row[2], row[5] = next(clock), time.time_ns()

        def collect():
            b = next(clock)
            got = mm.points(case, reader.take())
            cols.append((b, next(clock), time.time_ns(), [p for _, ps in got.values() for p in ps.values()]))

        def collector(n):
            for _ in range(n):
                collect()

        ts = [threading.Thread(target=recorder, args=(n,)) for n in plans]
        ts += [threading.Thread(target=collector, args=(rng.randrange(1, 4),)) for _ in range(rng.choice([1, 1, 2]))]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        collect()
        box.update(rows=rows, cols=cols, kind=kind, delta=names[kind] if kind != "Gauge" else None, size=size)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if not box:
        return
    rows, kind = box["rows"], box["kind"]
    seen = set()
    for b, e, t1, pts in box["cols"]:
        case.check(len(pts) <= 1, "points", f"{len(pts)} points for one stream")
        for p in pts:
            exs = p.exemplars or []
            if box["size"]:
                case.check(len(exs) <= box["size"], "too-many", f"{len(exs)} exemplars, reservoir {box['size']}")
            for x in exs:
                case.observe("concurrent_exemplars")
                row = rows.get(x.value)
                case.check(row is not None, "not-a-measurement", f"{x}")
                i = row[3]
                case.check((x.trace_id, x.span_id, dict(x.filtered_attributes or {})) == (i + 1000, i + 1, {"id": i}), "mixed", f"{x} is not the measurement {i}")
                case.check(row[4] <= x.time_unix_nano <= (row[5] or t1), "time", f"{x} recorded in [{row[4]}, {row[5]}]")
                case.check(row[1] < e, "future", f"{x} began after the collection")
                case.check(x.value not in seen, "again", f"exemplar {x.value} reported twice")
                seen.add(x.value)
                total = p.sum if kind == "Histogram" else p.value
                if kind != "Gauge":
                    case.check(total & x.value, "other-point", f"exemplar {x.value} of a point with sum {total}")
                if row[2] is None or row[2] > b:
                    case.observe("racing_records")
            case.check(exs or kind == "Counter" and not box["delta"] or kind == "Histogram" and not box["delta"], "none", f"a new {kind} point without exemplars")


WORKLOADS = [Workload("histories", histories, 2400, 60_000), Workload("concurrent", concurrent, 1200, 30_000)]
