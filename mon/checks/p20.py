import itertools
import time
from fractions import Fraction

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P20"
VENV = "pb5"
SCHED = True
REQUIRED = ["records", "negative_records", "delta_points", "cumulative_points", "on_boundary", "view_bounds", "advisory_bounds", "default_bounds", "infinite_bounds", "empty_bounds", "concurrent_records", "concurrent_collections", "racing_records", "shared_views"]
RULE = (
    "Random record/collect histories over several histograms whose bounds come from views, advisories or the default, judged by a histogram "
    "recomputed from the history with exact arithmetic; concurrent recorders and collectors under the schedule fuzzer with values that identify "
    "themselves in the bucket counts and the sum; distinct = history or program plus context switches."
)
ASSUMPTIONS = [
    "recorded values are finite and bounds increase strictly",
    "sums of floats are compared within rounding of one addition per value",
    "a cumulative point may precede its first measurement as an empty point while they race",
]
DEFAULT = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)


def bounds(rng):
    r = rng.random()
    if r < 0.1:
        return ()
    if r < 0.2:
        return tuple(sorted({rng.choice([-float("inf"), 0.0, 1, 2.5, float("inf")]) for _ in range(4)}))
    if r < 0.4:
        return tuple(sorted({rng.randrange(-20, 100) for _ in range(rng.randrange(1, 8))}))
    if r < 0.6:
        b = rng.choice([0.1, 1e-300, 1e300, 5e-324, 1.0])
        import math

        return tuple(sorted({b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf)}))
    return tuple(sorted({rng.choice([0, 0.1, 0.2, 0.30000000000000004, 0.3, 1, 2, 3, 1e9, -1, 2**53, 2**53 + 2, 1e-9]) for _ in range(rng.randrange(1, 7))}))


def value(rng, bs):
    import math

    r = rng.random()
    if bs and r < 0.35:
        b = rng.choice(bs)
        if math.isfinite(b):
            return rng.choice([b, b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf), int(b)])
    if r < 0.6:
        return rng.randrange(0, 120)
    return rng.choice([0, 0.0, -0.0, 1e-320, 1.5e308, 10**15, 2**53 + 1, rng.random(), rng.random() * 10000, True, 7500, 10000.000001])


def bucket(bs, v):
    """Index of the bucket (lower, upper] that holds v."""
    for i, b in enumerate(bs):
        if v <= b:
            return i
    return len(bs)


def expected(bs, values):
    counts = [0] * (len(bs) + 1)
    for v in values:
        counts[bucket(bs, v)] += 1
    return counts


def check_point(case, p, bs, values, minmax, what):
    case.check(tuple(p.explicit_bounds) == tuple(bs), "bounds", f"{what}: bounds {p.explicit_bounds} want {bs}")
    case.check(sum(p.bucket_counts) == p.count and len(p.bucket_counts) == len(bs) + 1, "count", f"{what}: counts {p.bucket_counts} count {p.count}")
    case.check(list(p.bucket_counts) == expected(bs, values), "buckets", f"{what}: {list(p.bucket_counts)} want {expected(bs, values)} for {values[:20]} bounds {bs}")
    exact = sum((Fraction(v) for v in values), Fraction(0))
    size = sum((abs(Fraction(v)) for v in values), Fraction(0))
    room = size * (len(values) + 1) * Fraction(1, 2**52)
    if size < 2**1023:
        case.check(abs(Fraction(p.sum) - exact) <= room, "sum", f"{what}: sum {p.sum} want {float(exact)}")
    if all(isinstance(v, int) for v in values):
        case.check(p.sum == exact, "sum", f"{what}: integer sum {p.sum} want {exact}")
    if minmax and values:
        case.check(p.min == min(values) and p.max == max(values), "minmax", f"{what}: [{p.min}, {p.max}] want [{min(values)}, {max(values)}]")


def histories(case):
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T
    from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, View

    rng = case.rng
    quiet.silence()
    readers, temps, prefs = [], [], []
    R = mm.reader_class()
    from opentelemetry.sdk.metrics import Histogram

    for _ in range(rng.choice([1, 1, 2])):
        t, names = mm.temporality(rng)
        kw = {}
        pref = None
        if rng.random() < 0.2:
            pref = rng.choice([None, bounds(rng)])
            kw["preferred_aggregation"] = {Histogram: ExplicitBucketHistogramAggregation(pref)}
        readers.append(R(preferred_temporality=t, **kw))
        temps.append(names)
        prefs.append(pref)
    views, specs = [], []
    shared = ExplicitBucketHistogramAggregation()
    for n in range(rng.choice([1, 2, 3])):
        kind = rng.choice(["Histogram", "Histogram", "Histogram", "Counter", "UpDownCounter"])
        vb, adv, minmax = None, None, True
        use_view = kind != "Histogram" or rng.random() < 0.5
        if kind == "Histogram" and rng.random() < 0.5:
            adv = bounds(rng)
        if use_view:
            if rng.random() < 0.5:
                vb = bounds(rng)
                minmax = rng.random() < 0.7
                agg = ExplicitBucketHistogramAggregation(rng.choice([list, tuple])(vb), record_min_max=minmax)
            else:
                agg = shared
                case.observe("shared_views")
            views.append(View(instrument_name=f"h{n}", aggregation=agg))
        specs.append((f"h{n}", kind, vb, adv, minmax, use_view))
    prov = mm.provider(readers, views)
    m = prov.get_meter("m")
    insts = []
    for name, kind, vb, adv, minmax, use_view in specs:
        if kind == "Histogram":
            h = m.create_histogram(name, explicit_bucket_boundaries_advisory=list(adv)) if adv is not None else m.create_histogram(name)
        else:
            h = m.create_counter(name) if kind == "Counter" else m.create_up_down_counter(name)
        insts.append((name, kind, vb, adv, minmax, use_view, h))
    data = [dict() for _ in readers]  # (name, key) -> [all, since]
    times = [dict() for _ in readers]
    shape = []

    def limits(spec, i):
        vb, adv = spec[2], spec[3]
        if vb is not None:
            return vb, "view_bounds"
        if not spec[5] and prefs[i] is not None:
            return prefs[i], "view_bounds"
        if adv is not None:
            return adv, "advisory_bounds"
        return DEFAULT, "default_bounds"

    for _ in range(rng.randrange(3, 25)):
        if rng.random() < 0.75:
            spec = rng.choice(insts)
            name, kind, h = spec[0], spec[1], spec[6]
            bs, _ = limits(spec, 0)
            v = value(rng, bs)
            if rng.random() < 0.1:
                v = -rng.choice([1, 0.5, 3])
            a = mm.attrs(rng)
            shape.append((name, v, str(a)))
            (h.record if kind == "Histogram" else h.add)(v, a)
            case.observe("records")
            if v < 0 and kind != "UpDownCounter":
                case.observe("negative_records")
                continue
            if v in bs:
                case.observe("on_boundary")
            for d in data:
                row = d.setdefault((name, mm.key(a)), [[], []])
                row[0].append(v)
                row[1].append(v)
        else:
            i = rng.randrange(len(readers))
            b = time.time_ns()
            got = mm.points(case, readers[i].take())
            e = time.time_ns()
            shape.append(i)
            flat = {(n, a): (mt, p) for (_, n), (mt, ps) in got.items() for a, p in ps.items()}
            want = {}
            for (n, a), row in data[i].items():
                spec = next(x for x in insts if x[0] == n)
                delta = temps[i][spec[1]]
                if not delta:
                    want[(n, a)] = row[0]
                elif row[1]:
                    want[(n, a)] = row[1]
            case.check(set(flat) == set(want), "points", f"missing {sorted(map(str, set(want) - set(flat)))[:3]} extra {sorted(map(str, set(flat) - set(want)))[:3]}")
            for k, (mt, p) in flat.items():
                spec = next(x for x in insts if x[0] == k[0])
                delta = temps[i][spec[1]]
                bs, src = limits(spec, i)
                case.observe(src)
                if not bs:
                    case.observe("empty_bounds")
                if any(abs(x) == float("inf") for x in bs):
                    case.observe("infinite_bounds")
                case.observe("delta_points" if delta else "cumulative_points")
                check_point(case, p, bs, want[k], spec[4], f"reader {i} {k} {'delta' if delta else 'cumulative'}")
                case.check(mt.data.aggregation_temporality == (T.DELTA if delta else T.CUMULATIVE), "temporality", f"{k}")
                case.check(b <= p.time_unix_nano <= e and p.start_time_unix_nano <= p.time_unix_nano, "time", f"{k}: [{p.start_time_unix_nano}, {p.time_unix_nano}] collected in [{b}, {e}]")
                last = times[i].get(k)
                if last:
                    if delta:
                        case.check(p.start_time_unix_nano >= last[1], "overlap", f"{k}: interval overlaps the previous one")
                    else:
                        case.check(p.start_time_unix_nano == last[0], "start-moved", f"{k}: cumulative start moved")
                times[i][k] = (p.start_time_unix_nano, p.time_unix_nano)
            for row in data[i].values():
                row[1] = []
    case.sig(shape)
    prov.shutdown()


def concurrent(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=300_000)
    box = {}
    # value 2**i falls into bucket i: counts and sum both name the measurements
    nb = rng.choice([8, 12])
    bs = tuple(2**i for i in range(nb))

    def main():
        import threading
        from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, View

        R = mm.reader_class()
        readers, temps = [], []
        for _ in range(rng.choice([1, 1, 2])):
            t, names = mm.temporality(rng)
            readers.append(R(preferred_temporality=t))
            temps.append(names["Histogram"])
        how = rng.choice(["view", "advisory"])
        views = [View(instrument_name="h", aggregation=ExplicitBucketHistogramAggregation(bs))] if how == "view" else []
        prov = mm.provider(readers, views)
        h = prov.get_meter("m").create_histogram("h", explicit_bucket_boundaries_advisory=list(bs) if how == "advisory" else None)
        clock = itertools.count()
        bit = itertools.count()
        rows, cols = {}, []
        keys = [{}, {"a": 1}][: rng.choice([1, 2])]
        budget = nb
        plans = []
        for _ in range(rng.choice([1, 2, 3])):
            k = min(budget, rng.randrange(1, 4))
            budget -= k
            plans.append([rng.choice(keys) for _ in range(k)])
        if rng.random() < 0.4 and budget:
            v = 1 << next(bit)
            rows.setdefault(mm.key(keys[0]), []).append([v, next(clock), next(clock)])
            h.record(v, keys[0])
        cplans = [[rng.randrange(len(readers)) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2]))]

        def recorder(plan):
            for a in plan:
                row = [1 << next(bit), next(clock), None]
                rows.setdefault(mm.key(a), []).append(row)
                h.record(row[0], a)
                row[2] = next(clock)
                case.observe("concurrent_records")

        def collect(i):
            b = next(clock)
            got = mm.points(case, readers[i].take())
            e = next(clock)
            cols.append((i, b, e, {a: p for _, ps in got.values() for a, p in ps.items()}))
            case.observe("concurrent_collections")

        ts = [threading.Thread(target=recorder, args=(p,)) for p in plans]
        ts += [threading.Thread(target=lambda p=p: [collect(i) for i in p]) for p in cplans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(len(readers)):
            collect(i)
        box.update(rows=rows, cols=cols, temps=temps, n=len(readers))

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    rows, cols, temps = box["rows"], box["cols"], box["temps"]
    for i in range(box["n"]):
        mine = [c for c in cols if c[0] == i]
        for k, rs in rows.items():
            by = {r[0]: r for r in rs}
            if any(r[1] < c[2] and (r[2] is None or r[2] > c[1]) for r in rs for c in mine):
                case.observe("racing_records")
            pts = sorted(((c[3][k].time_unix_nano, c) for c in mine if k in c[3]), key=lambda x: x[0])
            seen, prev = set(), set()
            for t, c in pts:
                p = c[3][k]
                counts = list(p.bucket_counts)
                inside = {2**n for n, x in enumerate(counts[:-1]) if x}
                what = f"{k} reader {i}"
                case.check(all(x in (0, 1) for x in counts) and inside <= set(by) and counts[-1] == 0, "buckets", f"{what}: counts {counts} measurements {sorted(by)}")
                case.check(p.count == len(inside) and p.sum == sum(inside), "torn", f"{what}: count {p.count} sum {p.sum} buckets {counts}")
                if inside:
                    case.check(p.min == min(inside) and p.max == max(inside), "torn", f"{what}: min {p.min} max {p.max} of {sorted(inside)}")
                else:
                    case.check(not temps[i], "empty", f"{what}: empty delta point")
                case.check(not any(by[v][1] > c[2] for v in inside), "future", f"{what}: measurement that began after the collection")
                if temps[i]:
                    case.check(not inside & seen, "twice", f"{what}: measurement in two deltas")
                    seen |= inside
                    owned = set().union(seen, *({2**n for n, x in enumerate(o[3][k].bucket_counts[:-1]) if x} for o in mine if k in o[3]))
                else:
                    case.check(prev <= inside, "cumulative-lost", f"{what}: {sorted(prev)} then {sorted(inside)}")
                    prev = owned = inside
                missing = [v for v in by if by[v][2] is not None and by[v][2] < c[1] and v not in owned]
                case.check(not missing, "lost", f"{what}: completed measurements {missing} not collected")
            final = seen if temps[i] else prev
            case.check(final == set(by), "lost", f"{k} reader {i}: collected {sorted(final)} want {sorted(by)}")
            case.observe("delta_points" if temps[i] else "cumulative_points", len(pts))


WORKLOADS = [
    Workload("histories", histories, quick=3000, thorough=60000),
    Workload("concurrent", concurrent, quick=1200, thorough=30000),
]
