import itertools
import math
import time
from fractions import Fraction

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P21"
VENV = "pb5"
SCHED = True
REQUIRED = ["records", "delta_points", "cumulative_points", "negative_values", "zero_values", "subnormal_values", "boundary_values", "rescaled_points", "zero_only_intervals", "two_sided_points", "full_ranges", "concurrent_records", "concurrent_collections"]
RULE = (
    "Random value streams (powers of two and neighbours, decades, subnormal to maximal, zeros, negatives) over instruments with random size and "
    "scale limits, collected at random points; each point is compared with bucket indices, ideal scale and statistics recomputed from the stream; "
    "concurrent recorders and collectors under the schedule fuzzer; distinct = stream or program plus context switches."
)
ASSUMPTIONS = [
    "values are finite doubles or integers within their range",
    "a value whose base-2 logarithm is within 2e-12 of a bucket boundary that is no power of two may be in either bucket (floating-point logarithm)",
    "subnormal values count as the smallest normal one, as the mapping documents",
    "a delta point may use a scale that an earlier interval needed",
]
TOL = 2e-12
MIN = 2.2250738585072014e-308


def indices(v, scale):
    """Candidate bucket indices of v > 0: the bucket (2**(i*2**-s), 2**((i+1)*2**-s)]."""
    v = max(float(v), MIN)
    m, e = math.frexp(v)  # v = m * 2**e, 0.5 <= m < 1
    if m == 0.5:
        # an exact power of two: log2 = e - 1
        if scale >= 0:
            return {((e - 1) << scale) - 1}
        return {((e - 2) >> -scale)}
    part = math.log2(2 * m)  # log2(v) = e - 1 + part, 0 <= part < 1
    if scale <= 0:
        return {(e - 1) >> -scale}
    x = part * (1 << scale)
    n = (e - 1) * (1 << scale)
    if abs(x - round(x)) < TOL * (1 << scale):
        out = {n + round(x) - 1, n + round(x)}
    else:
        out = {n + math.ceil(x) - 1}
    # powers of two are boundaries that are never missed
    return {i for i in out if n <= i < n + (1 << scale)}


def ideal(values, max_size, max_scale):
    """(lowest, highest) acceptable largest scale at which both ranges fit."""
    res = [None, None]
    for which in (0, 1):
        s = max_scale
        while s > -10:
            ok = True
            for sign in (1, -1):
                vs = [sign * v for v in values if sign * v > 0]
                if not vs:
                    continue
                lo, hi = indices(min(vs), s), indices(max(vs), s)
                span = (max(hi) - min(lo)) if which == 0 else (min(hi) - max(lo))
                ok = ok and span < max_size
            if ok:
                break
            s -= 1
        res[which] = s
    return res


def check_side(case, b, values, scale, max_size, what):
    counts = list(b.bucket_counts)
    case.check(len(counts) <= max_size, "size", f"{what}: {len(counts)} buckets, limit {max_size}")
    case.check(all(isinstance(c, int) and c >= 0 for c in counts), "counts", f"{what}: {counts[:30]}")
    case.check(sum(counts) == len(values), "conservation", f"{what}: {sum(counts)} counted of {len(values)}")
    sure, maybe = {}, {}
    for v in values:
        c = indices(v, scale)
        if len(c) == 1:
            sure[next(iter(c))] = sure.get(next(iter(c)), 0) + 1
        else:
            for i in c:
                maybe[i] = maybe.get(i, 0) + 1
    have = {b.offset + j: c for j, c in enumerate(counts) if c}
    for i in set(have) | set(sure):
        lo, hi = sure.get(i, 0), sure.get(i, 0) + maybe.get(i, 0)
        case.check(lo <= have.get(i, 0) <= hi, "bucket", f"{what}: bucket {i} at scale {scale} holds {have.get(i, 0)} want {lo}..{hi}; values {values[:12]} counts {sorted(have.items())[:12]}")
    if len(counts) == max_size and max_size > 1 and counts[0] and counts[-1]:
        case.observe("full_ranges")


def check_point(case, p, values, so_far, max_size, max_scale, what):
    pos = [v for v in values if v > 0]
    neg = [-v for v in values if v < 0]
    zero = len(values) - len(pos) - len(neg)
    case.check(p.count == len(values), "count", f"{what}: count {p.count} want {len(values)}")
    case.check(p.zero_count == zero, "zero-count", f"{what}: zero count {p.zero_count} want {zero}")
    case.check(p.scale <= max_scale, "scale-limit", f"{what}: scale {p.scale} above {max_scale}")
    check_side(case, p.positive, pos, p.scale, max_size, f"{what} positive")
    check_side(case, p.negative, neg, p.scale, max_size, f"{what} negative")
    if pos or neg:
        lo = ideal(so_far, max_size, max_scale)[0]
        hi = ideal(values, max_size, max_scale)[1]
        case.check(lo <= p.scale <= hi, "scale", f"{what}: scale {p.scale} want {lo}..{hi} (max size {max_size}); values {values[:12]} of {so_far[:20]}")
        if p.scale < max_scale:
            case.observe("rescaled_points")
        if pos and neg:
            case.observe("two_sided_points")
    exact = sum((Fraction(v) for v in values), Fraction(0))
    size = sum((abs(Fraction(v)) for v in values), Fraction(0))
    if size < 2**1023:
        case.check(abs(Fraction(p.sum) - exact) <= size * (len(values) + 1) * Fraction(1, 2**52), "sum", f"{what}: sum {p.sum} want {float(exact)}")
    case.check(p.min == min(values) and p.max == max(values), "minmax", f"{what}: [{p.min}, {p.max}] want [{min(values)}, {max(values)}]")


def value(rng, mode):
    r = rng.random()
    if r < 0.08:
        return rng.choice([0, 0.0, -0.0])
    if mode == "wide":
        return rng.choice([10.0 ** rng.randrange(-300, 300), 2.0 ** rng.randrange(-1022, 1024), 1.7976931348623157e308, MIN, 5e-324, 1e-310, rng.random() * 10.0 ** rng.randrange(-20, 20), 2 ** rng.randrange(0, 1000)])
    if mode == "pow2":
        b = 2.0 ** rng.randrange(-6, 7)
        return rng.choice([b, math.nextafter(b, math.inf), math.nextafter(b, 0), int(b) or 1])
    if mode == "narrow":
        return 1.0 + rng.random() * 1e-3
    if mode == "one":
        return 3.0
    if mode == "edge":
        s = rng.randrange(0, 8)
        b = 2.0 ** (rng.randrange(-200, 200) / (1 << s))
        return rng.choice([b, math.nextafter(b, math.inf), math.nextafter(b, 0)])
    return rng.choice([rng.randrange(1, 1000), rng.random() * 100, rng.lognormvariate(0, 3)])


def histories(case):
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T
    from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View

    rng = case.rng
    quiet.silence()
    R = mm.reader_class()
    readers, temps = [], []
    for _ in range(rng.choice([1, 1, 2])):
        t, names = mm.temporality(rng)
        readers.append(R(preferred_temporality=t))
        temps.append(names)
    views, insts = [], []
    specs = []
    for n in range(rng.choice([1, 1, 2])):
        size = rng.choice([2, 3, 4, 5, 7, 8, 16, 20, 160, 160, 161])
        scale = rng.choice([20, 20, 20, 10, 5, 3, 1, 0, -1, -4, -9])
        views.append(View(instrument_name=f"h{n}", aggregation=ExponentialBucketHistogramAggregation(max_size=size, max_scale=scale)))
        specs.append((f"h{n}", rng.choice(["Histogram", "UpDownCounter", "UpDownCounter", "Counter", "Gauge"]), size, scale))
    prov = mm.provider(readers, views)
    m = prov.get_meter("m")
    for name, kind, size, scale in specs:
        h = {"Histogram": m.create_histogram, "Counter": m.create_counter, "UpDownCounter": m.create_up_down_counter, "Gauge": m.create_gauge}[kind](name)
        insts.append((name, kind, size, scale, h.record if kind == "Histogram" else h.set if kind == "Gauge" else h.add))
    mode = rng.choice(["wide", "pow2", "narrow", "one", "edge", "mixed", "mixed"])
    sign = rng.choice([0.0, 0.3, 0.5, 1.0])
    data = [dict() for _ in readers]
    times = [dict() for _ in readers]
    shape = []
    pcollect = rng.choice([0.05, 0.2, 0.4])
    steps = rng.randrange(3, 50)
    for step in range(steps + len(readers)):
        if step < steps and rng.random() > pcollect:
            name, kind, size, scale, rec = rng.choice(insts)
            if rng.random() < 0.03:
                mode = rng.choice(["wide", "pow2", "narrow", "one", "edge", "mixed"])
            if rng.random() < 0.05:
                sign = rng.choice([0.0, 0.5, 1.0])
            v = value(rng, mode)
            if rng.random() < sign and kind in ("UpDownCounter", "Gauge"):
                v = -v
            a = rng.choice([None, None, {"a": 1}])
            rec(v, a)
            shape.append((name, v))
            case.observe("records")
            if v < 0:
                case.observe("negative_values")
            if v == 0:
                case.observe("zero_values")
            elif abs(v) < MIN:
                case.observe("subnormal_values")
            elif mode in ("pow2", "edge"):
                case.observe("boundary_values")
            for d in data:
                row = d.setdefault((name, mm.key(a)), [[], []])
                row[0].append(v)
                row[1].append(v)
            continue
        i = rng.randrange(len(readers)) if step < steps else step - steps
        shape.append(i)
        b = time.time_ns()
        try:
            md = readers[i].take()
        except Exception as exc:  # pylint: disable=broad-except
            case.fail("collect-raised", f"collect raised {exc!r}; {shape}"[:900])
            return
        e = time.time_ns()
        got = mm.points(case, md)
        flat = {(n, a): (mt, p) for (_, n), (mt, ps) in got.items() for a, p in ps.items()}
        want = {}
        for (n, a), row in data[i].items():
            spec = next(x for x in insts if x[0] == n)
            if not temps[i][spec[1]]:
                want[(n, a)] = row[0]
            elif row[1]:
                want[(n, a)] = row[1]
            if row[1] and not any(row[1]):
                case.observe("zero_only_intervals")
        case.check(set(flat) == set(want), "points", f"missing {sorted(map(str, set(want) - set(flat)))[:3]} extra {sorted(map(str, set(flat) - set(want)))[:3]}")
        for k, (mt, p) in flat.items():
            spec = next(x for x in insts if x[0] == k[0])
            delta = temps[i][spec[1]]
            case.observe("delta_points" if delta else "cumulative_points")
            check_point(case, p, want[k], data[i][k][0], spec[2], spec[3], f"reader {i} {k[0]} {'delta' if delta else 'cumulative'} max_size {spec[2]} max_scale {spec[3]}")
            case.check(mt.data.aggregation_temporality == (T.DELTA if delta else T.CUMULATIVE), "temporality", f"{k}")
            case.check(b <= p.time_unix_nano <= e and p.start_time_unix_nano <= p.time_unix_nano, "time", f"{k}: [{p.start_time_unix_nano}, {p.time_unix_nano}]")
            last = times[i].get(k)
            if last:
                case.check(p.start_time_unix_nano >= last[1] if delta else p.start_time_unix_nano == last[0], "start", f"{k}: start {p.start_time_unix_nano} after {last}")
            times[i][k] = (p.start_time_unix_nano, p.time_unix_nano)
        for row in data[i].values():
            row[1] = []
    case.sig(shape)
    prov.shutdown()


def concurrent(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=400_000)
    box = {}
    scale = rng.choice([0, 0, 1, 2])

    def main():
        import threading
        from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View

        R = mm.reader_class()
        readers, temps = [], []
        for _ in range(rng.choice([1, 1, 2])):
            t, names = mm.temporality(rng)
            readers.append(R(preferred_temporality=t))
            temps.append(names["UpDownCounter"])
        prov = mm.provider(readers, [View(instrument_name="h", aggregation=ExponentialBucketHistogramAggregation(max_size=64, max_scale=scale))])
        h = prov.get_meter("m").create_up_down_counter("h")
        clock, bit = itertools.count(), itertools.count()
        rows, cols = {}, []
        plans = [[rng.choice([1, 1, -1]) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2, 3]))]
        cplans = [[rng.randrange(len(readers)) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.4:
            rows[1] = [1, next(clock), next(clock)]
            next(bit)
            h.add(1)

        def recorder(plan):
            for sg in plan:
                v = sg * (1 << next(bit))
                row = rows[v] = [v, next(clock), None]
                h.add(v)
                row[2] = next(clock)
                case.observe("concurrent_records")

        def collect(i):
            b = next(clock)
            got = mm.points(case, readers[i].take())
            e = next(clock)
            cols.append((i, b, e, [p for _, ps in got.values() for p in ps.values()]))
            case.observe("concurrent_collections")

        ts = [threading.Thread(target=recorder, args=(p,)) for p in plans]
        ts += [threading.Thread(target=lambda p=p: [collect(i) for i in p]) for p in cplans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(len(readers)):
            collect(i)
        box.update(rows=rows, cols=cols, temps=temps, n=len(readers))

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    rows, cols, temps = box["rows"], box["cols"], box["temps"]

    def decode(p):
        out = set()
        for b, sg in ((p.positive, 1), (p.negative, -1)):
            for j, c in enumerate(b.bucket_counts):
                if c:
                    i = b.offset + j + 1
                    case.check(c == 1 and i % (1 << p.scale) == 0, "bucket", f"bucket {i - 1} holds {c} at scale {p.scale}")
                    out.add(sg * (1 << (i >> p.scale)))
        return out

    for i in range(box["n"]):
        mine = sorted((c for c in cols if c[0] == i and c[3]), key=lambda c: c[3][0].time_unix_nano)
        seen, prev = set(), set()
        every = [decode(c[3][0]) for c in mine]
        for c, inside in zip(mine, every):
            p = c[3][0]
            what = f"reader {i}"
            case.check(inside <= set(rows), "bucket", f"{what}: {sorted(inside)} of {sorted(rows)}")
            case.check(p.count == len(inside) and p.sum == sum(inside) and p.zero_count == 0, "torn", f"{what}: count {p.count} sum {p.sum} zero {p.zero_count} values {sorted(inside)}")
            if inside:
                case.check(p.min == min(inside) and p.max == max(inside), "torn", f"{what}: min {p.min} max {p.max} values {sorted(inside)}")
            case.check(not any(rows[v][1] > c[2] for v in inside), "future", f"{what}: measurement that began after the collection")
            if temps[i]:
                case.check(inside, "empty", f"{what}: empty delta point")
                case.check(not inside & seen, "twice", f"{what}: measurement in two deltas")
                seen |= inside
                owned = set().union(*every)
            else:
                case.check(prev <= inside, "cumulative-lost", f"{what}: {sorted(prev)} then {sorted(inside)}")
                prev = owned = inside
            missing = [v for v in rows if rows[v][2] is not None and rows[v][2] < c[1] and v not in owned]
            case.check(not missing, "lost", f"{what}: completed measurements {missing} not collected")
        case.check((seen if temps[i] else prev) == set(rows), "lost", f"reader {i}: collected {sorted(seen or prev)} want {sorted(rows)}")
        case.observe("delta_points" if temps[i] else "cumulative_points", len(mine))


WORKLOADS = [
    Workload("histories", histories, quick=4000, thorough=80000),
    Workload("concurrent", concurrent, quick=600, thorough=15000),
]
