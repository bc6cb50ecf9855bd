import itertools
import time

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P19"
VENV = "pb5"
SCHED = True
REQUIRED = ["adds", "collections", "delta_points", "cumulative_points", "negative_adds", "reused_dicts", "list_attributes", "concurrent_adds", "concurrent_collections", "racing_adds", "empty_collections", "many_streams"]
RULE = (
    "Random add/collect histories over several counters, meters, attribute sets and readers of mixed temporality compared with exact totals; "
    "concurrent adders and collectors under the schedule fuzzer with unique powers of two, so that each collected value names the measurements in it; "
    "distinct = history or program plus context switches."
)
ASSUMPTIONS = [
    "attribute values that Python compares equal (1, 1.0, True) count as one attribute set",
    "amounts are finite; the values used add exactly",
    "while the first measurement of an attribute set races with a collection, its start time may be that of the race",
]


def setup(case, delta=None):
    rng = case.rng
    readers, temps = [], []
    R = mm.reader_class()
    for _ in range(rng.choice([1, 1, 2, 3])):
        t, names = mm.temporality(rng, delta)
        readers.append(R(preferred_temporality=t))
        temps.append(names)
    return mm.provider(readers), readers, temps


def histories(case):
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T

    rng = case.rng
    quiet.silence()
    prov, readers, temps = setup(case)
    insts = []  # (scope, name, kind, handle)

    def create():
        scope = f"m{rng.randrange(2)}"
        kind = rng.choice(["Counter", "UpDownCounter"])
        name = f"i{len(insts)}" if rng.random() < 0.8 else "shared"
        if any(i[0] == scope and i[1] == name for i in insts):
            return
        meter = prov.get_meter(scope)
        h = meter.create_counter(name) if kind == "Counter" else meter.create_up_down_counter(name)
        insts.append((scope, name, kind, h))

    create()
    total = {}  # (scope, name, key) -> exact total
    shown = {}
    state = [dict() for _ in readers]  # stream -> dict(taken, start, last time bounds)
    seen_window = [None] * len(readers)
    reused = {"a": 1}
    shape = []
    for _ in range(rng.randrange(3, 22)):
        r = rng.random()
        if r < 0.08:
            create()
        if r < 0.6:
            scope, name, kind, h = rng.choice(insts)
            a = mm.attrs(rng)
            if rng.random() < 0.25:
                a = reused
                a["a"] = rng.randrange(3)
                if rng.random() < 0.3:
                    a["z"] = "w"
                else:
                    a.pop("z", None)
                case.observe("reused_dicts")
            if a and any(isinstance(v, list) for v in a.values()):
                case.observe("list_attributes")
            v = rng.choice([0, 1, 2, 7, 10**14, 0.5, 0.125, 3.25, True, rng.randrange(1000), -rng.randrange(1, 50), -0.25])
            k = (scope, name, mm.key(a))
            snap = dict(a) if a is not None else None
            before = time.time_ns()
            h.add(v, a) if rng.random() < 0.7 or a is not None else h.add(v)
            case.check(a == snap, "caller-changed", "add() changed the caller's attributes")
            case.observe("adds")
            shape.append(("a", name, str(k[2]), v))
            if kind == "Counter" and v < 0:
                case.observe("negative_adds")
                continue
            if k not in total:
                total[k] = 0
                shown[k] = (before, time.time_ns(), a if a is None else dict(a))
            total[k] += v
            for st in state:
                st.setdefault(k, {"taken": 0, "dirty": False, "last": None, "start": None})["dirty"] = True
        else:
            i = rng.randrange(len(readers))
            shape.append(("c", i))
            b = time.time_ns()
            md = readers[i].take()
            e = time.time_ns()
            case.observe("collections")
            got = mm.points(case, md)
            want = {}
            for k, st in state[i].items():
                kind = next(x[2] for x in insts if x[:2] == k[:2])
                if temps[i][kind]:
                    if st["dirty"]:
                        want[k] = total[k] - st["taken"]
                else:
                    want[k] = total[k]
            if not want:
                case.check(md is None, "empty-data", f"nothing recorded but collected {md}")
                case.observe("empty_collections")
            flat = {(s, n, a): (m, p) for (s, n), (m, ps) in got.items() for a, p in ps.items()}
            case.check(set(flat) == set(want), "points", f"reader {i}: missing {sorted(map(str, set(want) - set(flat)))[:3]} extra {sorted(map(str, set(flat) - set(want)))[:3]}")
            for k, (m, p) in flat.items():
                kind = next(x[2] for x in insts if x[:2] == k[:2])
                delta = temps[i][kind]
                st = state[i][k]
                case.check(p.value == want[k], "value", f"reader {i} {k}: {p.value} want {want[k]}")
                case.check(m.data.is_monotonic is (kind == "Counter"), "monotonic", f"{k}: is_monotonic {m.data.is_monotonic}")
                case.check(m.data.aggregation_temporality == (T.DELTA if delta else T.CUMULATIVE), "temporality", f"{k}: {m.data.aggregation_temporality}")
                lo, hi, _ = shown[k]
                case.check(b <= p.time_unix_nano <= e, "time", f"{k}: time {p.time_unix_nano} outside the collection [{b}, {e}]")
                case.check(p.start_time_unix_nano <= p.time_unix_nano, "interval", f"{k}: starts after it ends")
                if delta:
                    case.observe("delta_points")
                    if st["last"] is None:
                        if st.get("window") is None:
                            case.check(lo <= p.start_time_unix_nano <= hi, "start", f"{k}: first start {p.start_time_unix_nano} want [{lo}, {hi}]")
                    w = st.get("window")
                    if w:
                        case.check(w[0] <= p.start_time_unix_nano <= w[1] and (st.get("wtime") is None or p.start_time_unix_nano == st["wtime"]),
                                   "contiguous", f"{k}: starts at {p.start_time_unix_nano}, previous collection {w} {st.get('wtime')}")
                    if st["last"] is not None:
                        case.check(p.start_time_unix_nano >= st["last"], "overlap", f"{k}: interval overlaps the previous one")
                    st["last"] = p.time_unix_nano
                else:
                    case.observe("cumulative_points")
                    if st["start"] is None:
                        case.check(lo <= p.start_time_unix_nano <= hi, "start", f"{k}: start {p.start_time_unix_nano} want [{lo}, {hi}]")
                        st["start"] = p.start_time_unix_nano
                    case.check(p.start_time_unix_nano == st["start"], "start-moved", f"{k}: cumulative start moved")
            for k, st in state[i].items():
                st["taken"], st["dirty"] = total[k], False
                st["window"] = (b, e)
                st["wtime"] = flat[k][1].time_unix_nano if k in flat else None
    case.sig(shape)
    prov.shutdown()


def concurrent(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=300_000)
    box = {}

    def main():
        import threading

        prov, readers, temps = setup(case)
        box.update(prov=prov, readers=readers, temps=temps)
        m = prov.get_meter("m")
        insts = {"Counter": m.create_counter("c"), "UpDownCounter": m.create_up_down_counter("u")}
        clock = itertools.count()
        bit = itertools.count()
        adds = {}  # (kind, key) -> list of [value, begin, end]
        cols = []  # (reader, begin, end, {(kind,key): point})
        keys = [{}, {"a": 1}, {"a": 2, "b": "x"}][: rng.choice([1, 2, 3])]
        if rng.random() < 0.4:  # some streams exist before
            for k in insts:
                for a in keys:
                    v = 1 << next(bit)
                    adds.setdefault((k, mm.key(a)), []).append([v, next(clock), next(clock)])
                    insts[k].add(v, a)
        plans = [[(rng.choice(list(insts)), rng.choice(keys)) for _ in range(rng.randrange(1, 5))] for _ in range(rng.choice([1, 2, 3]))]
        cplans = [[rng.randrange(len(readers)) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2]))]

        def adder(plan):
            for kind, a in plan:
                row = [1 << next(bit), next(clock), None]
                adds.setdefault((kind, mm.key(a)), []).append(row)
                insts[kind].add(row[0], dict(a))
                row[2] = next(clock)
                case.observe("concurrent_adds")

        def collect(i):
            b = next(clock)
            md = readers[i].take()
            e = next(clock)
            got = mm.points(case, md)
            cols.append((i, b, e, {({"c": "Counter", "u": "UpDownCounter"}[n], a): p for (_, n), (_, ps) in got.items() for a, p in ps.items()}))
            case.observe("concurrent_collections")

        def collector(plan):
            for i in plan:
                collect(i)

        ts = [threading.Thread(target=adder, args=(p,)) for p in plans] + [threading.Thread(target=collector, args=(p,)) for p in cplans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(len(readers)):
            collect(i)
        box.update(adds=adds, cols=cols)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    adds, cols, temps = box["adds"], box["cols"], box["temps"]
    case.sig(s.signature())
    for i in range(len(box["readers"])):
        mine = [c for c in cols if c[0] == i]
        for key, rows in adds.items():
            by = {r[0]: r for r in rows}
            delta = temps[i][key[0]]
            seen = 0
            pts = sorted(((c[3][key].time_unix_nano, c) for c in mine if key in c[3]), key=lambda x: x[0])
            prev_end, start = None, None
            racing = any(r[1] < c[2] and (r[2] is None or r[2] > c[1]) for r in rows for c in mine)
            if racing:
                case.observe("racing_adds")
            prev_value = 0
            for n, (t, c) in enumerate(pts):
                p = c[3][key]
                inside = {v for v in by if p.value & v}
                case.check(isinstance(p.value, int) and sum(inside) == p.value, "value", f"{key} reader {i}: {p.value} is no sum of distinct measurements {sorted(by)}")
                late = [v for v in inside if by[v][1] > c[2]]
                case.check(not late, "future", f"{key}: collection contains measurements that began after it")
                if delta:
                    case.check(not p.value & seen, "twice", f"{key} reader {i}: measurement in two deltas")
                    seen |= p.value
                    if prev_end is not None:
                        case.check(p.start_time_unix_nano >= prev_end, "overlap", f"{key} reader {i}: delta intervals overlap")
                        case.check(p.start_time_unix_nano <= t, "interval", f"{key} reader {i}: starts after it ends")
                    prev_end = t
                    owned = seen
                else:
                    case.check(p.value & prev_value == prev_value, "cumulative-lost", f"{key} reader {i}: cumulative {prev_value} then {p.value}")
                    prev_value = p.value
                    start = p.start_time_unix_nano if start is None else start
                    case.check(p.start_time_unix_nano == start, "start-moved", f"{key}: cumulative start moved")
                    owned = p.value
                missing = [v for v in by if by[v][2] is not None and by[v][2] < c[1] and not owned & v]
                if delta:
                    # another collection running at the same time may own it
                    missing = [v for v in missing if not any(key in o[3] and o[3][key].value & v for o in mine)]
                case.check(not missing, "lost", f"{key} reader {i}: completed measurements {missing} not collected")
            if delta:
                case.check(seen == sum(by), "lost", f"{key} reader {i}: deltas add up to {seen} want {sum(by)}")
                case.observe("delta_points", len(pts))
            else:
                case.check(prev_value == sum(by), "lost", f"{key} reader {i}: final cumulative {prev_value} want {sum(by)}")
                case.observe("cumulative_points", len(pts))
            extra = {k for c in mine for k in c[3]} - set(adds)
            case.check(not extra, "extra", f"unknown streams {extra}")


def many(case):
    """Thousands of attribute sets, or hundreds of instruments and meters: nothing is forgotten."""
    rng = case.rng
    quiet.silence()
    prov, readers, temps = setup(case)
    total = {}
    since = [dict() for _ in readers]
    if rng.random() < 0.6:
        handles = [("m", "c", prov.get_meter("m").create_counter("c"))]
        sets = [{"n": n, "s": f"v{n % 7}"} for n in range(rng.choice([1999, 2000, 2001, 2500, 5000]))]
    else:
        handles = [(f"m{j % 60}", f"c{j}", prov.get_meter(f"m{j % 60}").create_counter(f"c{j}")) for j in range(400)]
        sets = [{}, {"a": 1}, {"a": 2}]
    for _ in range(rng.choice([1, 2])):
        order = [(h, a) for h in handles for a in sets if rng.random() < 0.9]
        rng.shuffle(order)
        for (scope, name, h), a in order:
            v = rng.randrange(1, 100)
            h.add(v, a)
            k = (scope, name, mm.key(a))
            total[k] = total.get(k, 0) + v
            for d in since:
                d[k] = d.get(k, 0) + v
            case.observe("adds")
        for i, r in enumerate(readers):
            if rng.random() < 0.4:
                continue
            got = {(s, n, a): p.value for (s, n), (_, ps) in mm.points(case, r.take()).items() for a, p in ps.items()}
            want = since[i] if temps[i]["Counter"] else total
            bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
            case.check(not bad, "many", f"reader {i}: {len(bad)} of {len(want)} streams wrong, e.g. {[(k, got.get(k), want.get(k)) for k in bad[:3]]}")
            since[i] = {}
            case.observe("collections")
            case.observe("many_streams", len(want))
    case.sig(len(handles), len(sets), sum(total.values()))
    prov.shutdown()


WORKLOADS = [
    Workload("many", many, quick=24, thorough=300),
    Workload("histories", histories, quick=2500, thorough=60000),
    Workload("concurrent", concurrent, quick=1200, thorough=30000),
]
