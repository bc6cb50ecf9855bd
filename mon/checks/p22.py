import itertools
import time

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P22"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "gauge_sets", "gauge_points", "quiet_gauges", "callback_calls", "observations", "raising_callbacks", "partial_callbacks", "garbage_callbacks", "generator_objects", "delta_points", "cumulative_points",
    "missing_sets", "reappearing_sets", "timed_out_collections", "failing_instruments_beside_good", "concurrent_sets", "concurrent_collections", "concurrent_observations",
]
RULE = (
    "Random histories of gauge sets and collections by one to three readers over instruments whose callbacks return, yield, raise, return garbage or stall "
    "the collection past its deadline, judged by a model that knows what every callback invocation produced; concurrent setters and collectors under the "
    "schedule fuzzer with unique values; distinct = history or program plus context switches."
)
ASSUMPTIONS = [
    "callbacks of one instrument observe disjoint attribute sets",
    "a gauge reports only sets made since the previous collection of the reader, for both temporalities",
]


class Weird(Exception):
    def __str__(self):
        raise RuntimeError("no text")

    __repr__ = __str__


SETS = [{}, {"a": 1}, {"a": 2}, {"p": True, "q": 0, "r": "", "b": "x", "a": 3.5}, {"b": "x"}, {"l": ["p"]}, {"a": 1, "b": "x"}, None]


def histories(case):
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=2_000_000)
    box = {}

    def main():
        readers, temps = [], []
        R = mm.reader_class()
        for _ in range(rng.choice([1, 1, 2, 3])):
            t, names = mm.temporality(rng)
            readers.append(R(preferred_temporality=t))
            temps.append(names)
        prov = mm.provider(readers)
        meters = [prov.get_meter("m"), prov.get_meter("n")]
        calls = []  # (instrument, callback) per invocation in the current collection
        produced = {}  # (scope, name) -> {key: value} in the current collection
        state = {"stall": None, "deadline": None}
        shape = []
        insts = []  # (scope, name, kind)
        ncb = {}

        def value(last):
            r = rng.random()
            if r < 0.4:
                return last + rng.randrange(0, 9)
            if r < 0.5:
                return last + 0.5
            if r < 0.6:
                return 0
            if r < 0.7:
                return 10**25
            if r < 0.85:
                return -rng.randrange(1, 100)
            return rng.randrange(1, 10**6) / 8

        def callback(sc, name, idx, kind, mine):
            last = {}

            def produce(options):
                """[(observation or exception)] of this invocation"""
                case.observe("callback_calls")
                calls.append((sc, name, idx))
                case.check(options.timeout_millis > 0 and options.timeout_millis <= 10_000, "options", f"callback timeout {options.timeout_millis}")
                if state["stall"] == (sc, name, idx):
                    time.sleep(60)
                out = []
                for a in mine:
                    if rng.random() < 0.75:
                        v = value(last.get(str(a), 0))
                        if kind == "ObservableCounter":
                            v = abs(v)
                        last[str(a)] = v
                        out.append((v, a))
                return out

            def note(v, a):
                produced.setdefault((sc, name), {})[mm.key(a)] = v
                case.observe("observations")

            mode = rng.choice(["list", "list", "tuple", "yield", "yield", "raise", "partial", "garbage", "genobj", "mixed"])

            def make(v, a):
                note(v, a)
                return Observation(v, a)

            def boom():
                case.observe("raising_callbacks")
                raise rng.choice([ValueError("boom"), Weird(), StopIteration(), RuntimeError("x"), OSError(5, "io"), TypeError(), Exception()])

            if mode in ("list", "tuple"):
                return mode, lambda o: (list if mode == "list" else tuple)([make(v, a) for v, a in produce(o)])
            if mode == "yield":

                def fn(o):
                    for v, a in produce(o):
                        yield make(v, a)

                return mode, fn
            if mode == "raise":

                def fn(o):
                    produce(o)
                    boom()

                return mode, fn
            if mode == "partial":

                def fn(o):
                    for v, a in produce(o):
                        yield make(v, a)
                        if rng.random() < 0.3:
                            case.observe("partial_callbacks")
                            raise ValueError("midway")

                return mode, fn
            if mode == "mixed":

                def fn(o):
                    items = produce(o)
                    if rng.random() < 0.4:
                        boom()
                    return [make(v, a) for v, a in items]

                return mode, fn
            if mode == "garbage":

                def fn(o):
                    produce(o)
                    case.observe("garbage_callbacks")
                    return rng.choice([None, 7, "xyz", [None], [object()], object()])

                return mode, fn

            def gen():
                case.observe("generator_objects")
                o = yield
                while True:
                    o = yield [make(v, a) for v, a in produce(o)]

            return mode, gen()

        bad_set = set()
        for n in range(rng.randrange(1, 6)):
            sc = rng.randrange(2)
            kind = rng.choice(["ObservableCounter", "ObservableUpDownCounter", "ObservableGauge", "Gauge"])
            name = f"i{n}"
            insts.append((f"{'mn'[sc]}", name, kind))
            if kind == "Gauge":
                ncb[("mn"[sc], name)] = meters[sc].create_gauge(name)
                continue
            sets = [a for a in SETS if a is not None or rng.random() < 0.5]
            if None in sets:
                sets.remove({})
            rng.shuffle(sets)
            cbs = []
            k = rng.choice([0, 1, 1, 2, 3])
            for idx in range(k):
                mode, cb = callback("mn"[sc], name, idx, kind, sets[idx::k][: rng.randrange(1, 4)])
                if mode in ("raise", "partial", "garbage", "mixed"):
                    bad_set.add(name)
                cbs.append(cb)
            ncb[("mn"[sc], name)] = k
            create = {"ObservableCounter": "create_observable_counter", "ObservableUpDownCounter": "create_observable_up_down_counter", "ObservableGauge": "create_observable_gauge"}[kind]
            getattr(meters[sc], create)(name, cbs if rng.random() < 0.5 else tuple(cbs))
        if bad_set and len(insts) > len(bad_set):
            case.observe("failing_instruments_beside_good")
        gauges = [(sc, n) for sc, n, k in insts if k == "Gauge"]
        pending = [dict() for _ in readers]  # (scope, name, key) -> last value set
        base = [dict() for _ in readers]  # reported cumulative value per async delta stream
        spans = [dict() for _ in readers]
        seen = [dict() for _ in readers]
        counter = itertools.count(1)
        all_cbs = sorted((sc, n, i) for sc, n, k in insts if k != "Gauge" for i in range(ncb[(sc, n)]))
        for _ in range(rng.randrange(3, 22)):
            if gauges and rng.random() < 0.5:
                sc, n = rng.choice(gauges)
                a = rng.choice(SETS)
                v = rng.choice([next(counter), -next(counter), next(counter) / 4, 0, 0.0])
                ncb[(sc, n)].set(v, *([a] if rng.random() < 0.8 or a else []))
                shape.append((n, str(a), v))
                case.observe("gauge_sets")
                for p in pending:
                    p[(sc, n, mm.key(a))] = v
                continue
            time.sleep(rng.random())
            i = rng.randrange(len(readers))
            calls.clear()
            produced.clear()
            state["stall"] = rng.choice(all_cbs) if all_cbs and rng.random() < 0.12 else None
            b = time.time_ns()
            shape.append((i, state["stall"] is not None))
            try:
                md = readers[i].take(timeout_millis=rng.choice([10_000, 5_000, 59_000]))
            except Exception as exc:
                case.check(state["stall"] is not None and "imeout" in type(exc).__name__, "collect-raised", f"collect raised {exc.__class__.__name__}")
                case.observe("timed_out_collections")
                case.check(len(calls) == len(set(calls)), "invoked-again", f"one collection invoked a callback twice: {calls}")
                continue
            e = time.time_ns()
            if state["stall"] is not None:
                case.observe("late_but_complete")
            case.check(sorted(calls) == all_cbs, "invocations", f"callbacks invoked {sorted(calls)} want each of {all_cbs} once")
            got = mm.points(case, md)
            flat = {(sc, n, a): (mt, p) for (sc, n), (mt, ps) in got.items() for a, p in ps.items()}
            want = {}
            for sc, n, kind in insts:
                delta = temps[i].get(kind)
                if kind == "Gauge":
                    mine = {k: v for k, v in pending[i].items() if k[:2] == (sc, n)}
                    want.update(mine)
                    if not mine:
                        case.observe("quiet_gauges")
                    continue
                for a, v in produced.get((sc, n), {}).items():
                    k = (sc, n, a)
                    if kind != "ObservableGauge" and delta:
                        want[k] = v - base[i].get(k, 0)
                        base[i][k] = v
                    else:
                        want[k] = v
            for k in seen[i]:
                if k not in want:
                    case.observe("missing_sets")
                    seen[i][k] = False
                elif not seen[i][k]:
                    case.observe("reappearing_sets")
                    seen[i][k] = True
            for k in want:
                seen[i].setdefault(k, True)
            pending[i].clear()
            case.check(
                set(flat) == set(want), "points", f"missing {sorted(map(str, set(want) - set(flat)))[:3]} extra {sorted(map(str, set(flat) - set(want)))[:3]}"
            )
            for k, (mt, p) in flat.items():
                kind = next(x[2] for x in insts if x[:2] == k[:2])
                case.check(p.value == want[k] and type(p.value) in (type(want[k]), float), "value", f"reader {i} {kind} {k}: {p.value!r} want {want[k]!r}")
                case.check(b <= p.time_unix_nano <= e, "time", f"{k}: {p.time_unix_nano} collected in [{b}, {e}]")
                name = type(mt.data).__name__
                if kind in ("Gauge", "ObservableGauge"):
                    case.check(name == "Gauge", "kind", f"{k}: {name}")
                    case.observe("gauge_points")
                    continue
                delta = temps[i][kind]
                case.observe("delta_points" if delta else "cumulative_points")
                case.check(name == "Sum" and mt.data.is_monotonic == (kind == "ObservableCounter"), "kind", f"{k}: {name}")
                case.check(mt.data.aggregation_temporality == (T.DELTA if delta else T.CUMULATIVE), "temporality", f"{k}")
                last = spans[i].get(k)
                st = p.start_time_unix_nano
                case.check(st <= p.time_unix_nano, "time", f"{k}: starts {st} after its end {p.time_unix_nano}")
                if last:
                    case.check(st >= last[1] if delta else st == last[0], "start", f"{k}: {'delta' if delta else 'cumulative'} start {st} after [{last[0]}, {last[1]}]")
                spans[i][k] = (st, p.time_unix_nano)
        box["shape"] = shape
        prov.shutdown()

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
    case.sig(box.get("shape"))


def concurrent(case):
    from opentelemetry.metrics import Observation

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=400_000)
    box = {}

    def main():
        import threading

        R = mm.reader_class()
        readers, temps = [], []
        for _ in range(rng.choice([1, 2])):
            t, names = mm.temporality(rng)
            readers.append(R(preferred_temporality=t))
            temps.append(names)
        prov = mm.provider(readers)
        m = prov.get_meter("m")
        clock = itertools.count()
        unique = itertools.count(1)
        local = threading.local()
        keys = [{}, {"a": 1}][: rng.choice([1, 2])]
        order = []

        def observe(which):
            def cb(o):
                got = []
                for a in keys:
                    v = next(unique) * 3
                    local.out.append((which, mm.key(a), v))
                    case.observe("concurrent_observations")
                    got.append(Observation(v, a))
                order.append((local.reader, which, [x.value for x in got]))
                if which == "bad":
                    raise ValueError
                return got

            return cb

        g = m.create_gauge("g")
        m.create_observable_counter("c", [observe("c")])
        m.create_observable_gauge("bad", [observe("bad")])
        m.create_observable_gauge("o", [observe("o")])
        sets, cols = {mm.key(a): [] for a in keys}, []

        def setter(plan):
            for a in plan:
                row = [next(unique), next(clock), None]
                sets[mm.key(a)].append(row)
                g.set(row[0], a)
                row[2] = next(clock)
                case.observe("concurrent_sets")

        def collect(i):
            local.out = []
            local.reader = i
            b = next(clock)
            got = mm.points(case, readers[i].take())
            e = next(clock)
            cols.append((i, b, e, {n: {a: p for a, p in ps.items()} for (_, n), (_, ps) in got.items()}, list(local.out)))
            case.observe("concurrent_collections")

        plans = [[rng.choice(keys) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2]))]
        cplans = [[rng.randrange(len(readers)) for _ in range(rng.randrange(1, 3))] for _ in range(rng.choice([1, 2]))]
        ts = [threading.Thread(target=setter, args=(p,)) for p in plans]
        ts += [threading.Thread(target=lambda p=p: [collect(i) for i in p]) for p in cplans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(len(readers)):
            collect(i)
        box.update(sets=sets, cols=cols, temps=temps, order=order, keys=keys, n=len(readers))

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if not box:
        return
    keys = [mm.key(a) for a in box["keys"]]
    for i in range(box["n"]):
        mine = [c for c in box["cols"] if c[0] == i]
        delta = box["temps"][i]["ObservableCounter"]
        # invocation order of this reader's callbacks fixes what every delta must be
        expected, last = {}, {}
        for r, which, vs in box["order"]:
            if r != i:
                continue
            for a, v in zip(keys, vs):
                expected[(which, a, v)] = v - last.get((which, a), 0) if which == "c" and delta else v
                last[(which, a)] = v
        reported = set()
        for _, b, e, got, out in mine:
            case.check(len(out) == 3 * len(keys), "invocations", f"reader {i}: one collection invoked callbacks for {out}")
            case.check("bad" not in got, "raised-reported", "a callback that raised before returning was reported")
            for which, a, v in out:
                if which == "bad":
                    continue
                p = got.get(which, {}).get(a)
                case.check(p is not None and p.value == expected[(which, a, v)], "mixed", f"reader {i} {which} {a}: {p and p.value} want {expected[(which, a, v)]} (observed {v})")
            for a, p in got.get("g", {}).items():
                rows = {r[0]: r for r in box["sets"][a]}
                row = rows.get(p.value)
                case.check(row is not None, "invented", f"gauge reports {p.value}, never set for {a}")
                case.check(row[1] < e, "future", f"gauge reports a value set after the collection")
                case.check((a, p.value) not in reported, "again", f"gauge reported {p.value} in two collections of reader {i}")
                reported.add((a, p.value))
                newer = [r for r in rows.values() if r[1] > row[2] and r[2] < b]
                case.check(not newer, "stale", f"gauge reports {p.value} although {[r[0] for r in newer]} was set later and before the collection")
        # a set completed before a collection began is reported by it unless overwritten or reported before
        for a in keys:
            for row in box["sets"][a]:
                if (a, row[0]) in reported:
                    continue
                over = [r for r in box["sets"][a] if r is not row and r[2] > row[1]]
                case.check(over, "lost", f"gauge value {row[0]} for {a} was never reported to reader {i} nor overwritten")


def handles(case):
    """Observation contexts and callbacks that use the API themselves."""
    from opentelemetry.metrics import Observation

    rng = case.rng
    quiet.silence()
    R = mm.reader_class()
    reader = R(preferred_temporality=mm.temporality(rng)[0])
    prov = mm.provider([reader])
    m = prov.get_meter("m")
    c = m.create_counter("c")
    g = m.create_gauge("g")
    n = {"calls": 0}

    def cb(options):
        n["calls"] += 1
        c.add(1, {"in": "callback"})
        g.set(n["calls"])
        return [Observation(n["calls"], {"i": i}) for i in range(3)]

    m.create_observable_gauge("o", callbacks=[cb, lambda o: 1 / 0, cb if rng.random() < 0.3 else (lambda o: [])])
    total = 0
    for r in range(1, rng.randrange(3, 6)):
        before = n["calls"]
        got = mm.points(case, reader.take())
        made = n["calls"] - before
        # what callbacks record themselves is collected now or with the next collection
        for (_, name), (mt, ps) in got.items():
            if name == "c":
                (p,) = ps.values()
                case.check(p.value <= n["calls"], "counter", f"{p.value} > {n['calls']}")
            if name == "g":
                (p,) = ps.values()
                case.check(p.value in range(before, n["calls"] + 1), "gauge", f"{p.value} not in {before}..{n['calls']}")
        case.check(("m", "o") in got and len(got[("m", "o")][1]) == 3, "observations", f"{got.keys()}")
        total += made
        case.observe("callbacks_using_api")
    case.sig(n["calls"])
    prov.shutdown()


WORKLOADS = [
    Workload("histories", histories, 2000, 20_000),
    Workload("concurrent", concurrent, 1200, 16_000),
    Workload("handles", handles, 24, 200),
]
