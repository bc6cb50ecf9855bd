import itertools

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P23"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "views", "matching_views", "non_matching_views", "default_streams", "dropped_streams", "several_views_on_one_instrument", "wildcard_views", "renamed", "described", "filtered_attributes", "merged_sets",
    "agg_Sum", "agg_LastValue", "agg_Explicit", "agg_Exponential", "agg_Drop", "agg_Default", "incompatible_views", "async_streams", "by_type", "by_unit", "by_meter", "by_version", "by_schema", "upper_case_names",
    "concurrent_first_measurements", "same_name_streams", "preferred_aggregations",
]
RULE = (
    "Random sets of views, meters and instruments of every kind with random measurements, compared with an independent selection and aggregation model "
    "per reader; first measurements of one instrument racing with each other and with collections; distinct = configuration."
)
ASSUMPTIONS = [
    "wildcards are * and ?; bracket patterns are not used",
    "exponential histograms on observable instruments are not used; views with raising reservoir factories neither",
]


def glob(pattern, text):
    """Independent * and ? matcher."""
    if not pattern:
        return not text
    if pattern[0] == "*":
        return glob(pattern[1:], text) or (bool(text) and glob(pattern, text[1:]))
    return bool(text) and (pattern[0] == "?" or pattern[0] == text[0]) and glob(pattern[1:], text[1:])


NAMES = ["req", "req.count", "req.time", "reqs", "a", "ab", "queue_len", "x/y", "r-1", "Req.Size", "CPU"]
PATTERNS = ["*", "req*", "req.*", "?", "a?", "*e*", "req", "req.count", "reqs", "ab", "queue_len", "x/y", "nothing", "R*", "Req.Size", "CPU", "r?q", "*.count", "cpu"]
UNITS = ["", "ms", "By", "1", "{req}"]
KINDS = ["Counter", "UpDownCounter", "Histogram", "Gauge", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge"]
METERS = [("m", None, None), ("m", "1.0", None), ("m", "1.0", "https://s/1"), ("n", "2", "https://s/2"), ("n", "2", "https://s/1")]
SETS = [{}, {"a": 1}, {"a": 2}, {"p": True, "q": 0, "r": "", "b": "x", "a": 3.5}, {"a": 1, "b": "x"}, {"b": "x"}, {"a": 2, "b": "y"}, {"c": True, "a": 1}, {"l": ["p", "q"]}]
BOUNDS = (0, 10, 100)


def types(kind):
    from opentelemetry import metrics as api
    from opentelemetry.sdk import metrics as sdk

    if kind == "Gauge":
        return [sdk._Gauge, api._Gauge if hasattr(api, "_Gauge") else sdk._Gauge]
    return [getattr(sdk, kind), getattr(api, kind)]


def aggregation(rng, agg):
    from opentelemetry.sdk.metrics import view as v

    return {
        "Default": lambda: rng.choice([None, v.DefaultAggregation()]),
        "Sum": v.SumAggregation,
        "LastValue": v.LastValueAggregation,
        "Explicit": lambda: v.ExplicitBucketHistogramAggregation(BOUNDS),
        "ExplicitDefault": v.ExplicitBucketHistogramAggregation,
        "Exponential": v.ExponentialBucketHistogramAggregation,
        "Drop": v.DropAggregation,
    }[agg]()


def preferences(rng):
    """What a reader prefers for each class of instruments."""
    from opentelemetry.sdk import metrics as sdk
    from opentelemetry.sdk.metrics import view as v

    out, objects = {}, {}
    for k in rng.sample(KINDS, rng.randint(1, len(KINDS))):
        # histograms of observable instruments report nothing (upstream TODO)
        out[k] = agg = rng.choice(["Sum", "LastValue", "Drop", "Default"] if k.startswith("Obs") else ["Sum", "LastValue", "Explicit", "ExplicitDefault", "Exponential", "Drop", "Default"])
        objects[sdk._Gauge if k == "Gauge" else getattr(sdk, k)] = aggregation(rng, agg) or v.DefaultAggregation()
    return out, objects


def random_view(rng, case):
    from opentelemetry.metrics import Instrument
    from opentelemetry.sdk.metrics import view as v

    sel, kw = {}, {}
    while not sel:
        if rng.random() < 0.6:
            sel["name"] = kw["instrument_name"] = rng.choice(PATTERNS)
        if rng.random() < 0.25:
            k = rng.choice(KINDS + ["any"])
            sel["kind"] = k
            kw["instrument_type"] = Instrument if k == "any" else rng.choice(types(k))
            case.observe("by_type")
        if rng.random() < 0.15:
            sel["unit"] = kw["instrument_unit"] = rng.choice(UNITS + ["m*", "?"])
            case.observe("by_unit")
        if rng.random() < 0.2:
            sel["meter"] = kw["meter_name"] = rng.choice(["m", "n", "mm"])
            case.observe("by_meter")
        if rng.random() < 0.15:
            sel["version"] = kw["meter_version"] = rng.choice(["1.0", "2", "3"])
            case.observe("by_version")
        if rng.random() < 0.15:
            sel["schema"] = kw["meter_schema_url"] = rng.choice(["https://s/1", "https://s/2"])
            case.observe("by_schema")
    if "*" in sel.get("name", "") or "?" in sel.get("name", ""):
        case.observe("wildcard_views")
    elif rng.random() < 0.4:
        kw["name"] = rng.choice(["renamed", "other", "x", "Renamed", "Total.Size"])
    if rng.random() < 0.4:
        kw["description"] = rng.choice(["viewed", "d2", ""])
    if rng.random() < 0.5:
        kw["attribute_keys"] = rng.choice([set(), {"a"}, {"b"}, {"a", "b"}, {"zz"}, frozenset({"a", "l"}), {"a", "c"}, {"c"}])
    agg = rng.choice(["Default", "Default", "Default", "Sum", "LastValue", "Explicit", "ExplicitDefault", "Exponential", "Drop"])
    obj = aggregation(rng, agg)
    kw["aggregation"] = obj
    case.observe("views")
    return sel, kw, agg.replace("ExplicitDefault", "ExplicitDefault"), v.View(**kw)


def matches(sel, inst):
    kind, name, unit, meter = inst["kind"], inst["name"].lower(), inst["unit"], inst["meter"]
    if "name" in sel and not glob(sel["name"].lower(), name):
        return False
    if "kind" in sel and sel["kind"] not in ("any", kind):
        return False
    if "unit" in sel and not glob(sel["unit"], unit):
        return False
    if "meter" in sel and sel["meter"] != meter[0]:
        return False
    if "version" in sel and sel["version"] != meter[1]:
        return False
    if "schema" in sel and sel["schema"] != meter[2]:
        return False
    return True


DEFAULT_BOUNDS = (0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000)


class Stream:
    """Model of one stream for one reader."""

    def __init__(self, inst, kw, agg, delta, preferred):
        self.inst = inst
        self.name = kw.get("name") or inst["name"].lower()
        self.desc = kw.get("description") or inst["desc"]
        self.keys = kw.get("attribute_keys")
        kind = inst["kind"]
        if agg == "Default":
            agg = preferred.get(kind, "Default")
        if agg == "Default":
            agg = "LastValue" if kind.endswith("Gauge") else "ExplicitDefault" if kind == "Histogram" else "Sum"
        self.agg = agg
        self.sync = not kind.startswith("Obs")
        self.delta = delta
        self.rows = {}  # key -> [values ever, values since the last collection, previous async total]

    def add(self, value, attrs):
        a = dict(attrs or {})
        if self.keys is not None:
            a = {k: v for k, v in a.items() if k in self.keys}
        row = self.rows.setdefault(mm.key(a), [[], [], 0])
        row[0].append(value)
        row[1].append(value)

    def collect(self):
        out = {}
        for k, row in self.rows.items():
            ever, since, prev = row
            if self.agg == "LastValue":
                if since:
                    out[k] = since[-1]
            elif self.agg == "Sum":
                if self.sync:
                    if self.delta:
                        if since:
                            out[k] = sum(since)
                    else:
                        out[k] = sum(ever)
                elif since:
                    t = sum(since)
                    out[k] = t - prev if self.delta else t
                    row[2] = t
            elif self.agg != "Drop":
                vs = since if self.delta else ever
                if vs:
                    out[k] = tuple(vs)
            row[1] = []
        return out

    def data(self):
        return {"LastValue": "Gauge", "Sum": "Sum", "Exponential": "ExponentialHistogram"}.get(self.agg, "Histogram")

    def bounds(self):
        if self.agg == "Explicit":
            return BOUNDS
        return tuple(self.inst["advisory"] or DEFAULT_BOUNDS)

    def canon(self, points):
        """Comparable form of what should be reported."""
        pts = {}
        for k, v in points.items():
            if self.data() == "Histogram":
                bs = self.bounds()
                counts = [0] * (len(bs) + 1)
                for x in v:
                    counts[next((i for i, b in enumerate(bs) if x <= b), len(bs))] += 1
                pts[k] = (len(v), sum(v), min(v), max(v), tuple(counts), tuple(map(float, bs)))
            elif self.data() == "ExponentialHistogram":
                pts[k] = (len(v), sum(v), min(v), max(v), v.count(0))
            else:
                pts[k] = v
        return (self.name, self.desc, self.inst["unit"], self.data(), tuple(sorted(pts.items())))


def canon_metric(case, m):
    pts = {}
    name = type(m.data).__name__
    for p in m.data.data_points:
        k = mm.key(p.attributes)
        case.check(k not in pts, "point-twice", f"{m.name} reports {p.attributes} twice")
        if name == "Histogram":
            pts[k] = (p.count, p.sum, p.min, p.max, tuple(p.bucket_counts), tuple(map(float, p.explicit_bounds)))
        elif name == "ExponentialHistogram":
            case.check(p.zero_count + sum(p.positive.bucket_counts) + sum(p.negative.bucket_counts) == p.count, "exponential-count", f"{p}")
            pts[k] = (p.count, p.sum, p.min, p.max, p.zero_count)
        else:
            pts[k] = p.value
    return (m.name, m.description, m.unit, name, tuple(sorted(pts.items())))


def configurations(case):
    from opentelemetry.metrics import Observation

    rng = case.rng
    quiet.silence()
    readers, temps, prefs = [], [], []
    R = mm.reader_class()
    for _ in range(rng.choice([1, 1, 2])):
        t, names = mm.temporality(rng)
        pref, objects = preferences(rng) if rng.random() < 0.4 else ({}, None)
        case.observe("preferred_aggregations", len(pref))
        readers.append(R(preferred_temporality=t, preferred_aggregation=objects))
        prefs.append(pref)
        temps.append(names)
    specs = [random_view(rng, case) for _ in range(rng.randrange(0, 6))]
    prov = mm.provider(readers, [x[3] for x in specs])
    insts = []
    observing = {}

    def cb(n):
        return lambda o: [Observation(v, a) for v, a in observing.get(n, [])]

    streams = [[] for _ in readers]
    taken = set()
    for n in range(rng.randrange(1, 7)):
        meter = rng.choice(METERS)
        name = rng.choice(NAMES)
        if (meter, name.lower()) in taken:
            continue
        taken.add((meter, name.lower()))
        inst = {
            "kind": rng.choice(KINDS), "name": name, "unit": rng.choice(UNITS), "desc": rng.choice(["", "instrument"]), "meter": meter, "n": n, "advisory": None,
        }
        if name != name.lower():
            case.observe("upper_case_names")
        m = prov.get_meter(meter[0], version=meter[1], schema_url=meter[2])
        args = dict(unit=inst["unit"], description=inst["desc"])
        k = inst["kind"]
        if k == "Counter":
            inst["h"] = m.create_counter(name, **args).add
        elif k == "UpDownCounter":
            inst["h"] = m.create_up_down_counter(name, **args).add
        elif k == "Histogram":
            if rng.random() < 0.4:
                inst["advisory"] = [1, 50]
            inst["h"] = m.create_histogram(name, explicit_bucket_boundaries_advisory=inst["advisory"], **args).record
        elif k == "Gauge":
            inst["h"] = m.create_gauge(name, **args).set
        elif k == "ObservableCounter":
            m.create_observable_counter(name, [cb(n)], **args)
        elif k == "ObservableUpDownCounter":
            m.create_observable_up_down_counter(name, [cb(n)], **args)
        else:
            m.create_observable_gauge(name, [cb(n)], **args)
        insts.append(inst)
        for i in range(len(readers)):
            mine = []
            for sel, kw, agg, _ in specs:
                if not matches(sel, inst):
                    case.observe("non_matching_views")
                    continue
                case.observe("matching_views")
                if k.startswith("Obs") and agg in ("Explicit", "ExplicitDefault"):
                    case.observe("incompatible_views")
                    continue
                if k.startswith("Obs") and agg == "Exponential":
                    inst["skip"] = True
                mine.append(Stream(inst, kw, agg, temps[i][k], prefs[i]))
                case.observe("agg_" + agg.replace("ExplicitDefault", "Explicit"))
                if kw.get("name"):
                    case.observe("renamed")
                if kw.get("description"):
                    case.observe("described")
                if agg == "Drop":
                    case.observe("dropped_streams")
            if len(mine) > 1:
                case.observe("several_views_on_one_instrument")
            if not mine:
                mine = [Stream(inst, {}, "Default", temps[i][k], prefs[i])]
                case.observe("default_streams")
            streams[i].extend(mine)
    shape = [(sorted(map(str, sel.items())), sorted(map(str, ((k, v) for k, v in kw.items() if k != "aggregation"))), agg) for sel, kw, agg, _ in specs]
    counter = itertools.count(1)

    def value(k):
        v = rng.choice([next(counter), next(counter) * 3, next(counter) / 4, 0])
        return -v if k in ("UpDownCounter", "ObservableUpDownCounter", "Gauge", "ObservableGauge") and rng.random() < 0.3 else v

    for _ in range(rng.randrange(1, 5)):
        for inst in insts:
            if inst["kind"].startswith("Obs"):
                continue
            for _ in range(rng.randrange(0, 6)):
                v = value(inst["kind"])
                # exponential and explicit histograms take non-negative values only here, gauges and sums anything
                a = rng.choice(SETS)
                inst["h"](v, dict(a) if a or rng.random() < 0.5 else None)
                for i in range(len(readers)):
                    for st in streams[i]:
                        if st.inst is inst:
                            st.add(v, a)
        for i, r in enumerate(readers):
            observing.clear()
            for inst in insts:
                if inst["kind"].startswith("Obs"):
                    observing[inst["n"]] = [(value(inst["kind"]), dict(a)) for a in rng.sample(SETS, rng.randrange(0, 5))]
                    for st in streams[i]:
                        if st.inst is inst:
                            for v, a in observing[inst["n"]]:
                                st.add(v, a)
                            case.observe("async_streams")
            md = r.take()
            got, want = {}, {}
            seen = set()
            for rm in md.resource_metrics if md else []:
                for sm in rm.scope_metrics:
                    sc = (sm.scope.name, sm.scope.version, sm.scope.schema_url or None)
                    case.check(sc not in seen, "scope-twice", f"{sc} appears twice")
                    seen.add(sc)
                    got[sc] = sorted((canon_metric(case, m) for m in sm.metrics), key=repr)
            skipped = {inst["meter"] for inst in insts if inst.get("skip")}
            for st in streams[i]:
                pts = st.collect()
                if st.keys is not None:
                    case.observe("filtered_attributes")
                if any(len(v[0]) > 1 for v in st.rows.values()) and st.keys is not None:
                    case.observe("merged_sets")
                if not pts:
                    continue
                want.setdefault(st.inst["meter"], []).append(st.canon(pts))
            for sc in set(got) | set(want):
                if sc in skipped:
                    continue
                w = sorted(want.get(sc, []), key=repr)
                if len({x[0] for x in w}) < len(w):
                    case.observe("same_name_streams")
                g = got.get(sc, [])
                if w != g:
                    case.fail("streams", f"reader {i} scope {sc}: missing {[x for x in w if x not in g][:2]} extra {[x for x in g if x not in w][:2]}"[:900], views=shape, insts=[{k: str(v) for k, v in x.items() if k != "h"} for x in insts])
    case.sig(shape, [(x["kind"], x["name"], x["unit"], x["meter"]) for x in insts])
    prov.shutdown()


def concurrent(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=300_000)
    box = {}

    def main():
        import threading
        from opentelemetry.sdk.metrics import view as v

        t, names = mm.temporality(rng)
        reader = mm.reader_class()(preferred_temporality=t)
        views = [v.View(instrument_name="c", name="one", attribute_keys=set())]
        if rng.random() < 0.6:
            views.append(v.View(instrument_name="*", attribute_keys={"a"}))
        if rng.random() < 0.3:
            views.append(v.View(instrument_name="c", aggregation=v.DropAggregation(), name="dropped"))
        prov = mm.provider([reader], views)
        m = prov.get_meter("m")
        c, d = m.create_counter("c"), m.create_counter("d")
        bit = itertools.count()
        total = {"c": 0, "d": 0}
        plans = [[rng.choice("ccd") for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 3]))]
        cols = []

        def work(plan):
            for w in plan:
                x = 1 << next(bit)
                total[w] += x
                (c if w == "c" else d).add(x, {"a": 1, "b": x})
                case.observe("concurrent_first_measurements")

        def collect():
            cols.append(mm.points(case, reader.take()))

        ts = [threading.Thread(target=work, args=(p,)) for p in plans]
        if rng.random() < 0.6:
            ts.append(threading.Thread(target=collect))
        for t_ in ts:
            t_.start()
        for t_ in ts:
            t_.join()
        collect()
        box.update(cols=cols, total=total, delta=names["Counter"])

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if not box:
        return
    sums = {}
    for got in box["cols"]:
        for (_, name), (mt, ps) in got.items():
            x = sum(p.value for p in ps.values())
            sums[name] = sums.get(name, 0) + x if box["delta"] else x
    case.eq(sums.get("one", 0), box["total"]["c"], "stream-total", "stream 'one' of c")
    case.eq(sums.get("d", 0), box["total"]["d"], "stream-total", "stream of d")
    if "c" in sums:
        case.eq(sums["c"], box["total"]["c"], "stream-total", "wildcard stream of c")
    case.check("dropped" not in sums, "dropped", "a dropped stream was reported")


WORKLOADS = [
    Workload("configurations", configurations, 3200, 40_000),
    Workload("concurrent", concurrent, 1200, 12_000),
]
