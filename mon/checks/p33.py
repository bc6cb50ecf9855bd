import json
import math
import re
import threading

from mon import gen, otlp, quiet, sched
from mon.core import Workload

PROPERTY = "P33"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "scrapes", "samples", "counter_samples", "updown_samples", "gauge_samples", "histogram_samples", "observable_samples", "label_values", "merged_labels", "units", "target_infos", "target_infos_off", "flushes_before_scrape", "repeated_scrapes", "help_texts",
    "unsupported_aggregations", "negative_bounds", "empty_scrapes", "names_told_apart_by_unit", "renamed", "label_sets_per_metric", "concurrent_scrapes", "concurrent_flushes", "concurrent_records", "gauges_kept_by_flush",
]
RULE = (
    "Generated instruments, units, descriptions, attributes and measurements behind a PrometheusMetricReader; every scrape (prometheus_client.generate_latest) is parsed by an independent strict parser and compared, "
    "sample by sample, with a model of what was recorded; flushes and repeated scrapes in between, and concurrent recording, scraping and flushing under the schedule fuzzer; distinct = shapes of the exposition."
)
ASSUMPTIONS = [
    "instrument names stay distinct after sanitizing; attribute sets of one instrument stay distinct after sanitizing; strings are valid unicode; numbers fit a double",
    "a synchronous gauge is collected (and exposed) once per recorded value, as the SDK's last-value aggregation does; later scrapes may repeat or omit it",
    "one metric whose series have different label keys may be announced by several HELP/TYPE blocks (the existing tests demand that)",
    "attributes sanitizing to the reserved label le are not used with histograms; histograms with negative bounds expose no count and sum (prometheus_client's rule)",
]

UNITS = {
    "s": "seconds", "ms": "milliseconds", "min": "minutes", "h": "hours", "d": "days", "us": "microseconds", "ns": "nanoseconds", "By": "bytes", "KiBy": "kibibytes",
    "MiBy": "mebibytes", "GiBy": "gibibytes", "TiBy": "tibibytes", "KBy": "kilobytes", "MBy": "megabytes", "GBy": "gigabytes", "TBy": "terabytes", "m": "meters",
    "V": "volts", "A": "amperes", "J": "joules", "W": "watts", "g": "grams", "Cel": "celsius", "Hz": "hertz", "%": "percent", "1": "", "": "", "{requests}": "", "{}": "", "m/By": "meters_per_By", "x/ms": "x_per_ms",
    "{a b}": "", "m/s": "meters_per_second", "By/s": "bytes_per_second", "1/s": "per_second", "{req}/s": "per_second", "By/m": "bytes_per_minute",
    "V/mo": "volts_per_month", "J/d": "joules_per_day", "W/y": "watts_per_year", "GBy/h": "gigabytes_per_hour", "g/w": "grams_per_week", "my unit": "my_unit",
    "a.b": "a_b", "m/s/s": "meters_per_s_s", "By{x}": "bytes", "_x_": "x", "!!": "", "x/y z": "x_per_y_z", "/s": "per_second", "a  b!c": "a_b_c", "x{y}z": "xz", "\"": "", "\\": "", "\n": "",
}
NAME = re.compile(r"[a-zA-Z_:][a-zA-Z0-9_:]*\Z")
LABEL = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*\Z")


class Bad(Exception):
    pass


def parse(text):
    """Strict parser for the Prometheus text format: -> help, types, samples."""
    helps, types, samples = [], [], []
    if text and not text.endswith("\n"):
        raise Bad("last line is not terminated")
    for line in text.split("\n")[:-1]:
        if not line:
            raise Bad("empty line")
        if line.startswith("# HELP "):
            name, _, doc = line[7:].partition(" ")
            if not NAME.match(name):
                raise Bad(f"bad name in {line!r}")
            helps.append((name, re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), doc)))
        elif line.startswith("# TYPE "):
            name, _, typ = line[7:].partition(" ")
            if typ not in ("counter", "gauge", "histogram", "summary", "untyped") or not NAME.match(name):
                raise Bad(f"bad type line {line!r}")
            types.append((name, typ))
        elif line.startswith("#"):
            raise Bad(f"unexpected comment {line!r}")
        else:
            m = re.match(r"[a-zA-Z_:][a-zA-Z0-9_:]*", line)
            if not m:
                raise Bad(f"bad sample line {line!r}")
            name, i, labels = m.group(0), m.end(), {}
            if line[i] == "{":
                i += 1
                while line[i] != "}":
                    m = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*").match(line, i)
                    if not m or line[m.end() : m.end() + 2] != '="':
                        raise Bad(f"bad label in {line!r}")
                    k, i, v = m.group(0), m.end() + 2, []
                    while line[i] != '"':
                        if line[i] == "\\":
                            i += 1
                            if line[i] not in '\\"n':
                                raise Bad(f"bad escape in {line!r}")
                            v.append("\n" if line[i] == "n" else line[i])
                        else:
                            v.append(line[i])
                        i += 1
                    i += 1
                    if k in labels:
                        raise Bad(f"label {k} repeated in {line!r}")
                    labels[k] = "".join(v)
                    if line[i] == ",":
                        i += 1
                    elif line[i] != "}":
                        raise Bad(f"bad labels in {line!r}")
                i += 1
            if line[i] != " ":
                raise Bad(f"bad sample line {line!r}")
            samples.append((name, labels, float(line[i + 1 :])))
    return helps, types, samples


def label_name(key):
    if key[:1].isdigit():
        key = "_" + key[1:]
    return re.sub("[^a-zA-Z0-9]+", "_", key) or "_"


def render(v):
    """The label value of an attribute: strings as they are, anything else as JSON."""
    return v if isinstance(v, str) else json.dumps(v, default=str)


def label_set(case, attrs):
    out = {}
    for k in sorted(attrs):
        name = label_name(k)
        if name in out:
            out[name] += ";" + render(attrs[k])
            case.observe("merged_labels")
        else:
            out[name] = render(attrs[k])
    return out


KEYS = ["a", "a.b", "a_b", "a b", "a-b", "1a", "2a", "_a", "é", "", "k\n", '"', "a:b", "日本", "http.status", "__x", "x__y", "x.y", "id2", "A", "²n", "-", "a\\b"]


def attributes(rng, uid, hist=False):
    a = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.choice(KEYS) if rng.random() < 0.8 else gen.key(rng)
        v = gen.value(rng, none_in_seq=False)
        a[k] = tuple(v) if isinstance(v, list) else v
        if rng.random() < 0.3:
            a[k] = rng.choice(['q"uote', "back\\slash", "new\nline", "{}", "a,b=c", "", " ", "é日😀", "\\n", "\t\r", "\u2028"])
    a = {k: v for k, v in a.items() if not bad_value(v) and label_name(k) != "id" and not (hist and label_name(k) == "le")}
    if uid is not None:
        a["id"] = uid
    items = list(a.items())
    rng.shuffle(items)
    return dict(items)


def bad_value(v):
    if isinstance(v, str):
        return any(0xD800 <= ord(c) < 0xE000 for c in v)
    return any(bad_value(x) for x in v) if isinstance(v, tuple) else False


def instrument_name(rng, i):
    base = rng.choice(["http.server.duration", "cpu/usage", "queue-length", "a_b", "aa", "x.y.z", "m__n", "ns.sub_total", "req_total", "size_bytes", "lat.seconds", "temp.celsius", "n1"])
    return rng.choice(["", "z."]) + "i" + str(i) + rng.choice([".", "_", "-", "/"]) + base


def full_name(name, unit, counter):
    if name[:1].isdigit():
        name = "_" + name[1:]
    n = re.sub("[^a-zA-Z0-9:]+", "_", name)
    u = UNITS[unit]
    if counter and n.endswith("_total"):
        n = n[: -len("_total")]
    if u and not n.endswith("_" + u):
        n += "_" + u
    return n


class Series:
    def __init__(self, kind, name, unit, desc, bounds):
        self.kind, self.name, self.unit, self.desc, self.bounds = kind, name, unit, desc, bounds
        self.points = {}  # frozen attrs -> state
        self.attrs = {}

    def key(self, attrs):
        k = tuple(sorted((a, repr(b)) for a, b in attrs.items()))
        self.attrs[k] = attrs
        return k


def scrape():
    from prometheus_client import REGISTRY, generate_latest

    return generate_latest(REGISTRY).decode("utf-8")


def clean_registry():
    from prometheus_client import REGISTRY

    for c in list(REGISTRY._collector_to_names):
        REGISTRY.unregister(c)


def expected(case, insts, resource, target):
    """-> list of (name, labels, value, optional), help texts by name, types by name"""
    want, helps, types = [], {}, {}
    for s in insts:
        counter = s.kind in ("counter", "ocounter")
        base = full_name(s.name, s.unit, counter)
        for k, st in s.points.items():
            labels = label_set(case, s.attrs[k])
            if s.kind == "histogram":
                total = 0
                for b, c in zip(list(s.bounds) + ["+Inf"], st["counts"]):
                    total += c
                    want.append((base + "_bucket", dict(labels, le=b), float(total), False))
                if not s.bounds or s.bounds[0] >= 0:
                    want.append((base + "_count", labels, float(st["count"]), False))
                    want.append((base + "_sum", labels, float(st["sum"]), False))
                else:
                    case.observe("negative_bounds")
                types[base] = "histogram"
                case.observe("histogram_samples")
            elif counter:
                want.append((base + "_total", labels, float(st), False))
                types[base + "_total"] = "counter"
                case.observe("counter_samples" if s.kind == "counter" else "observable_samples")
            elif s.kind == "gauge":
                want.append((base, labels, float(st[0]), not st[1]))
                types[base] = "gauge"
                case.observe("gauge_samples")
            else:
                want.append((base, labels, float(st), False))
                types[base] = "gauge"
                case.observe("updown_samples" if s.kind == "updown" else "observable_samples")
            helps[base + "_total" if counter else base] = s.desc
        if len(s.points) > 1:
            case.observe("label_sets_per_metric")
        if s.unit and UNITS[s.unit]:
            case.observe("units")
    if target is not None:
        # without any data the SDK exports nothing, target info included
        want.append(("target_info", label_set(case, target), 1.0, all(w[3] for w in want)))
        types["target_info"] = "gauge"
        case.observe("target_infos")
    else:
        case.observe("target_infos_off")
    return want, helps, types


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def freeze(name, labels):
    # le is compared as a number
    return name, tuple(sorted((k, ("num", float(v)) if k == "le" and name.endswith("_bucket") else str(v)) for k, v in labels.items()))


def compare(case, text, insts, resource, target):
    try:
        helps, types, samples = parse(text)
    except (Bad, ValueError, IndexError) as exc:
        case.fail("not-parseable", f"{exc}", text=text[:3000])
    want, whelps, wtypes = expected(case, insts, resource, target)
    got = {}
    for name, labels, value in samples:
        k = freeze(name, labels)
        case.check(k not in got, "duplicate-sample", f"{name}{labels} exposed twice", text=text[:3000])
        got[k] = value
    for name, labels, value, optional in want:
        k = freeze(name, labels)
        if k not in got:
            case.check(optional, "missing-sample", f"no sample {name}{labels} = {value}", text=text[:4000])
            continue
        v = got.pop(k)
        case.check(same(v, value), "value", f"{name}{labels} is {v} want {value}", text=text[:3000])
        case.observe("samples")
        case.observe("label_values", len(labels))
    case.check(not got, "unexpected-sample", f"unexpected samples {list(got.items())[:3]}", text=text[:4000])
    present = {n for n, _, _ in samples}
    seen_types = {}
    for name, typ in types:
        case.check(seen_types.setdefault(name, typ) == typ, "type", f"{name} announced as {typ} and {seen_types[name]}")
    for name, typ in wtypes.items():
        if any(p == name or p.startswith(name + "_") for p in present) and (name in present or name + "_bucket" in present):
            case.check(seen_types.get(name) == typ, "type", f"{name} announced as {seen_types.get(name)} want {typ}", text=text[:2000])
    for name, doc in helps:
        if name in whelps:
            case.check(doc == whelps[name], "help", f"{name} described as {doc!r} want {whelps[name]!r}")
            case.observe("help_texts", bool(doc))
    case.observe("scrapes")
    if not samples:
        case.observe("empty_scrapes")


def number(rng, fl):
    v = rng.choice([0, 1, 2, 3, 10, 255, 10**6, 2**40])
    return v * 0.25 if fl else v


def make(case, rng, hist_views=True):
    from opentelemetry.exporter.prometheus import PrometheusMetricReader
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
    from opentelemetry.sdk.resources import Resource

    clean_registry()
    off = rng.random() < 0.3
    reader = PrometheusMetricReader(disable_target_info=off)
    rattrs = attributes(rng, "res") if rng.random() < 0.8 else {}
    rattrs = {k: v for k, v in rattrs.items() if k and not (isinstance(v, tuple) and not v)}
    resource = Resource({k: v for k, v in rattrs.items()})
    views, insts, objs = [], [], []
    specs = []
    for i in range(rng.choice([0, 1, 3, 6])):
        kind = rng.choice(["counter", "updown", "gauge", "histogram", "histogram", "ocounter", "oupdown", "ogauge"])
        name = instrument_name(rng, i)
        unit = rng.choice(list(UNITS)) if rng.random() < 0.6 else ""
        desc = rng.choice(["", "plain text", " padded ", "new\nline", "back\\slash", "ünï 😀", 'quo"te'])
        bounds = None
        if kind == "histogram":
            bounds = rng.choice([[0, 5, 10], [0.5, 1.5], [], [-5, 0, 5], [1], [0.001, 2e5], [0.1234567, 1234567.5]])
        renamed = None
        if rng.random() < 0.15:
            # views may choose names that instruments cannot have
            renamed = rng.choice(["9lives", "1", "ö", "ns:sub", "x y", "_lead", "99", '"', "a\nb"]) + f"{i}r"
            case.observe("renamed")
        if bounds is not None or renamed:
            views.append(View(instrument_name=name, name=renamed, aggregation=None if bounds is None else ExplicitBucketHistogramAggregation(boundaries=bounds)))
        if renamed:
            specs.append((kind, name, unit, desc, bounds, renamed))
            continue
        specs.append((kind, name, unit, desc, bounds))
        if kind != "histogram" and rng.random() < 0.15:
            # the same instrument name in both scopes, told apart by the unit
            other = rng.choice([u for u in ("s", "By", "m/s", "%") if full_name(name, u, True) != full_name(name, unit, True) and full_name(name, u, False) != full_name(name, unit, False)])
            specs.append((kind, name, other, desc, bounds))
            case.observe("names_told_apart_by_unit")
    if rng.random() < 0.2:
        views.append(View(instrument_name="exponential", aggregation=ExponentialBucketHistogramAggregation()))
        case.observe("unsupported_aggregations")
    prov = MeterProvider([reader], resource=resource, views=views, shutdown_on_exit=False)
    meters = [prov.get_meter(n) for n in ("one", "two")]
    if any("exponential" == v._instrument_name for v in views):
        meters[0].create_histogram("exponential").record(3)
    for kind, name, unit, desc, bounds, *renamed in specs:
        s = Series(kind, (renamed or [name])[0], unit, desc, bounds)
        m = rng.choice(meters)
        if insts and insts[-1].name == name:
            m = [x for x in meters if x is not m_last][0]
        m_last = m
        kw = dict(unit=unit, description=desc)

        def callback(options, s=s):
            return [Observation(v, s.attrs[k]) for k, v in s.points.items()]

        if kind == "counter":
            o = m.create_counter(name, **kw)
        elif kind == "updown":
            o = m.create_up_down_counter(name, **kw)
        elif kind == "gauge":
            o = m.create_gauge(name, **kw)
        elif kind == "histogram":
            o = m.create_histogram(name, **kw)
        else:
            o = getattr(m, {"ocounter": "create_observable_counter", "oupdown": "create_observable_up_down_counter", "ogauge": "create_observable_gauge"}[kind])(name, [callback], **kw)
        insts.append(s)
        objs.append(o)
    return prov, reader, insts, objs, resource, (None if off else dict(resource.attributes))


def record(rng, s, obj, uid):
    fl = rng.random() < 0.4
    v = number(rng, fl)
    # reuse an attribute set or make a new one
    if s.points and rng.random() < 0.6:
        k = rng.choice(list(s.points))
        attrs = s.attrs[k]
    else:
        attrs = attributes(rng, f"u{uid}" if s.points or rng.random() < 0.8 else None, s.kind == "histogram")
        if any(label_name(x) == "id" for x in attrs) != ("id" in attrs):
            return
        k = s.key(attrs)
    if s.kind == "counter":
        obj.add(v, attrs)
        s.points[k] = s.points.get(k, 0) + v
    elif s.kind == "updown":
        v = rng.choice([v, -v])
        obj.add(v, attrs)
        s.points[k] = s.points.get(k, 0) + v
    elif s.kind == "gauge":
        v = rng.choice([v, -v])
        obj.set(v, attrs)
        s.points[k] = [v, True]
    elif s.kind == "histogram":
        obj.record(v, attrs)
        st = s.points.setdefault(k, {"counts": [0] * (len(s.bounds) + 1), "sum": 0, "count": 0})
        st["counts"][sum(1 for b in s.bounds if v > b)] += 1
        st["sum"] += v
        st["count"] += 1
    elif s.kind == "ocounter":
        s.points[k] = s.points.get(k, 0) + v
    else:
        s.points[k] = rng.choice([v, -v])


def sequential(case):
    rng = case.rng
    quiet.silence()
    prov, reader, insts, objs, resource, target = make(case, rng)
    uid = 0
    shapes = []
    last = None
    try:
        for _ in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([0, 1, 5, 15])):
                if insts:
                    i = rng.randrange(len(insts))
                    uid += 1
                    record(rng, insts[i], objs[i], uid)
                if rng.random() < 0.08:
                    prov.force_flush() if rng.random() < 0.5 else reader.collect()
                    case.observe("flushes_before_scrape")
                    if any(s.kind == "gauge" and any(p[1] for p in s.points.values()) for s in insts):
                        case.observe("gauges_kept_by_flush")
            for _ in range(rng.choice([1, 1, 2])):
                text = scrape()
                compare(case, text, insts, resource, target)
                if last is not None:
                    case.observe("repeated_scrapes")
                last = text
                for s in insts:
                    if s.kind == "gauge":
                        for p in s.points.values():
                            p[1] = False
            shapes.append([(s.kind, s.unit, len(s.points)) for s in insts])
    finally:
        prov.shutdown()
    case.check(not [n for n, _, _ in parse(scrape())[2]], "after-shutdown", "samples are still exposed after shutdown")
    case.sig(shapes, sorted(k for s in insts for a in s.attrs.values() for k in a))


def concurrent(case):
    """Recorders, scrapers and a flusher at once."""
    from opentelemetry.exporter.prometheus import PrometheusMetricReader
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    quiet.silence()
    clean_registry()
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    reader = PrometheusMetricReader(disable_target_info=rng.random() < 0.3)
    prov = MeterProvider([reader], resource=Resource({"r": "x"}), shutdown_on_exit=False)
    m = prov.get_meter("m")
    counter, updown, hist = m.create_counter("c"), m.create_up_down_counter("u"), m.create_histogram("h")
    m.create_observable_gauge("og", [lambda o: [Observation(7, {"k": "v"})]])
    events = []  # (series, step started, step ended)
    clock = [0]
    scrapes = []

    def tick():
        clock[0] += 1
        return clock[0]

    def main():
        def recorder(who):
            for _ in range(rng.choice([1, 3, 6])):
                which = rng.choice(["c", "u", "h"])
                a = {"w": rng.choice(["x", "y"])}
                begin = tick()
                if which == "c":
                    counter.add(1, a)
                elif which == "u":
                    updown.add(1, a)
                else:
                    hist.record(1, a)
                events.append((which, a["w"], begin, tick()))
                case.observe("concurrent_records")

        def scraper():
            for _ in range(rng.choice([1, 2, 3])):
                begin = tick()
                text = scrape()
                scrapes.append((begin, tick(), text))
                case.observe("concurrent_scrapes")

        def flusher():
            for _ in range(rng.choice([1, 2])):
                reader.collect() if rng.random() < 0.5 else prov.force_flush()
                case.observe("concurrent_flushes")

        ts = [threading.Thread(target=recorder, args=(i,)) for i in range(rng.choice([1, 2]))]
        ts += [threading.Thread(target=scraper) for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.6:
            ts.append(threading.Thread(target=flusher))
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        begin = tick()
        text = scrape()
        scrapes.append((begin, tick(), text))

    try:
        s.run(main)
    finally:
        prov.shutdown()
    for _, exc in s.thread_exceptions:
        case.fail("scrape-raised", f"{exc!r}")
    for begin, end, text in scrapes:
        try:
            _, _, samples = parse(text)
        except (Bad, ValueError, IndexError) as exc:
            case.fail("not-parseable", f"{exc}", text=text[:3000])
        got = {}
        for name, labels, value in samples:
            k = freeze(name, labels)
            case.check(k not in got, "duplicate-sample", f"{name}{labels} exposed twice in one scrape", text=text[:3000])
            got[k] = value
        case.check(("og", (("k", "v"),)) in got, "missing-sample", "a scrape misses the observable gauge", text=text[:2000])
        for which in "cuh":
            for w in "xy":
                low = sum(1 for e in events if e[0] == which and e[1] == w and e[3] < begin)
                high = sum(1 for e in events if e[0] == which and e[1] == w and e[2] < end)
                name = {"c": "c_total", "u": "u", "h": "h_count"}[which]
                v = got.get((name, (("w", w),)))
                case.check(v is not None or not low, "missing-sample", f"a scrape misses {name}{{w={w}}} although {low} were recorded before it", text=text[:2000])
                if v is None:
                    continue
                case.check(low <= v <= high, "value", f"{name}{{w={w}}} is {v}, between {low} and {high} expected")
                if which == "h":
                    sm = got.get(("h_sum", (("w", w),)))
                    case.check(sm == v, "mixed-samples", f"histogram sum {sm} count {v} with all values 1")
                    bs = sorted((dict(k[1])["le"][1], x) for k, x in got.items() if k[0] == "h_bucket" and dict(k[1]).get("w") == w)
                    case.check(bs and bs[-1] == (math.inf, v) and all(a[1] <= b[1] for a, b in zip(bs, bs[1:])), "buckets", f"buckets {bs} count {v}")
                case.observe("samples")
        case.observe("scrapes")
    case.sig(s.signature())


WORKLOADS = [Workload("sequential", sequential, 5000, 40000), Workload("concurrent", concurrent, 2500, 25000)]
