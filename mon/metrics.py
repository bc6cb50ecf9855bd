"""Helpers shared by the metric checks."""

import threading


def reader_class():
    from opentelemetry.sdk.metrics.export import MetricReader

    class Reader(MetricReader):
        """Keeps what each collect() call delivered, per calling thread."""

        def __init__(self, **kw):
            super().__init__(**kw)
            self.local = threading.local()
            self.down = 0

        def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kwargs):
            self.local.out = getattr(self.local, "out", [])
            self.local.out.append(metrics_data)

        def shutdown(self, timeout_millis=30_000, **kwargs):
            self.down += 1

        def take(self, **kw):
            """The MetricsData of one collect(), or None."""
            self.local.out = []
            self.collect(**kw)
            out, self.local.out = self.local.out, []
            assert len(out) <= 1, f"one collect() delivered {len(out)} times"
            return out[0] if out else None

    return Reader


def provider(readers, views=(), **kw):
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.resources import Resource

    kw.setdefault("resource", Resource({}))
    return MeterProvider(metric_readers=readers, views=views, shutdown_on_exit=False, **kw)


def kinds():
    from opentelemetry.sdk import metrics as m

    return [m.Counter, m.UpDownCounter, m.Histogram, m.ObservableCounter, m.ObservableUpDownCounter, m.ObservableGauge] + ([m._Gauge] if hasattr(m, "_Gauge") else [])


def temporality(rng, delta=None):
    """A random preferred_temporality mapping plus a lookup by kind name."""
    from opentelemetry.sdk.metrics.export import AggregationTemporality as T

    pick = {}
    for k in kinds():
        d = (rng.random() < 0.5) if delta is None else delta
        pick[k] = T.DELTA if d else T.CUMULATIVE
    return pick, {k.__name__.lstrip("_"): v == T.DELTA for k, v in pick.items()}


def key(attrs):
    """Canonical, type-aware, order-free key of an attribute set."""
    def one(v):
        if isinstance(v, (list, tuple)):
            return ("seq",) + tuple(one(x) for x in v)
        return (type(v).__name__, v)

    return tuple(sorted((k, one(v)) for k, v in (attrs or {}).items()))


def streams(md):
    """[(scope, metric)] of a MetricsData."""
    if md is None:
        return []
    return [(sm.scope, m) for rm in md.resource_metrics for sm in rm.scope_metrics for m in sm.metrics]


def points(case, md):
    """{(scope name, metric name): (metric, {attr key: point})}; a name or attribute set reported twice is a violation."""
    out = {}
    for scope, m in streams(md):
        k = (scope.name, m.name)
        case.check(k not in out, "metric-twice", f"{k} reported twice in one collection")
        pts = {}
        for p in m.data.data_points:
            a = key(p.attributes)
            case.check(a not in pts, "point-twice", f"{k} reports attributes {p.attributes} twice")
            pts[a] = p
        case.check(pts, "empty-metric", f"{k} has no data points")
        out[k] = (m, pts)
    return out


ATTRS = [
    {},
    {"a": 1},
    {"a": 2},
    {"b": "x", "a": 1},
    {"a": 1, "b": "x"},
    {"b": "x"},
    {"b": ""},
    {"f": 1.5},
    {"t": True},
    {"t": False},
    {"l": ["p", "q"]},
    {"l": ("p", "r")},
    {"l": []},
    {"a": 10**20, "b": "é✓"},
    {"": "e"},
]


def attrs(rng):
    r = rng.random()
    if r < 0.1:
        return None
    if r < 0.7:
        a = dict(rng.choice(ATTRS[:6]))
    else:
        a = dict(rng.choice(ATTRS))
    return a
