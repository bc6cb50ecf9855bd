import warnings

from mon import ambient, gen, quiet
from mon.checks.p15 import custom, CaseInsensitive
from mon.checks.p17 import name, text
from mon.core import Workload

PROPERTY = "P18"
VENV = "pb5"
SCHED = False
REQUIRED = ["roundtrips", "recording_spans", "jaeger_baggage", "invalid_contexts", "hostile", "wellformed", "kept_context", "composites", "member_calls", "ambient_extractions", "wrong_lengths"]
RULE = (
    "Round trips of generated span contexts and baggage through every B3/Jaeger propagator and carrier kind; well-formed, mutated and random "
    "headers judged by an independent parser; composites of real and recording members compared with applying the members one by one; distinct = headers."
)
ASSUMPTIONS = [
    "carrier values are text or lists of text",
    "baggage values hold no lone surrogates; Jaeger baggage names are tokens",
    "a carrier keeps the case of Jaeger baggage header names",
    "Jaeger baggage travels only together with a valid span context, as the format does",
]


def props():
    from opentelemetry.propagators.b3 import B3Format, B3MultiFormat, B3SingleFormat
    from opentelemetry.propagators.jaeger import JaegerPropagator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [B3MultiFormat(), B3SingleFormat(), B3Format(), JaegerPropagator()]


def keep_case(base):
    class S(type(base)):
        def set(self, carrier, key, value):
            super().set(carrier, key, value)
            carrier.items[-1] = (key, value)

    return S()


def current(ctx):
    from opentelemetry import trace

    return trace.get_current_span(ctx).get_span_context()


def inject(case, prop, ctx, use_custom, implicit=False):
    from opentelemetry import context as ctxapi

    if use_custom:
        g, s = custom()
        if "Jaeger" in type(prop).__name__:
            s = keep_case(s)
        carrier, kw, kg = CaseInsensitive(), {"setter": s}, {"getter": g}
    else:
        carrier, kw, kg = {}, {}, {}
    if implicit:
        tok = ctxapi.attach(ctx)
        try:
            prop.inject(carrier, **kw)
        finally:
            ctxapi.detach(tok)
    else:
        prop.inject(carrier, context=ctx, **kw)
    hs = {k.lower(): v for k, v in carrier.items} if use_custom else dict(carrier)
    case.check(all(type(v) is str for v in hs.values()), "header-type", f"non text header in {hs!r}")
    return carrier, hs, kg


def roundtrip(case):
    from opentelemetry import baggage, trace
    from opentelemetry.context import Context
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    quiet.silence()
    ps = props()
    i = rng.randrange(4)
    prop = ps[i]
    sc = gen.span_context(rng, flags=rng.choice([0, 1, 1, 3, 0xFE, 0xFF]))
    ctx = Context({"o": 1})
    parent = None
    if rng.random() < 0.3:
        tp = TracerProvider(sampler=rng.choice([ALWAYS_ON, ALWAYS_ON, ALWAYS_OFF]), resource=Resource({}), shutdown_on_exit=False)
        par = trace.set_span_in_context(trace.NonRecordingSpan(sc)) if rng.random() < 0.7 else Context()
        span = tp.get_tracer("t").start_span("s", context=par)
        if rng.random() < 0.2:
            span.end()
        parent = getattr(span, "parent", None)
        sc = span.get_span_context()
        ctx = trace.set_span_in_context(span, ctx)
        if span.is_recording():
            case.observe("recording_spans")
    else:
        ctx = trace.set_span_in_context(trace.NonRecordingSpan(sc), ctx)
    bag = {}
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        k = name(rng).lower() if rng.random() < 0.9 else rng.choice(["uberctx-x", "a-uberctx-b", "uber-trace-id", "b3"])
        v = rng.choice([text(rng), text(rng), 5, 1.5, True])
        bag[k] = str(v)
        ctx = baggage.set_baggage(k, v, context=ctx)
    use_custom = rng.random() < 0.3
    before = dict(ctx)
    carrier, hs, kg = inject(case, prop, ctx, use_custom, implicit=rng.random() < 0.3)
    case.check(dict(ctx) == before, "context-changed", "inject changed the context")
    fixed = {k for k in hs if not (i == 3 and k.startswith("uberctx-"))}
    case.check(fixed and fixed <= {f.lower() for f in prop.fields}, "fields", f"wrote {sorted(hs)} fields {prop.fields}")
    case.sig(i, hs)
    case.sample(str(hs)[:300])
    if i == 3:
        p = hs["uber-trace-id"].split(":")
        pid = parent.span_id if parent is not None and trace.get_current_span(ctx).is_recording() else 0
        case.check(len(p) == 4 and (int(p[0], 16), int(p[1], 16), int(p[2], 16)) == (sc.trace_id, sc.span_id, pid), "jaeger-header", f"{hs['uber-trace-id']} for {sc} parent {pid:x}")
    readers = [prop] if i == 3 else ps[:3]
    base_span = rng.random() < 0.3
    for r in readers:
        base = Context({"keep": 1})
        if base_span:
            base = trace.set_span_in_context(trace.NonRecordingSpan(gen.span_context(rng)), base)
        base = baggage.set_baggage("had", "1", context=base)
        bb = dict(base)
        out = r.extract(carrier, context=base, **kg) if rng.random() < 0.8 else None
        if out is None:
            out = r.extract(carrier, **kg)
        else:
            case.check(out.get("keep") == 1 and dict(base) == bb and baggage.get_baggage("had", out) == bag.get("had", "1") if i == 3 else out.get("keep") == 1, "context-lost", "given context changed or lost")
        got = current(out)
        case.check(
            (got.trace_id, got.span_id, bool(got.trace_flags & 1), got.is_remote) == (sc.trace_id, sc.span_id, bool(sc.trace_flags & 1), True),
            "roundtrip", f"{type(r).__name__}: {got} want {sc} from {hs}"[:900])
        if int(sc.trace_flags) in (0, 1):
            # no flag appears that was not there
            case.check(int(got.trace_flags) == int(sc.trace_flags), "roundtrip", f"{type(r).__name__}: flags {int(got.trace_flags)} want {int(sc.trace_flags)} from {hs}"[:900])
        if i == 3:
            gb = dict(baggage.get_all(out))
            if "had" not in bag:
                gb.pop("had", None)
            case.check(gb == bag, "jaeger-baggage", f"{gb} want {bag} from {hs}"[:900])
            case.observe("jaeger_baggage", len(bag))
        case.observe("roundtrips")


def invalid(case):
    from opentelemetry import baggage, trace
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    sc = gen.span_context(rng, valid=False)
    ctx = Context() if rng.random() < 0.3 else trace.set_span_in_context(trace.NonRecordingSpan(sc) if rng.random() < 0.8 else trace.INVALID_SPAN, Context())
    ctx = baggage.set_baggage("k", "v", context=ctx)
    for p in props():
        _, hs, _ = inject(case, p, ctx, rng.random() < 0.3, implicit=rng.random() < 0.3)
        case.check(hs == {}, "injected-invalid", f"{type(p).__name__} wrote {hs} for {current(ctx)}")
    case.observe("invalid_contexts")
    case.sig("inv", sc.trace_id, sc.span_id)


def hexid(rng, n):
    r = rng.random()
    if r < 0.4:
        s = f"{rng.getrandbits(4 * n):0{n}x}"
    elif r < 0.45:
        m = rng.choice([1, 8, 15, 17, 24, 31, 33, 48])
        s = f"{rng.getrandbits(4 * m):0{m}x}"
    elif r < 0.6:
        s = "0" * n
    elif r < 0.7:
        s = f"{rng.getrandbits(4 * n):0{n}X}"
    elif r < 0.8:
        s = f"{1:0{n}x}"
    else:
        s = f"{rng.getrandbits(4 * n):0{n}x}"
        s = rng.choice([s[1:], s + "0", "-" + s[1:], "+" + s[1:], " " + s[1:], s[:-1] + "g", s + "\n", "0x" + s[2:], s[: n // 2] + "_" + s[n // 2 + 1 :], "", "x", s * 40, s[:-1] + "١", "١" * n, "-1", "f" * n + "1", "\x00" * n, "١" + s[1:], "0" * n + s, "-0"])
    return s


HEX = set("0123456789abcdefABCDEF")


def strict_hex(s, lens):
    return len(s) in lens and set(s) <= HEX


def wrong_length(hs):
    """True when the ids are plain hexadecimal and one has a length that B3 does not allow."""
    one = hs.get("b3")
    one = one[0] if isinstance(one, list) and one else one
    if one:
        f = one.split("-")
        if len(f) not in (2, 3):
            return False
        t, s = f[:2]
    else:
        t, s = (v[0] if isinstance(v, list) and v else v for v in (hs.get("x-b3-traceid"), hs.get("x-b3-spanid")))
    if not isinstance(t, str) or not isinstance(s, str) or not set(t) | set(s) <= HEX:
        return False
    return len(t) not in (16, 32) or len(s) != 16


def mangle(rng, s):
    r = rng.random()
    if r < 0.8 or not s:
        return s
    p = rng.randrange(len(s) + 1)
    if r < 0.85:
        return s[:p]
    if r < 0.9:
        return s[:p] + rng.choice("-:,; \n\x00é%") + s[p:]
    if r < 0.95:
        return s[:p] + s[p + 1 :]
    return s + rng.choice(["-", ":", "-x-y-z", ":::", "\n", ",", " "])


def hostile(case):
    from opentelemetry import baggage, trace
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    ps = props()
    i = rng.choice([0, 1, 3, 3])
    prop = ps[i]
    hs, want, sure = {}, None, False  # want: (tid, sid, sampled) or None for unchanged; sure: judged strictly
    if i == 3:
        t = rng.choice([hexid(rng, 32), hexid(rng, 16), f"{rng.getrandbits(60):x}"])
        s = rng.choice([hexid(rng, 16), f"{rng.getrandbits(60):x}"])
        p = rng.choice(["0", hexid(rng, 16), ""])
        f = rng.choice(["0", "1", "2", "3", "01", "00", "ff", "fe", "", "x", "-1", "100", "0001"])
        h = f"{t}:{s}:{p}:{f}"
        m = mangle(rng, h)
        hs["uber-trace-id"] = m
        if m == h and strict_hex(t, range(1, 33)) and strict_hex(s, range(1, 17)) and (strict_hex(p, range(1, 17))) and strict_hex(f, (1, 2)):
            sure = True
            if int(t, 16) and int(s, 16):
                want = (int(t, 16), int(s, 16), bool(int(f, 16) & 1))
        if rng.random() < 0.2:
            hs[rng.choice(["x-uberctx-other", "uberctx", "Uber-uberctx-other", "uber-ctx-other"])] = "not baggage"
        for _ in range(rng.choice([0, 0, 1, 2])):
            hs["uberctx-" + rng.choice(["", "a", "uberctx-", "é", "a b", "k"])] = rng.choice(["", "%", "%zz", "v%20", "é", [], [""], ["x", "y"], "%FF", "a,b;c", "\x00"])
    else:
        single = rng.random() < 0.5
        t = hexid(rng, rng.choice([32, 16]))
        s = hexid(rng, 16)
        samp = rng.choice(["1", "0", "d", "1", "true", "True", "false", "False", "", "x", "٣", "2", None])
        fl = rng.choice([None, None, "1", "0", "x", ""])
        ok = strict_hex(t, (16, 32)) and strict_hex(s, (16,))
        good = ok and int(t, 16) and int(s, 16)
        if single:
            form = rng.randrange(5)
            if form == 0:
                h, sure = rng.choice([("0", True), ("1", True), ("d", True), ("", False), (t, False), ("-", False), ("--", False)])
            elif form == 1:
                h, sure = f"{t}-{s}", ok
                want = (int(t, 16), int(s, 16), None) if good else None
            elif form == 2:
                h, sure = f"{t}-{s}-{samp}", ok and samp in ("1", "0", "d")
                want = (int(t, 16), int(s, 16), samp in ("1", "d")) if sure and good else None
            elif form == 3:
                h, sure = f"{t}-{s}-{samp}-{hexid(rng, 16)}", ok and samp in ("1", "0", "d")
                want = (int(t, 16), int(s, 16), samp in ("1", "d")) if sure and good else None
                if sure and not strict_hex(h.split("-")[-1], (16,)):
                    sure = False
            else:
                # more fields than the format has
                h = f"{t}-{s}-{samp}-{hexid(rng, 16)}-" + rng.choice(["x", "", "1", "x-y", hexid(rng, 16)])
                sure = True
            m = mangle(rng, h)
            if m != h:
                sure, want = False, None
            hs["b3"] = m
        else:
            parts = {"x-b3-traceid": t, "x-b3-spanid": s}
            if samp is not None:
                parts["x-b3-sampled"] = samp
            if fl is not None:
                parts["x-b3-flags"] = fl
            if rng.random() < 0.2:
                parts["x-b3-parentspanid"] = hexid(rng, 16)
            miss = None
            if rng.random() < 0.2:
                miss = rng.choice(list(parts))
                del parts[miss]
            hs.update(parts)
            st, flv = parts.get("x-b3-sampled"), parts.get("x-b3-flags")
            if miss in ("x-b3-traceid", "x-b3-spanid"):
                sure = True
            elif ok and st in ("1", "0", "true", "false", None) and flv in (None, "0", "1") and not (flv == "1" and st in ("0", "false")):
                sure = True
                if good:
                    want = (int(t, 16), int(s, 16), st in ("1", "true") or flv == "1")
    for k in list(hs):
        if rng.random() < 0.2 and type(hs[k]) is str:
            hs[k] = [hs[k]]
        elif rng.random() < 0.03:
            hs[k] = rng.choice([[], [""], ""])
            sure = False
    base = Context({"keep": 1})
    mine = None
    if rng.random() < 0.5:
        mine = gen.span_context(rng, remote=False)
        base = trace.set_span_in_context(trace.NonRecordingSpan(mine), base)
    bb = dict(base)
    try:
        out = prop.extract(hs, context=base)
    except Exception as exc:  # pylint: disable=broad-except
        case.fail("raised", f"{type(prop).__name__}.extract raised {exc!r} for {hs!r}"[:900])
        return
    case.observe("hostile")
    case.sig(i, str(hs))
    case.check(dict(base) == bb and out.get("keep") == 1, "context-changed", "given context changed or lost")
    got = current(out)
    kept = got == (mine or trace.INVALID_SPAN_CONTEXT) and got.is_remote is False
    if i == 3:
        names = {k[len("uberctx-"):] for k in hs if k.startswith("uberctx-")}
        case.check(set(baggage.get_all(out)) <= names, "invented-baggage", f"baggage {dict(baggage.get_all(out))} from {hs!r}"[:900])
    elif not sure and wrong_length(hs):
        # ids that are hexadecimal but of a length B3 does not have
        sure, want = True, None
        case.observe("wrong_lengths")
    if not kept:
        ok = got.is_valid and 0 < got.trace_id < 2**128 and 0 < got.span_id < 2**64 and got.is_remote
        case.check(ok, "invalid-installed", f"{type(prop).__name__} installed {got} from {hs!r}"[:900])
    else:
        case.observe("kept_context")
    if sure:
        case.observe("wellformed")
        if want is None:
            case.check(kept, "accepted-bad", f"{type(prop).__name__} installed {got} from {hs!r}"[:900])
        else:
            case.check((got.trace_id, got.span_id) == want[:2] and (want[2] is None or bool(got.trace_flags & 1) == want[2]) and got.is_remote,
                       "wellformed-lost", f"{type(prop).__name__}: {got} want {want} from {hs!r}"[:900])
    case.sample(str(hs)[:200])


def composite(case):
    from opentelemetry import baggage, trace
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.context import Context
    from opentelemetry.propagators.composite import CompositePropagator
    from opentelemetry.propagators.textmap import TextMapPropagator
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    rng = case.rng
    quiet.silence()
    calls = []

    class Rec(TextMapPropagator):
        def __init__(self, n, key):
            self.n, self.key = n, key

        def extract(self, carrier, context=None, getter=None):
            calls.append(("extract", self.n, id(carrier), id(getter)))
            prev = context.get("trail") if context is not None else None
            context = Context() if context is None else context
            return Context({**context, "trail": (prev or ()) + (self.n,), self.key: self.n})

        def inject(self, carrier, context=None, setter=None):
            calls.append(("inject", self.n, id(carrier), id(setter)))
            setter.set(carrier, self.key, str(self.n))

        @property
        def fields(self):
            return {self.key, f"only{self.n}"}

    ps = props()
    n = rng.choice([1, 2, 3, 4, 6])
    members = []
    for j in range(n):
        members.append(Rec(j, rng.choice(["ra", "rb"])) if rng.random() < 0.5 else rng.choice([ps[0], ps[1], ps[3], TraceContextTextMapPropagator(), W3CBaggagePropagator()]))
    comp = CompositePropagator(members if rng.random() < 0.5 else tuple(members))
    if rng.random() < 0.2:
        last = Rec(99, "rz")
        comp = CompositePropagator([comp, last])
        members = members + [last]
    sc = gen.span_context(rng, flags=rng.choice([0, 1]))
    ctx = trace.set_span_in_context(trace.NonRecordingSpan(sc), Context())
    for _ in range(rng.randrange(3)):
        ctx = baggage.set_baggage(name(rng).lower(), text(rng), context=ctx)
    g, s = custom()
    use_custom = rng.random() < 0.4
    new = CaseInsensitive if use_custom else dict
    kw, kg = ({"setter": s}, {"getter": g}) if use_custom else ({}, {})

    def show(c):
        return [(k, v) for k, v in c.items] if use_custom else dict(c)

    c1 = new()
    from opentelemetry.propagators.textmap import default_setter, default_getter

    comp.inject(c1, context=ctx, **kw)
    order = [c[1] for c in calls]
    case.eq(order, [m.n for m in members if isinstance(m, Rec)], "order", "inject order")
    case.check(all(c[2] == id(c1) and c[3] == id(s if use_custom else default_setter) for c in calls), "carrier", "a member got another carrier or setter")
    case.observe("member_calls", len(members))
    calls.clear()
    c2 = new()
    for m in members:
        m.inject(c2, context=ctx, setter=s if use_custom else default_setter)
    case.eq(show(c1), show(c2), "inject", "composite inject differs from its members")
    hs = {k.lower() for k, _ in (c1.items if use_custom else c1.items())}
    fields = {f.lower() for f in comp.fields}
    case.check({h for h in hs if not h.startswith("uberctx-")} <= fields, "fields", f"{hs} not in {fields}")
    case.check({f.lower() for m in members for f in m.fields} == fields, "fields", f"{fields}")
    calls.clear()
    base = rng.choice([None, Context({"keep": 1})])
    out = comp.extract(c1, context=base, **kg)
    case.eq([c[1] for c in calls], [m.n for m in members if isinstance(m, Rec)], "order", "extract order")
    case.check(all(c[2] == id(c1) and c[3] == id(g if use_custom else default_getter) for c in calls), "carrier", "a member got another carrier or getter")
    w = base
    for m in members:
        w = m.extract(c1, context=w, getter=g if use_custom else default_getter)
    case.check(out.get("trail") == w.get("trail") and out.get("keep") == w.get("keep") and current(out) == current(w) and dict(baggage.get_all(out)) == dict(baggage.get_all(w))
               and all(out.get(k) == w.get(k) for k in ("ra", "rb", "rz")), "extract", f"composite extract differs: {dict(out)} want {dict(w)}"[:900])
    if base is not None:
        case.check(dict(base) == {"keep": 1}, "context-changed", "given context changed")
    case.observe("composites")
    case.sig([type(m).__name__ for m in members], sorted(hs))


def ambient_case(case):
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.propagators.composite import CompositePropagator
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    def carriers(rng):
        if rng.random() < 0.15:
            return {}
        t, s = f"{rng.getrandbits(128) or 1:032x}", f"{rng.getrandbits(64) or 1:016x}"
        if rng.random() < 0.3:
            t = hexid(rng, 32)
        return rng.choice([
            {"b3": f"{t}-{s}-1"}, {"b3": "0"}, {"x-b3-traceid": t, "x-b3-spanid": s, "x-b3-sampled": "1"}, {"x-b3-traceid": t},
            {"uber-trace-id": f"{t}:{s}:0:1", "uberctx-a": "1"}, {"uber-trace-id": f"{t}:{s}:0"}, {"uberctx-b": "2"}, {"uber-trace-id": "", "uberctx-b": "2"},
        ])

    def make():
        ps = props()
        return [*ps, CompositePropagator([case.rng.choice(ps), W3CBaggagePropagator(), TraceContextTextMapPropagator()])]

    ambient.run(case, make, carriers)


WORKLOADS = [
    Workload("ambient", ambient_case, quick=1500, thorough=30000),
    Workload("roundtrip", roundtrip, quick=5000, thorough=100000),
    Workload("invalid", invalid, quick=1000, thorough=20000),
    Workload("hostile", hostile, quick=10000, thorough=300000),
    Workload("composite", composite, quick=2500, thorough=60000),
]
