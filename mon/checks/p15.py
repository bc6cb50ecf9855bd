from mon import ambient, gen, quiet
from mon.checks.p16 import model_parse
from mon.core import Workload

PROPERTY = "P15"
VENV = "pb5"
SCHED = False
REQUIRED = ["roundtrips", "with_state", "accepted", "rejected", "invalid_contexts", "future_versions", "bad_states", "custom_carriers", "repeated_headers", "ambient_extractions"]
RULE = (
    "Round trips of generated span contexts (all flag bytes, boundary ids, generated trace states) and traceparent/tracestate headers made by "
    "mutating good ones or from scratch, judged by an independent W3C parser; distinct = the header pair."
)
ASSUMPTIONS = [
    "carrier values are text or lists of text, as the propagator interface types them",
    "spaces and tabs around a traceparent may be tolerated or not; of several traceparent headers either none or the first counts",
    "trace flags are one byte",
    "what follows the flags of a future version may be any text; control or non-ASCII characters in it may also be rejected",
]
HEX = set("0123456789abcdef")


def parse(h):
    """Independent W3C traceparent parser: (tid, sid, flags) / None; second value = judged strictly."""
    core = h.strip(" \t")
    loose = core != h
    p = core.split("-")
    if len(p) < 4:
        return None, False
    ver, tid, sid, fl = p[0], p[1], p[2], p[3]
    for part, n in ((ver, 2), (tid, 32), (sid, 16), (fl, 2)):
        if len(part) != n or not set(part) <= HEX:
            return None, False
    if ver == "ff" or set(tid) == {"0"} or set(sid) == {"0"}:
        return None, False
    if ver == "00" and len(p) > 4:
        return None, False
    if any(ord(c) < 32 or ord(c) >= 127 for c in core):
        return (int(tid, 16), int(sid, 16), int(fl, 16)), True
    return (int(tid, 16), int(sid, 16), int(fl, 16)), loose


class CaseInsensitive:
    """A carrier that is not a mapping, with its own getter and setter."""

    def __init__(self):
        self.items = []


def custom():
    from opentelemetry.propagators.textmap import Getter, Setter

    class G(Getter):
        def get(self, carrier, key):
            v = [x for k, x in carrier.items if k.lower() == key.lower()]
            return v or None

        def keys(self, carrier):
            return [k for k, _ in carrier.items]

    class S(Setter):
        def set(self, carrier, key, value):
            carrier.items = [(k, v) for k, v in carrier.items if k.lower() != key.lower()]
            carrier.items.append((key.title(), value))

    return G(), S()


def full_state(rng):
    from opentelemetry.trace import TraceState

    n = rng.choice([0, 0, 1, 2, 5, 31, 32])
    out = []
    for i in range(n):
        k = rng.choice(["a", "k/x", "v*_-", "0t@sys", "tenant-1@vendor", "z" * 200]) + ""
        k = (f"{k}{i}" if "@" not in k else f"{i}{k}"[:255])
        v = "".join(chr(rng.choice([c for c in range(0x20, 0x7F) if c not in (0x2C, 0x3D)])) for _ in range(rng.choice([1, 2, 8, 255])))
        if v.endswith(" "):
            v = v[:-1] + "x"
        out.append((k, v))
    return TraceState(out)


def roundtrip(case):
    from opentelemetry import context as ctxapi
    from opentelemetry import trace
    from opentelemetry.context import Context
    from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    rng = case.rng
    quiet.silence()
    prop = TraceContextTextMapPropagator()
    valid = rng.random() < 0.8
    base = gen.span_context(rng, valid=valid)
    sc = SpanContext(base.trace_id, base.span_id, base.is_remote, TraceFlags(rng.choice([0, 1, 2, 3, 0x7F, 0x80, 0xFF, rng.randrange(256)])), full_state(rng))
    if not valid and rng.random() < 0.3:
        sc = SpanContext(rng.choice([2**128, 2**200, -1, 1]), rng.choice([2**64, -5]), False)
    span = NonRecordingSpan(sc)
    implicit = rng.random() < 0.3
    ctx = trace.set_span_in_context(span, Context({"other": 1}))
    use_custom = rng.random() < 0.3
    if use_custom:
        g, s = custom()
        carrier = CaseInsensitive()
        kw_i, kw_e = {"setter": s}, {"getter": g}
        case.observe("custom_carriers")
    else:
        carrier = {}
        kw_i, kw_e = {}, {}
    if implicit:
        tok = ctxapi.attach(ctx)
        try:
            prop.inject(carrier, **kw_i)
        finally:
            ctxapi.detach(tok)
    else:
        prop.inject(carrier, context=ctx, **kw_i)
    headers = {k.lower(): v for k, v in (carrier.items if use_custom else carrier.items())}
    case.sig("rt", valid, headers)
    case.check(set(headers) <= {f.lower() for f in prop.fields}, "fields", f"wrote {sorted(headers)}, fields {sorted(prop.fields)}")
    if not sc.is_valid:
        case.observe("invalid_contexts")
        case.check(not headers, "invalid-injected", f"invalid {sc} injected {headers}")
        return
    tp = headers.get("traceparent", "")
    case.check(
        isinstance(tp, str) and len(tp) == 55 and tp == f"00-{sc.trace_id:032x}-{sc.span_id:016x}-{int(sc.trace_flags):02x}",
        "grammar",
        f"traceparent {tp!r} for {sc}",
    )
    if len(sc.trace_state):
        case.observe("with_state")
        members = headers.get("tracestate", "").split(",")
        case.eq(members, [f"{k}={v}" for k, v in sc.trace_state.items()], "grammar", "tracestate")
    else:
        case.check("tracestate" not in headers or headers["tracestate"] == "", "grammar", f"tracestate {headers.get('tracestate')!r} for an empty trace state")
    given = Context({"keep": 2})
    out = prop.extract(carrier, context=given if rng.random() < 0.7 else None, **kw_e)
    got = trace.get_current_span(out).get_span_context()
    case.check(
        got.trace_id == sc.trace_id and got.span_id == sc.span_id and int(got.trace_flags) == int(sc.trace_flags) and list(got.trace_state.items()) == list(sc.trace_state.items()),
        "roundtrip",
        f"{got} want {sc}",
    )
    case.check(got.is_remote is True, "not-remote", "extracted context is not marked remote")
    case.check(bool(got.trace_flags.sampled) == bool(int(sc.trace_flags) & 1), "roundtrip", "sampled flag")
    case.check(dict(given) == {"keep": 2}, "context-changed", "the given context changed")
    case.observe("roundtrips")
    case.sample(headers)


def mutate(rng, h):
    for _ in range(rng.randrange(1, 3)):
        k = rng.randrange(13)
        i = rng.randrange(len(h) + 1)
        if k == 0:
            h = h[:i] + rng.choice("-0fgG \t\x00é,;=_\n٣") + h[i:]
        elif k == 1:
            h = h[:i] + h[i + 1 :]
        elif k == 2:
            h = h[:i] + rng.choice("gzA-F0 \u0660") + h[i + 1 :]
        elif k == 3:
            h = h.upper()
        elif k == 4:
            h = rng.choice(["ff", "01", "cc", "fe", "0", "FF", "0g"]) + h[2:]
        elif k == 5:
            h = h + rng.choice(["-", "-00", "-what-the-future", "x", " ", "\t", "-é", "\n", "-\n"])
        elif k == 6:
            h = rng.choice([" ", "\t", "\n", "-", "x", "\ufeff"]) + h
        elif k == 7:
            p = h.split("-")
            j = rng.randrange(len(p))
            p[j] = "0" * len(p[j])
            h = "-".join(p)
        elif k == 8:
            h = h.replace("-", rng.choice(["_", "", "--", " -"]), 1)
        elif k == 9:
            h = h[:i]
        elif k == 10:
            p = h.split("-")
            j = rng.randrange(len(p))
            p[j] = p[j] + rng.choice("0f")
            h = "-".join(p)
        elif k == 11:
            h = rng.choice(["", h * 2, h + "," + h, "0" * 10000, h + "-" + "x" * 5000])
        else:
            pass
    return h


def state_header(rng):
    from mon.checks.p16 import header

    return header(rng)


def hostile(case):
    from opentelemetry import trace
    from opentelemetry.context import Context
    from opentelemetry.trace import NonRecordingSpan
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    rng = case.rng
    quiet.silence()
    prop = TraceContextTextMapPropagator()
    good = f"{rng.choice(['00', '00', '00', '01', 'cc', 'fe'])}-{rng.getrandbits(128) or 1:032x}-{rng.getrandbits(64) or 1:016x}-{rng.randrange(256):02x}"
    tp = good if rng.random() < 0.3 else mutate(rng, good)
    carrier = {}
    repeated = False
    r = rng.random()
    if r < 0.06:
        pass
    elif r < 0.12:
        carrier["traceparent"] = []
    elif r < 0.25:
        n = rng.randrange(1, 4)
        carrier["traceparent"] = [tp] + [mutate(rng, good) for _ in range(n)]
        repeated = True
        case.observe("repeated_headers")
    elif r < 0.5:
        carrier["traceparent"] = [tp]
    else:
        carrier["traceparent"] = tp
    states = None
    if rng.random() < 0.6:
        states = [state_header(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        carrier["tracestate"] = states if len(states) > 1 or rng.random() < 0.5 else states[0]
        if rng.random() < 0.05:
            carrier["tracestate"] = states = []
    prev = rng.choice([None, gen.span_context(rng)])
    ctx = Context({"keep": 1})
    if prev is not None:
        ctx = trace.set_span_in_context(NonRecordingSpan(prev), ctx)
    snap = dict(ctx)
    out = prop.extract(carrier, context=ctx)
    info = dict(carrier=carrier)
    case.check(dict(ctx) == snap, "context-changed", "the given context changed", **info)
    values = carrier.get("traceparent")
    first = values if isinstance(values, str) else values[0] if values else None
    want, loose = parse(first) if first is not None else (None, False)
    unchanged = dict(out) == snap
    case.sig("hostile", repr(carrier))
    if want is None:
        case.check(unchanged, "accepted-malformed", f"malformed {first!r} gave {trace.get_current_span(out).get_span_context()}", **info)
        case.observe("rejected")
        return
    if unchanged and (loose or repeated):
        return
    case.check(not unchanged, "rejected-good", f"well-formed {first!r} was ignored", **info)
    got = trace.get_current_span(out).get_span_context()
    case.check((got.trace_id, got.span_id, int(got.trace_flags)) == want and got.is_valid, "wrong-context", f"{first!r} gave {got}", **info)
    case.check(got.is_remote is True, "not-remote", "extracted context is not marked remote", **info)
    case.check({k: v for k, v in out.items() if v is not trace.get_current_span(out)} .get("keep") == 1, "context-lost", "other context values lost", **info)
    if first[:2] != "00":
        case.observe("future_versions")
    ok, alts = model_parse(states or [])
    case.check(list(got.trace_state.items()) in alts, "trace-state", f"{states!r} gave {got.trace_state} want {alts}", **info)
    if states and not ok:
        case.observe("bad_states")
    case.observe("accepted")
    case.sample(carrier)


def ambient_case(case):
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    def carriers(rng):
        good = f"00-{rng.getrandbits(128) or 1:032x}-{rng.getrandbits(64) or 1:016x}-{rng.randrange(256):02x}"
        hs = {"traceparent": good if rng.random() < 0.6 else mutate(rng, good)} if rng.random() < 0.85 else {}
        if hs and rng.random() < 0.5:
            hs["tracestate"] = state_header(rng)
        return hs

    ambient.run(case, lambda: [TraceContextTextMapPropagator()], carriers)


WORKLOADS = [
    Workload("ambient", ambient_case, quick=3000, thorough=60000),
    Workload("roundtrip", roundtrip, quick=8000, thorough=200000),
    Workload("hostile", hostile, quick=20000, thorough=600000),
]
