from urllib.parse import unquote_plus

from mon import ambient, gen, quiet
from mon.checks.p15 import custom, CaseInsensitive
from mon.core import Workload

PROPERTY = "P17"
VENV = "pb5"
SCHED = False
REQUIRED = ["operations", "roundtrips", "roundtrip_entries", "non_string_values", "hostile_headers", "valid_kept", "malformed_skipped", "oversized_pairs", "oversized_headers", "too_many_pairs", "near_limits", "ambient_extractions"]
RULE = (
    "Random set/remove/clear programs on many contexts compared with a dict model; inject/extract round trips of token names and arbitrary "
    "Unicode values; headers mixing valid, malformed, oversized and too many members, judged by an independent member classifier; distinct = program or header."
)
ASSUMPTIONS = [
    "carrier values are text or lists of text; of several baggage headers the first counts",
    "values are Unicode text without lone surrogates",
    "list members with optional whitespace inside or at the very start or end of the header may be kept or skipped",
]
TOKEN = "!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~"


def name(rng):
    r = rng.random()
    if r < 0.6:
        return f"key{rng.randrange(12)}"
    return "".join(rng.choice(TOKEN) for _ in range(rng.randrange(1, 12)))


def text(rng):
    r = rng.random()
    if r < 0.5:
        return gen.string(rng)
    if r < 0.8:
        return "".join(rng.choice(" ,;=%+\"\\\t\n/a1é✓") for _ in range(rng.randrange(0, 8)))
    return rng.choice([" lead", "tail ", " ", "a+b", "a%20b", "%", "%zz", "a;b=c", "x" * 1000, "\u00a0nbsp\u00a0", "\n", "+", "%2C"])


class Weird:
    def __str__(self):
        return "weird value, with=stuff; "


def programs(case):
    from opentelemetry import baggage
    from opentelemetry import context as ctxapi
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    ctxs = [(Context({"o": 1}), {})]
    views = []
    shape = []

    def verify():
        for c, m in ctxs:
            got = baggage.get_all(c)
            case.check(dict(got) == m and list(got) == list(m), "changed", f"baggage of a context is {dict(got)} want {m}")
        for v, m in views:
            case.check(dict(v) == m, "view-changed", f"an earlier view shows {dict(v)} want {m}")

    for _ in range(rng.randrange(1, 14)):
        c, m = rng.choice(ctxs)
        op = rng.choice(["set", "set", "set", "remove", "clear", "get", "write", "implicit"])
        shape.append(op)
        case.observe("operations")
        k = name(rng)
        if m and rng.random() < 0.4:
            k = rng.choice(list(m))
        if op == "set":
            v = rng.choice([text(rng), 5, None, 1.5, object(), [1]])
            n = baggage.set_baggage(k, v, context=c)
            ctxs.append((n, {**m, k: v}))
        elif op == "remove":
            n = baggage.remove_baggage(k, context=c)
            ctxs.append((n, {a: b for a, b in m.items() if a != k}))
        elif op == "clear":
            n = baggage.clear(c)
            ctxs.append((n, {}))
        elif op == "implicit":
            tok = ctxapi.attach(c)
            try:
                case.check(dict(baggage.get_all()) == m, "current", "get_all() of the current context")
                n = baggage.set_baggage(k, "i")
                ctxs.append((n, {**m, k: "i"}))
                case.check(baggage.get_baggage(k) == m.get(k), "current", "get_baggage() of the current context")
                ctxs.append((baggage.remove_baggage(k), {a: b for a, b in m.items() if a != k}))
                ctxs.append((baggage.clear(), {}))
            finally:
                ctxapi.detach(tok)
        elif op == "get":
            case.check(baggage.get_baggage(k, c) is m.get(k), "get", f"get_baggage({k!r})")
        else:
            view = baggage.get_all(c)
            views.append((view, dict(m)))
            for w in (lambda: view.__setitem__(k, 1), lambda: view.__delitem__(k), lambda: view.clear(), lambda: view.pop(k), lambda: view.update({k: 1})):
                try:
                    w()
                except (TypeError, AttributeError):
                    continue
                case.fail("writable", "the baggage mapping accepted a modification")
        case.check(ctxs[-1][0].get("o") == 1, "context-lost", "other context values lost")
        case.check(op in ("get", "write") or ctxs[-1][0] is not c, "same-context", f"{op} returned the same context")
        verify()
    case.sig(shape, [len(m) for _, m in ctxs])


def inject(case, prop, ctx, use_custom):
    if use_custom:
        g, s = custom()
        carrier = CaseInsensitive()
        prop.inject(carrier, context=ctx, setter=s)
        hs = {k.lower(): v for k, v in carrier.items}
        return carrier, hs, {"getter": g}
    carrier = {}
    prop.inject(carrier, context=ctx)
    return carrier, dict(carrier), {}


def roundtrip(case):
    from opentelemetry import baggage
    from opentelemetry import context as ctxapi
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    prop = W3CBaggagePropagator()
    ctx, want = Context(), {}
    big = rng.random() < 0.1
    for i in range(rng.choice([0, 1, 2, 3, 8]) if not big else rng.choice([179, 180])):
        k = name(rng) if not big else f"k{i}"
        v = text(rng) if not big else str(i)
        if rng.random() < 0.15:
            v = rng.choice([5, -1.5, True, None, Weird(), (1, 2), b"b"])
            case.observe("non_string_values")
        ctx = baggage.set_baggage(k, v, context=ctx)
        want[k] = str(v)
    use_custom = rng.random() < 0.2
    before = dict(baggage.get_all(ctx))
    if rng.random() < 0.2:
        tok = ctxapi.attach(ctx)
        try:
            carrier, hs, kw = inject(case, prop, None, use_custom)
        finally:
            ctxapi.detach(tok)
    else:
        carrier, hs, kw = inject(case, prop, ctx, use_custom)
    case.check(dict(baggage.get_all(ctx)) == before, "changed", "inject changed the context")
    case.check(set(hs) <= {f.lower() for f in prop.fields}, "fields", f"wrote {sorted(hs)}, fields {prop.fields}")
    case.sig("rt", hs)
    if not want:
        case.check(not hs.get("baggage"), "empty", f"no baggage wrote {hs}")
        return
    h = hs["baggage"]
    case.check(all(0x20 < ord(c) < 0x7F and c not in '"\\' for c in h), "grammar", f"header {h!r}")
    members = h.split(",")
    case.eq(len(members), len(want), "grammar", "list members")
    if len(h) > 8192 or max(map(len, members)) > 4096:
        return
    base = Context({"keep": 1})
    out = prop.extract(carrier, context=base, **kw)
    got = dict(baggage.get_all(out))
    case.check(got == want, "roundtrip", f"{got} want {want} header {h!r}")
    case.check(dict(base) == {"keep": 1} and out.get("keep") == 1, "context-changed", "given context changed or lost")
    case.observe("roundtrips")
    case.observe("roundtrip_entries", len(want))
    case.sample(h)


def member(rng, i):
    """(text, kind) kind: ok / bad / maybe."""
    r = rng.random()
    k = f"k{i}" if rng.random() < 0.8 else f"k{rng.randrange(5)}"
    if r < 0.5:
        v = rng.choice(["v", "", "1", "%C3%A9", "a%20b", "a+b", "x=y", "%2C%3B", "v;p", "v;p=1;q=2", "%zz", "a:b@c", "=", "%FF"])
        return f"{k}={v}", "ok"
    if r < 0.6:
        n = rng.choice([4096, 4097, 4095, 5000, 4000])
        m = k + "=" + "x" * (n - len(k) - 1)
        return m, "ok" if n <= 4096 else "big"
    if r < 0.9:
        return (
            rng.choice(["novalue", "=v", "k e=v", "ké=v", "k=v\x00", "k=v\\", 'k="v"', "k(=v", "k=é", "", "=", "k=v;;", "k=v;=x", "k@=1", "k/=2", "k=v;p q", "\x00", "k{}=1", "k\n=v", "k=a b", "k[0]=1", "k;=1", ";p=1"]),
            "bad",
        )
    return rng.choice([f"{k} =v", f"{k}= v", f" {k}=v", f"{k}=v ;p", f"{k}=v; p=1", f"{k}=v\t", f"{k}=v ", f"{k}=v;p = 1"]), "maybe"


def hostile(case):
    from opentelemetry import baggage
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    prop = W3CBaggagePropagator()
    mode = rng.choice(["mix", "mix", "mix", "many", "huge", "noise", "edge"])
    if mode == "many":
        n = rng.choice([179, 180, 181, 200, 400])
        ms = [(f"m{i}={i}", "ok") for i in range(n)]
        for _ in range(rng.randrange(0, 4)):
            ms.insert(rng.randrange(len(ms)), rng.choice([("bad", "bad"), ("k=é", "bad"), ("", "bad")]))
    elif mode == "edge":
        # total size right around the limit
        total = rng.choice([8190, 8191, 8192, 8193, 8194, 9000])
        ms, used = [], 0
        i = 0
        while used < total:
            left = total - used
            if left < 12:
                k, v, t = ms[-1][0].partition("=")
                ms[-1] = (ms[-1][0] + "x" * left, "ok")
                break
            size = min(left, rng.choice([40, 400, 4000]))
            if left - size < 12:
                size = left if left <= 4090 else 4000
            sep = 1 if ms else 0
            body = f"m{i}="
            ms.append((body + "x" * (size - len(body) - sep), "ok"))
            used += size
            i += 1
        case.observe("near_limits")
    else:
        ms = [member(rng, i) for i in range(rng.choice([1, 1, 2, 3, 6, 10]))]
        if mode == "huge":
            ms += [(f"h{i}=" + "y" * 3000, "ok") for i in range(3)]
    sep = "," if mode in ("many", "edge") else rng.choice([",", ",", " , ", ",\t"])
    h = sep.join(m for m, _ in ms)
    if mode == "noise":
        h = rng.choice(["", "=", ",", ";;;", "\x00" * 5, "é" * 10, "k=v" + "\ud800", "x" * 9000, ",".join("=" * i for i in range(30)), h[: len(h) // 2], h[::-1], "," * 9000, "a=1," * 3000])
        carrier = {"baggage": rng.choice([h, [h], [h, "other=1"], [], [""]])}
        base = baggage.set_baggage("had", "1", context=Context({"keep": 1}))
        out = prop.extract(carrier, context=base)
        got = dict(baggage.get_all(out))
        case.check(got.get("had") == "1" and out.get("keep") == 1, "context-lost", f"{got}")
        case.check(len(got) <= 181 and all(len(k) + len(v) <= 4096 for k, v in got.items()) and sum(len(k) + len(v) for k, v in got.items()) <= 8192 + 4, "limits", f"{len(got)} entries")
        case.observe("hostile_headers")
        case.sig("noise", h)
        return
    carrier = {"baggage": h if rng.random() < 0.6 else [h]}
    base = baggage.set_baggage("had", "1", context=Context({"keep": 1}))
    out = prop.extract(carrier, context=base)
    got = dict(baggage.get_all(out))
    case.observe("hostile_headers")
    case.sig("h", h[:3000], len(h))
    case.check(dict(baggage.get_all(base)) == {"had": "1"}, "context-changed", "the given context changed")
    case.check(out.get("keep") == 1 and got.pop("had", None) == "1", "context-lost", "earlier baggage lost")
    if len(h) > 8192:
        case.check(got == {}, "over-total", f"{len(h)} bytes kept {len(got)} entries")
        case.observe("oversized_headers")
        return
    # walk the members in order
    kinds = {}
    want, maybe, count = {}, set(), 0
    slack = 0
    for idx, (m, kind) in enumerate(ms):
        if kind == "maybe" or ((idx in (0, len(ms) - 1)) and m != m.strip(" \t")):
            maybe.add(m.partition("=")[0].strip())
            slack += 1
            continue
        if kind != "ok":
            kinds[kind] = kinds.get(kind, 0) + 1
            continue
        count += 1
        if count > 180:
            break
        k, _, v = m.partition("=")
        want[k] = unquote_plus(v)
    for k in maybe:
        # whitespace members: either reading is fine, also when they repeat a key
        got.pop(k, None)
        want.pop(k, None)
    if slack and count > 180 - slack:
        return
    case.check(
        set(got) == set(want) and all(got[k] == want[k] or got[k] == want[k].strip() for k in want),
        "extract",
        f"missing {sorted(set(want) - set(got))[:5]} extra {sorted(set(got) - set(want))[:5]} different {[k for k in want if k in got and got[k] != want[k]][:3]} header {h[:600]!r}",
    )
    case.check(len(got) <= 180, "too-many", f"{len(got)} entries")
    case.observe("valid_kept", len(want))
    case.observe("malformed_skipped", kinds.get("bad", 0))
    case.observe("oversized_pairs", kinds.get("big", 0))
    if count > 180:
        case.observe("too_many_pairs")
    case.sample(h[:300])


def ambient_case(case):
    from opentelemetry import baggage
    from opentelemetry import context as ctxapi
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.context import Context

    def carriers(rng):
        h = ",".join(member(rng, i)[0] for i in range(rng.choice([1, 1, 2, 4])))
        return {"baggage": h} if rng.random() < 0.85 else {}

    ambient.run(case, lambda: [W3CBaggagePropagator()], carriers)
    # the baggage functions too: an empty context is not "no context"
    tok = ctxapi.attach(baggage.set_baggage("amb", "ient", context=Context({"ambient": 1})))
    try:
        e = Context()
        case.eq(dict(baggage.get_all(e)), {}, "ambient-context", "get_all of an empty context")
        case.eq(baggage.get_baggage("amb", e), None, "ambient-context", "get_baggage of an empty context")
        c = baggage.set_baggage("k", 1, context=e)
        case.check(dict(baggage.get_all(c)) == {"k": 1} and "ambient" not in c, "ambient-context", f"set_baggage in an empty context gave {dict(c)}")
        for c in (baggage.remove_baggage("amb", context=e), baggage.clear(context=e)):
            case.check(dict(baggage.get_all(c)) == {} and "ambient" not in c, "ambient-context", f"remove or clear in an empty context gave {dict(c)}")
        case.eq(dict(baggage.get_all()), {"amb": "ient"}, "ambient-context", "baggage of the current context")
    finally:
        ctxapi.detach(tok)


WORKLOADS = [
    Workload("ambient", ambient_case, quick=2000, thorough=40000),
    Workload("programs", programs, quick=5000, thorough=100000),
    Workload("roundtrip", roundtrip, quick=6000, thorough=150000),
    Workload("hostile", hostile, quick=6000, thorough=150000),
]
