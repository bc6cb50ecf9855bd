from mon import quiet
from mon.core import Workload

PROPERTY = "P16"
VENV = "pb5"
SCHED = False
REQUIRED = ["operations", "full_lists", "rejected_ops", "updates", "deletes", "roundtrips", "parsed_headers", "rejected_headers"]
RULE = (
    "Random programs of add, update, delete, construct, serialise and parse over an independent ordered-list model with its own W3C grammar, "
    "around the 32-entry limit, with valid and invalid keys and values; and generated or mutated header lists; distinct = program or header."
)
ASSUMPTIONS = ["whitespace around list members may be tolerated or make the header invalid"]


def key_ok(k):
    """W3C key, written independently of the code under test."""
    if not isinstance(k, str) or not k:
        return False
    lc = set("abcdefghijklmnopqrstuvwxyz")
    rest = lc | set("0123456789_-*/")
    if "@" in k:
        t, _, s = k.partition("@")
        return 1 <= len(t) <= 241 and t[0] in lc | set("0123456789") and set(t) <= rest and 1 <= len(s) <= 14 and s[0] in lc and set(s) <= rest
    return len(k) <= 256 and k[0] in lc and set(k) <= rest


def value_ok(v):
    return isinstance(v, str) and 1 <= len(v) <= 256 and all(0x20 <= ord(c) <= 0x7E and c not in ",=" for c in v) and not v.endswith(" ")


def model_parse(headers):
    """(well formed, acceptable results) for a list of tracestate headers."""
    strict, loose, ok = [], [], True
    for h in headers:
        for raw in h.split(","):
            m = raw.strip(" \t")
            if not m:
                continue
            k, eq, v = m.partition("=")
            if not eq or not key_ok(k) or not value_ok(v):
                # a value may start with blanks that stripping cannot remove
                ok = False
                continue
            strict.append((k, v))
    dup = len({k for k, _ in strict}) != len(strict)
    if not ok or dup or len(strict) > 32:
        return False, [[]]
    blanks = any(m != m.strip(" \t") for h in headers for m in h.split(","))
    return True, [strict, []] if blanks else [strict]


KEYS = ["a", "b", "c1", "k/x", "z*_-", "0t@sys", "tenant@v", "a" * 256, "b" * 241 + "@" + "c" * 14]
BADKEYS = ["", "A", "1a", "a b", "a=b", "a,b", "é", "a" * 257, "@a", "a@", "a@1", "b" * 242 + "@c", "a@" + "c" * 15, "a@b@c", "_a", None, 5, "a\n", "key\x00", b"a"]
VALUES = ["1", "x" * 256, " lead", "!~", "a b", "v:1;2", '"q"']
BADVALUES = ["", "a,b", "a=b", "tail ", "é", "x" * 257, "a\tb", "\n", " ", None, 7, "a\n", "\x7f"]


def pick_key(rng, n=40):
    r = rng.random()
    if r < 0.08:
        return rng.choice(BADKEYS)
    if r < 0.25:
        return rng.choice(KEYS)
    return f"k{rng.randrange(n)}"


def pick_value(rng):
    r = rng.random()
    if r < 0.08:
        return rng.choice(BADVALUES)
    if r < 0.3:
        return rng.choice(VALUES)
    return f"v{rng.randrange(100)}"


def state_ok(case, st, where):
    items = list(st.items())
    case.check(len(items) <= 32 and len(st) == len(items), "too-many", f"{where}: {len(items)} entries")
    for k, v in items:
        case.check(key_ok(k) and value_ok(v), "malformed-entry", f"{where}: {k!r}={v!r}")
    case.check(len({k for k, _ in items}) == len(items), "duplicate-key", f"{where}: {items}")
    case.check(list(st) == [k for k, _ in items] == list(st.keys()) and list(st.values()) == [v for _, v in items], "views", f"{where}: views disagree")
    for k, v in items:
        case.check(st[k] == v and k in st and st.get(k) == v, "lookup", f"{where}: {k}")
    return items


def roundtrip(case, st, items):
    from opentelemetry.trace import TraceState

    h = st.to_header()
    case.check(h == ",".join(f"{k}={v}" for k, v in items), "header", f"{h!r}")
    back = TraceState.from_header([h]) if items else TraceState.from_header([h] if h else [])
    case.eq(list(back.items()), items, "roundtrip", "parsed own header")
    # the same list over several headers
    if len(items) > 1:
        cut = case.rng.randrange(1, len(items))
        hs = [",".join(f"{k}={v}" for k, v in part) for part in (items[:cut], items[cut:])]
        case.eq(list(TraceState.from_header(hs).items()), items, "roundtrip", "parsed over two headers")
    case.observe("roundtrips")


def program(case):
    from opentelemetry.trace import TraceState

    rng = case.rng
    quiet.silence()
    n = rng.choice([0, 0, 1, 3, 10, 30, 31, 32, 33, 40])
    narrow = rng.choice([8, 40, 200])
    if n >= 30 and rng.random() < 0.7:
        entries = [(f"k{i}", pick_value(rng)) for i in range(n)]
    else:
        entries = [(pick_key(rng, narrow), pick_value(rng)) for _ in range(n)]
    entries = [(k, v) for k, v in entries]
    given = list(entries)
    st = TraceState(entries if rng.random() < 0.5 or entries else None)
    case.check(entries == given, "caller-changed", "the caller's list changed")
    items = state_ok(case, st, "constructed")
    # validated pairs, first of each key, in order; nothing at all when the list is too long
    want, seen = [], set()
    for k, v in entries:
        if key_ok(k) and value_ok(v) and k not in seen:
            want.append((k, v))
            seen.add(k)
    if len(entries) <= 32:
        case.eq(items, want, "construct", f"from {entries}")
    else:
        case.check(items == [] or (items == want and len(want) <= 32), "construct", f"{items} from {len(entries)} entries")
    trace = [("new", len(entries))]
    old = [(st, items)]
    model = items
    for _ in range(rng.randrange(1, 14)):
        op = rng.choice(["add", "add", "update", "update", "delete", "rt"])
        k, v = pick_key(rng, narrow), pick_value(rng)
        if op != "add" and model and rng.random() < 0.6:
            k = rng.choice(model)[0]
        case.observe("operations")
        if op == "add":
            bad = not key_ok(k) or not value_ok(v) or k in dict(model) or len(model) >= 32
            new = st.add(k, v)
            exp = model if bad else [(k, v)] + model
        elif op == "update":
            bad = not key_ok(k) or not value_ok(v) or (k not in dict(model) and len(model) >= 32)
            new = st.update(k, v)
            exp = model if bad else [(k, v)] + [e for e in model if e[0] != k]
            case.observe("updates")
        elif op == "delete":
            bad = k not in dict(model)
            new = st.delete(k)
            exp = [e for e in model if e[0] != k]
            case.observe("deletes")
        else:
            roundtrip(case, st, model)
            continue
        if bad:
            case.observe("rejected_ops")
        if len(model) == 32:
            case.observe("full_lists")
        trace.append((op, k if isinstance(k, str) and len(k) < 20 else "odd", bad))
        got = state_ok(case, new, op)
        case.check(got == exp, op, f"{op}({k!r}, {v!r}) on {model} gave {got} want {exp}")
        case.check(bad or new is not st, "mutated", f"{op} returned the same object")
        case.check(new == st if bad else True, "not-equal", f"invalid {op} changed the trace state")
        for o, oi in old:
            case.check(list(o.items()) == oi, "original-changed", f"{op} changed an existing trace state")
        st, model = new, exp
        old.append((st, model))
    for bad_write in (lambda: st.__setitem__("a", "b"), lambda: st.__delitem__("a"), lambda: st.clear()):
        try:
            bad_write()
        except (TypeError, AttributeError):
            pass
        case.check(list(st.items()) == model, "mutable", "a trace state was modified in place")
    roundtrip(case, st, model)
    case.sig(trace)
    case.sample(trace)


def header(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 31, 32, 33])
    parts = []
    for i in range(n):
        k = pick_key(rng, 60) if rng.random() < 0.3 else f"q{i}"
        v = pick_value(rng) if rng.random() < 0.3 else f"v{i}"
        if rng.random() < 0.7:
            k = k if key_ok(k) else "ok" + str(i)
            v = v if value_ok(v) else "ok"
        parts.append(f"{k}={v}")
        if rng.random() < 0.05:
            parts[-1] = rng.choice(["", "=", "k", "=v", "k=", "k==v", "\x00", " ", "k=v=w", "\t"])
    sep = rng.choice([",", ",", ",", ", ", " ,\t", ",,"])
    h = sep.join(parts)
    if rng.random() < 0.1:
        i = rng.randrange(len(h) + 1)
        h = h[:i] + rng.choice([" ", ",", "=", "é", "\n", "\x00", "A", "@", "\ud800"]) + h[i:]
    if rng.random() < 0.03:
        h = rng.choice([" " + h, h + " ", h + ",", "," + h, h * 50, "x" * 20000, "\n" + h])
    return h


def headers(case):
    from opentelemetry.trace import TraceState

    rng = case.rng
    quiet.silence()
    hs = [header(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    st = TraceState.from_header(hs)
    items = state_ok(case, st, "parsed")
    ok, alts = model_parse(hs)
    case.check(items in alts, "parse", f"{hs!r} gave {items} want one of {alts}")
    roundtrip(case, st, items)
    case.observe("parsed_headers" if ok else "rejected_headers")
    case.sig("h", hs)


WORKLOADS = [
    Workload("program", program, quick=8000, thorough=200000),
    Workload("headers", headers, quick=16000, thorough=400000),
]
