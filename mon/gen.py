"""Generators of values and small independent models shared by the checks."""

import math

STRS = ["", "a", "A", " ", "key", "http.method", "näme", "日本語", "😀", "a" * 40, "x\x00y", "line\nfeed", "tab\t", "%20", '"quoted"', "é" * 17, "back\\slash", "{}", "<&>", "a,b=c;d"]
INTS = [0, 1, -1, 2, 127, 255, 256, 2**31 - 1, -(2**31), 2**53, 2**63 - 1, -(2**63)]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-300, 1e300, 5e-324, 1.7976931348623157e308, math.pi, math.inf, -math.inf]


def string(rng, empty=True):
    r = rng.random()
    if r < 0.4:
        s = rng.choice(STRS)
    elif r < 0.8:
        s = "".join(rng.choice("abcxyz019._-") for _ in range(rng.randrange(0, 12)))
    else:
        s = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xA0, 0x250), rng.randrange(0x4E00, 0x4F00), rng.randrange(0x1F600, 0x1F640)])) for _ in range(rng.randrange(0, 30)))
    if not s and not empty:
        s = "z"
    if r >= 0.99:  # as long as a statement or a stack trace
        s = (s or "z") * rng.choice([20, 150, 700])
    return s


def key(rng):
    return rng.choice(["k", "key", "a.b", "a_b", "http.status_code", "Ключ", "x"]) + rng.choice(["", "", str(rng.randrange(6))])


def integer(rng):
    return rng.choice(INTS) if rng.random() < 0.5 else rng.randrange(-(2**rng.randrange(1, 63)), 2 ** rng.randrange(1, 63))


def floating(rng, special=True):
    if rng.random() < 0.4:
        f = rng.choice(FLOATS)
        if not special and not math.isfinite(f):
            f = 2.5
        return f
    return rng.choice([rng.random(), rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20)])


def scalar(rng):
    return rng.choice([lambda: rng.random() < 0.5, lambda: integer(rng), lambda: floating(rng), lambda: string(rng)])()


def value(rng, none_in_seq=True):
    """A valid attribute value."""
    if rng.random() < 0.7:
        return scalar(rng)
    mk = rng.choice([lambda: rng.random() < 0.5, lambda: integer(rng), lambda: floating(rng), lambda: string(rng)])
    seq = [mk() for _ in range(rng.randrange(0, 5))]
    if none_in_seq and rng.random() < 0.2:
        seq.insert(rng.randrange(len(seq) + 1), None)
    return rng.choice([list, tuple])(seq)


def attributes(rng, n=4, none_in_seq=True, keys=key):
    return {keys(rng): value(rng, none_in_seq) for _ in range(rng.randrange(0, n + 1))}


_SCALARS = (bool, str, bytes, int, float)
BAD = object()


def clean_scalar(v, limit):
    if isinstance(v, bytes):
        try:
            v = v.decode("utf-8")
        except UnicodeDecodeError:
            return None
    if isinstance(v, str) and limit is not None:
        v = v[:limit]
    return v


def clean(k, v, limit=None):
    """Independent reference of what an attribute becomes; BAD = dropped."""
    from collections.abc import Sequence

    if not isinstance(k, str) or k == "":
        return BAD
    if isinstance(v, _SCALARS):
        c = clean_scalar(v, limit)
        return BAD if c is None else c
    if isinstance(v, Sequence):
        out, kind = [], None
        for e in v:
            c = None if e is None else clean_scalar(e, limit)
            if c is not None:
                if type(c) not in _SCALARS:
                    return BAD
                if kind is None:
                    kind = type(c)
                elif kind is not type(c):
                    return BAD
            out.append(c)
        return tuple(out)
    return BAD


def same(a, b):
    """Equality that distinguishes types and tolerates NaN."""
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def same_map(a, b):
    return list(a) == list(b) and all(same(a[k], b[k]) for k in b)


def same_map_unordered(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in b)


class BoundedMap:
    """Reference of a bounded attribute map: newest kept, drops counted."""

    def __init__(self, maxlen, limit, initial=None):
        self.maxlen, self.limit = maxlen, limit
        self.d, self.dropped = {}, 0
        for k, v in (initial or {}).items():
            self.put(k, v)

    def put(self, k, v):
        if self.maxlen == 0:
            self.dropped += 1
            return
        c = clean(k, v, self.limit)
        if c is BAD:
            return
        if k in self.d:
            del self.d[k]
        elif self.maxlen is not None and len(self.d) >= self.maxlen:
            del self.d[next(iter(self.d))]
            self.dropped += 1
        self.d[k] = c


class BoundedSeq:
    def __init__(self, maxlen):
        self.maxlen = maxlen
        self.all = []

    def put(self, x):
        self.all.append(x)

    @property
    def held(self):
        if self.maxlen is None:
            return self.all
        return self.all[len(self.all) - self.maxlen :] if self.maxlen and len(self.all) > self.maxlen else (self.all if len(self.all) <= self.maxlen else [])

    @property
    def dropped(self):
        return len(self.all) - len(self.held)


def span_context(rng, valid=True, remote=None, flags=None, state=True):
    from opentelemetry.trace import SpanContext, TraceFlags, TraceState

    tid = rng.choice([1, 2**128 - 1, 2**64, rng.getrandbits(128) or 1, rng.getrandbits(64) or 1])
    sid = rng.choice([1, 2**64 - 1, rng.getrandbits(64) or 1, rng.getrandbits(32) or 1])
    if not valid:
        which = rng.randrange(3)
        tid = 0 if which != 1 else tid
        sid = 0 if which != 0 else sid
    st = TraceState([(f"k{i}", f"v{rng.randrange(100)}") for i in range(rng.randrange(0, 4))]) if state else TraceState()
    return SpanContext(
        tid,
        sid,
        is_remote=rng.random() < 0.5 if remote is None else remote,
        trace_flags=TraceFlags(rng.choice([0, 1]) if flags is None else flags),
        trace_state=st,
    )
