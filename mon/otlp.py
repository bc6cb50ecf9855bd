"""Decoding of OTLP messages and canonical values, shared by the OTLP checks."""
import math
import struct
from collections.abc import Mapping, Sequence


def canon(v):
    """Type-aware canonical form of a value as it should come out of OTLP."""
    if v is None:
        return None
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, str):
        return ("s", str(v))
    if isinstance(v, int):
        return ("i", int(v))
    if isinstance(v, float):
        return ("d", "nan" if math.isnan(v) else struct.pack(">d", v))
    if isinstance(v, (bytes, bytearray)):
        return ("y", bytes(v))
    if isinstance(v, Mapping):
        return ("m", tuple(sorted((str(k), canon(x)) for k, x in v.items())))
    if isinstance(v, Sequence):
        return ("a", tuple(canon(x) for x in v))
    raise TypeError(v)


def decode(any_value):
    """AnyValue message -> canonical form."""
    kind = any_value.WhichOneof("value")
    if kind is None:
        return None
    x = getattr(any_value, kind)
    if kind == "array_value":
        return ("a", tuple(decode(y) for y in x.values))
    if kind == "kvlist_value":
        return ("m", tuple(sorted((kv.key, decode(kv.value)) for kv in x.values)))
    return {
        "bool_value": lambda: ("b", x),
        "string_value": lambda: ("s", x),
        "int_value": lambda: ("i", x),
        "double_value": lambda: ("d", "nan" if math.isnan(x) else struct.pack(">d", x)),
        "bytes_value": lambda: ("y", x),
    }[kind]()


def decode_attributes(kvs):
    out = {}
    for kv in kvs:
        assert kv.key not in out, f"attribute {kv.key!r} encoded twice"
        out[kv.key] = decode(kv.value)
    return tuple(sorted(out.items(), key=repr))


def encodable(v, top=True, nulls=False):
    """Whether OTLP can carry the value (None only where nulls are allowed)."""
    if v is None:
        return nulls
    if isinstance(v, bool) or isinstance(v, float) or isinstance(v, bytes):
        return True
    if isinstance(v, int):
        return -(2**63) <= v < 2**63
    if isinstance(v, str):
        try:
            v.encode()
        except UnicodeError:
            return False
        return True
    if isinstance(v, Mapping):
        return all(encodable(str(k)) and encodable(x, nulls=nulls) for k, x in v.items())
    if isinstance(v, Sequence):
        return all(encodable(x, nulls=nulls) for x in v)
    return False


def attributes(attrs):
    """What the encodable part of an attribute mapping should decode to; also the number that cannot be encoded."""
    out, bad = {}, 0
    for k, v in (attrs or {}).items():
        if encodable(k) and encodable(v):
            out[k] = canon(v)
        else:
            bad += 1
    return tuple(sorted(out.items(), key=repr)), bad


def resources(rng, gen, n=3):
    from opentelemetry.sdk.resources import Resource

    out = []
    for i in range(n):
        a = gen.attributes(rng, 3, none_in_seq=False)
        if rng.random() < 0.2:
            a["huge"] = 2**70
        out.append(Resource(a, rng.choice([None, "", "http://schema/1", "http://schema/2"])))
    if rng.random() < 0.3:
        # differs only in its schema url
        out.append(Resource(dict(out[0].attributes), "http://schema/only-url"))
    return out


def scopes(rng, n=3, unnamed=False):
    """(name, version, schema_url, attributes) of instrumentation scopes, some differing in a single field."""
    out = []
    for i in range(n):
        base = [rng.choice(["lib", "lib2", "l.i.b", "名"] + [""] * unnamed), rng.choice([None, "1", "2.0"]), rng.choice([None, "", "http://s/1", "http://s/2"]), rng.choice([None, None, {"a": "1"}, {"a": "2", "b": True}])]
        out.append(tuple(base))
        if rng.random() < 0.4:
            k = rng.randrange(4)
            base[k] = ["other", "9", "http://s/9", {"zz": "x"}][k]
            out.append(tuple(base))
    return out
