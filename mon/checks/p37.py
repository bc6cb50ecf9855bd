import logging
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import types
from urllib import parse

from mon import gen, quiet
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P37"
VENV = "pb5"
SCHED = False
REQUIRED = [
    "merges", "merge_chains", "schema_kept", "schema_taken", "schema_equal", "schema_conflicts", "conflict_errors", "overridden_keys", "inputs_compared", "write_attempts", "equal_hashes", "equal_hashes_across_types", "creations", "env_pairs", "env_malformed",
    "env_percent", "env_overridden_by_code", "service_name_env", "service_name_default", "service_name_code", "service_name_executable", "detected", "detector_conflicts", "detector_faults", "detector_load_failures", "detector_schema_conflicts",
    "aggregations", "failing_detectors", "foreign_results", "hung_detectors", "starving_cases", "raise_on_error",
]
RULE = (
    "Resources, environments and detector sets are generated; the result of every merge, creation and aggregation is compared with an independent model; inputs are snapshotted before and after. "
    "Detectors are real entry points of a scratch distribution and fail in every way: at load, construction and detection, with foreign results, or by never returning. distinct = the inputs."
)
ASSUMPTIONS = [
    "detectors are merged in the order they are configured, 'otel' last unless it is listed itself",
    "a detector that hangs is given a generous time-out before the others are said to be lost",
    "a detector that asks for raise_on_error gets its error raised, as documented",
    "percent sequences that are not valid UTF-8 are not generated",
]

LOG = "opentelemetry.sdk.resources"
URLS = ["", "", "https://example.com/schemas/1.0", "https://example.com/schemas/2.0", "urn:x"]


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.n = 0

    def emit(self, record):
        self.n += 1

    def __enter__(self):
        logging.getLogger(LOG).addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.getLogger(LOG).removeHandler(self)


class Model:
    """An independent resource: a dict and a schema URL."""

    def __init__(self, attributes, url):
        self.d = {k: c for k, v in (attributes or {}).items() if (c := gen.clean(k, v)) is not gen.BAD}
        self.url = url or ""
        self.conflicts = 0

    def merge(self, o):
        m = Model({}, "")
        m.conflicts = self.conflicts + o.conflicts
        if self.url and o.url and self.url != o.url:
            m.d, m.url = dict(self.d), self.url
            m.conflicts += 1
        else:
            m.d, m.url = {**self.d, **o.d}, self.url or o.url
        return m


def same(case, got, model, mechanism, msg):
    case.check(
        gen.same_map_unordered(dict(got.attributes), model.d) and got.schema_url == model.url,
        mechanism,
        lambda: f"{msg}: got {dict(got.attributes)!r} schema {got.schema_url!r}, expected {model.d!r} schema {model.url!r}",
    )


def attrs(rng, n=4):
    a = gen.attributes(rng, n)
    if rng.random() < 0.15:
        a[rng.choice(["bad", "k"])] = rng.choice([None, object(), {"a": 1}, [1, "a"]])
    if rng.random() < 0.1:
        a[""] = "no key"
    return a


def variant(rng, v):
    """A value that compares equal but may be of another type."""
    if isinstance(v, bool):
        return rng.choice([v, int(v), float(v)])
    if isinstance(v, int) and abs(v) < 2**53:
        return rng.choice([v, float(v)] + ([bool(v)] if v in (0, 1) else []))
    if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
        return rng.choice([v, int(v)])
    if isinstance(v, (list, tuple)):
        return rng.choice([list, tuple])(v)
    return v


def merge(case):
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    with quiet.capture():
        n = rng.randrange(2, 5)
        given = [(attrs(rng), rng.choice(URLS)) for _ in range(n)]
        dicts = [dict(a) for a, _ in given]
        rs = [Resource(d, u) if u or rng.random() < 0.5 else Resource(d) for d, (_, u) in zip(dicts, given)]
        ms = [Model(a, u) for a, u in given]
        for d in dicts:  # the caller's mappings stay the caller's
            d["later"] = 1
            d.pop("k", None)
        for r, m in zip(rs, ms):
            same(case, r, m, "resource-content", "a resource does not hold the attributes it was made of")
        acc, model = rs[0], ms[0]
        for i in range(1, n):
            with Errors() as e:
                before = acc
                acc = acc.merge(rs[i])
            nxt = model.merge(ms[i])
            case.observe("merges")
            if nxt.conflicts > model.conflicts:
                case.observe("schema_conflicts")
                case.check(e.n > 0, "conflict-not-reported", lambda: f"merging schema {ms[i].url!r} into {model.url!r} reported no error")
                case.observe("conflict_errors")
            else:
                case.check(e.n == 0, "spurious-error", lambda: f"merging schema {ms[i].url!r} into {model.url!r} reported an error")
                case.observe("schema_equal" if ms[i].url == model.url else "schema_taken" if not model.url else "schema_kept")
                case.observe("overridden_keys", len(set(model.d) & set(ms[i].d)))
            same(case, before, model, "input-changed", "the updated resource changed by merging")
            same(case, rs[i], ms[i], "input-changed", "the updating resource changed by merging")
            model = nxt
            same(case, acc, model, "merge-result", f"merging resource {i} of {given!r}")
        case.observe("merge_chains")
        for r, m in zip(rs, ms):
            same(case, r, m, "input-changed", "a resource changed by merging")
            case.observe("inputs_compared")
        # the merged one is its own
        for r in rs + [acc]:
            try:
                r.attributes["monitor"] = "x"
            except TypeError:
                pass
            case.observe("write_attempts")
            case.check("monitor" not in r.attributes, "mutable", "the attributes of a resource can be changed")
        # equality and hashing
        target, url = (dict(acc.attributes), acc.schema_url)
        items = list(target.items())
        rng.shuffle(items)
        twin = Resource({k: list(v) if isinstance(v, tuple) and rng.random() < 0.5 else v for k, v in items}, url)
        case.check(acc == twin, "equal-resources", "two resources of the same attributes and schema differ")
        case.check(hash(acc) == hash(twin), "unequal-hashes", lambda: f"equal resources {dict(acc.attributes)!r} and {dict(twin.attributes)!r} hash differently")
        case.check(not (acc == dict(acc.attributes)) and not (acc == None) and acc != "resource", "equality", "a resource equals something that is no resource")  # noqa: E711
        case.observe("equal_hashes")
        other = Resource({k: variant(rng, v) for k, v in items}, url)
        if acc == other:
            case.check(hash(acc) == hash(other), "unequal-hashes", lambda: f"equal resources {dict(acc.attributes)!r} and {dict(other.attributes)!r} hash differently")
            case.observe("equal_hashes_across_types" if any(type(acc.attributes[k]) is not type(other.attributes[k]) for k in target) else "equal_hashes")
        case.check(acc != Resource({**target, "one more": 1}, url) and acc != Resource(target, url + "x"), "unequal-resources", "resources with other attributes or schema compare equal")
        case.sig(repr(given))


# --- creation -----------------------------------------------------------------------------------------------------

DIST = {}
BEHAVE = {}


def distribution():
    """A scratch distribution with resource detectors, put on sys.path."""
    if DIST:
        return
    import atexit

    root = tempfile.mkdtemp(prefix="mon-p37-")
    atexit.register(shutil.rmtree, root, True)
    info = os.path.join(root, "mondetectors-1.0.dist-info")
    os.mkdir(info)
    names = [f"mon{c}" for c in "abcdefgh"]
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: mondetectors\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        f.write("[opentelemetry_resource_detector]\n")
        for n in names:
            f.write(f"{n} = mon_p37_detectors:{n}\n")
        f.write("monnomodule = mon_p37_missing:x\nmonnoattr = mon_p37_detectors:missing\n")
    mod = types.ModuleType("mon_p37_detectors")
    for n in names:
        setattr(mod, n, lambda n=n: make(BEHAVE[n]))
    sys.modules["mon_p37_detectors"] = mod
    sys.path.insert(0, root)
    DIST["names"] = names


def make(behaviour):
    from opentelemetry.sdk.resources import Resource, ResourceDetector

    kind, attributes, url, delay = behaviour
    if kind == "constructor":
        raise ValueError("cannot construct")

    class Detector(ResourceDetector):
        def detect(self):
            if delay:
                time.sleep(delay)
            if kind == "raises":
                raise random.choice([ValueError, KeyError, OSError])("cannot detect")
            if kind == "foreign":
                return attributes
            return Resource(attributes, url)

    return Detector()


def env_attributes(case, rng):
    """A value of OTEL_RESOURCE_ATTRIBUTES and what it stands for."""
    d, items = {}, []
    for _ in range(rng.randrange(0, 6)):
        r = rng.random()
        if r < 0.15:
            items.append(rng.choice(["", " ", "novalue", "=onlyvalue", " = ", "%3D"]))
            case.observe("env_malformed")
            continue
        key = rng.choice(["k", "k1", "a.b", "http.x", "service.name", "service.version", "deployment.environment", "k-2", "A_b", "process.executable.name"])
        value = gen.string(rng) if rng.random() < 0.6 else rng.choice(["1", "true", "a=b", "x+y", "50%", "a b", "=", "k=v=w", '"q"', ""])
        if rng.random() < 0.6:
            text = parse.quote(value, safe=rng.choice(["", "/", "=+", " "]))
            want = value
            if text.strip() != text:
                want = parse.unquote(text.strip())
            if "%" in text:
                case.observe("env_percent")
        else:
            value = "".join(c for c in value if c not in ",%\x00")
            text, want = value, value.strip()
        if "\x00" in text:
            continue
        d[key] = want
        items.append(rng.choice(["", "", " ", "\t"]) + key + rng.choice(["", "", " "]) + "=" + rng.choice(["", "", " "]) + text + rng.choice(["", "", " "]))
        case.observe("env_pairs")
    return (",".join(items) if items or rng.random() < 0.5 else None), d


def create(case):
    from importlib.metadata import version

    from opentelemetry.sdk.resources import ProcessResourceDetector, Resource

    rng = case.rng
    distribution()
    with quiet.capture():
        text, from_env = env_attributes(case, rng)
        env = {}
        if text is not None:
            env["OTEL_RESOURCE_ATTRIBUTES"] = text
        if rng.random() < 0.4:
            env["OTEL_SERVICE_NAME"] = rng.choice(["svc", "my service", "a,b=c", "svc%20x", "日本", ""])
            if env["OTEL_SERVICE_NAME"]:
                from_env["service.name"] = env["OTEL_SERVICE_NAME"]
                case.observe("service_name_env")
        otel = Model(from_env, "")
        # detectors
        contributions, names = {}, []
        BEHAVE.clear()
        for n in DIST["names"]:
            kind = rng.choice(["ok"] * 5 + ["raises", "constructor", "foreign"])
            a = attrs(rng, 3)
            if rng.random() < 0.2:
                a[rng.choice(["service.name", "process.executable.name"])] = rng.choice(["det", "", "x/y"])
            if kind == "foreign":
                a = rng.choice([None, {}, {"a": 1}, "text", 5])
            BEHAVE[n] = (kind, a, rng.choice(URLS), rng.choice([0, 0, 0, 0.002, 0.004]))
            contributions[n] = Model(a, BEHAVE[n][2]) if kind == "ok" else None
        if rng.random() < 0.6:
            pool = DIST["names"] + ["monnomodule", "monnoattr", "no such detector", "otel", "process"]
            names = rng.sample(pool, rng.randrange(1, 7))
            env["OTEL_EXPERIMENTAL_RESOURCE_DETECTORS"] = ",".join(rng.choice(["", " "]) + n + rng.choice(["", " "]) for n in names) + rng.choice(["", ",", ", "])
        elif rng.random() < 0.3:
            env["OTEL_EXPERIMENTAL_RESOURCE_DETECTORS"] = rng.choice(["", " ", ","])
        model = Model({"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry", "telemetry.sdk.version": version("opentelemetry-sdk")}, "")
        seen = {}
        for n in names if "otel" in names else names + ["otel"]:
            if n == "otel":
                c = otel
            elif n == "process":
                c = Model(dict(ProcessResourceDetector().detect().attributes), "")
            else:
                c = contributions.get(n)
                case.observe("detected" if c else "detector_faults" if n in contributions else "detector_load_failures")
            if c is None:
                continue
            for k in c.d:
                if k in seen:
                    case.observe("detector_conflicts")
                seen[k] = n
            before = model.conflicts
            model = model.merge(c)
            if model.conflicts > before:
                case.observe("detector_schema_conflicts")
        code, url = (attrs(rng), rng.choice(URLS))
        if rng.random() < 0.3:
            code["service.name"] = rng.choice(["code", "", "svc2"])
        if rng.random() < 0.1:
            code["process.executable.name"] = rng.choice(["exe", "/usr/bin/x", 5])
        if rng.random() < 0.1:
            code["telemetry.sdk.name"] = "mine"
        if rng.random() < 0.1:
            code = {}
        case.observe("env_overridden_by_code", len(set(code) & set(otel.d)))
        model = model.merge(Model(code, url))
        if not model.d.get("service.name"):
            exe = model.d.get("process.executable.name")
            model.d["service.name"] = f"unknown_service:{exe}" if exe else "unknown_service"
            case.observe("service_name_default")
            if exe:
                case.observe("service_name_executable")
        elif code.get("service.name") == model.d["service.name"]:
            case.observe("service_name_code")
        kept = dict(code)
        with environment(env):
            try:
                style = rng.randrange(3)
                if style == 0 and not code and not url:
                    got = Resource.create()
                elif style == 1 and not url:
                    got = Resource.create(code)
                else:
                    got = Resource.create(code, url)
            except Exception as exc:  # noqa: BLE001
                case.fail("creation-raised", f"Resource.create({code!r}, {url!r}) with {env!r} and detectors {BEHAVE!r} raised {exc!r}")
                return
        case.observe("creations")
        context = f"Resource.create({code!r}, {url!r}) with {env!r} and detectors { {n: BEHAVE.get(n) for n in names}!r}"
        for k in ("telemetry.sdk.language", "telemetry.sdk.name", "telemetry.sdk.version"):
            case.check(bool(got.attributes.get(k)), "no-identity", lambda: f"{context} has no {k}")
        case.check(bool(got.attributes.get("service.name")), "no-service-name", lambda: f"{context} has no service name")
        same(case, got, model, "created-resource", context)
        case.check(list(kept) == list(code) and all(kept[k] is code[k] for k in code), "input-changed", "the attributes given to create() were changed")
        case.sig(repr(sorted(env.items())), repr(sorted(code)), url)
    # deterministic: the same again
        with environment(env):
            again = Resource.create(code, url)
        case.check(got == again and hash(got) == hash(again), "not-deterministic", lambda: f"{context} gave another resource the second time")


# --- aggregation --------------------------------------------------------------------------------------------------


def run_aggregation(plan, initial, timeout):
    """Returns (resource or None, exception or None, still running) of one aggregation; plan: (kind, attributes, url, raise_on_error)."""
    from opentelemetry.sdk.resources import Resource, ResourceDetector, get_aggregated_resources

    release = threading.Event()

    class Boom(Exception):
        pass

    class Detector(ResourceDetector):
        def __init__(self, kind, attributes, url, strict):
            super().__init__(raise_on_error=strict)
            self.a = (kind, attributes, url)

        def detect(self):
            kind, attributes, url = self.a
            if kind == "hangs":
                release.wait(300)
                return Resource({"hung": True})
            if kind == "raises":
                raise Boom("cannot detect")
            if kind == "timeout":
                raise TimeoutError("my own")
            if kind == "foreign":
                return attributes
            if kind == "delayed":
                time.sleep(0.003)
            return Resource(attributes, url)

    out = {}

    def call():
        try:
            out["r"] = get_aggregated_resources([Detector(*p) for p in plan], initial, timeout)
        except Exception as exc:  # noqa: BLE001
            out["e"] = exc

    t = threading.Thread(target=call, daemon=True)
    t.start()
    t.join(60 + 2 * timeout * len(plan))
    stuck = t.is_alive()
    release.set()
    t.join(120)
    return out.get("r"), out.get("e"), stuck


def judge(case, rng, plan, timeouts):
    from opentelemetry.sdk.resources import Resource

    base = (attrs(rng, 2), rng.choice(URLS))
    initial = Resource(*base)
    model = Model(*base)
    strict = False
    for kind, a, url, raising in plan:
        if kind in ("ok", "delayed"):
            model = model.merge(Model(a, url))
        elif raising:
            strict = True
    what = f"aggregating {[(p[0], p[1], p[2]) for p in plan]!r} over {base!r}"
    for i, timeout in enumerate(timeouts):
        got, exc, stuck = run_aggregation(plan, initial, timeout)
        case.observe("aggregations")
        case.check(not stuck, "hung", lambda: f"{what} did not return although every detector had timed out")
        if strict:
            case.observe("raise_on_error")
            case.check(exc is not None, "error-swallowed", lambda: f"{what}: a detector with raise_on_error failed but nothing was raised")
            return
        case.check(exc is None, "aggregation-raised", lambda: f"{what} raised {exc!r}")
        if exc is not None:
            return
        if i + 1 < len(timeouts) and not gen.same_map_unordered(dict(got.attributes), model.d):
            continue  # perhaps only a busy machine: give them longer
        same(case, got, model, "aggregated-resource", what)
        same(case, initial, Model(*base), "input-changed", "the initial resource changed by aggregating")
        return


def aggregate(case):
    rng = case.rng
    with quiet.capture():
        for _ in range(10):
            plan = []
            for _ in range(rng.randrange(0, 9)):
                kind = rng.choice(["ok", "ok", "ok", "delayed", "raises", "timeout", "foreign"])
                a = attrs(rng, 3) if kind in ("ok", "delayed") else rng.choice([None, {}, {"a": 1}, "text", 5])
                case.observe({"raises": "failing_detectors", "timeout": "failing_detectors", "foreign": "foreign_results"}.get(kind, "detected"))
                plan.append((kind, a, rng.choice(URLS), kind in ("raises", "timeout") and rng.random() < 0.1))
            judge(case, rng, plan, [60])
            case.sig(repr(plan))


def hang(case):
    rng = case.rng
    with quiet.capture():
        starve = case.index % 2 == 0
        n = rng.randrange(4, 7) if starve else rng.randrange(1, 3)
        plan = [("hangs", {}, "", False)] * n + [("ok", {**attrs(rng, 2), f"own{i}": i}, "", False) for i in range(rng.randrange(1, 4))] + [("raises", {}, "", False)]
        if not starve:
            if rng.random() < 0.4:
                plan[0] = ("hangs", {}, "", True)
                case.observe("strict_hung_detectors")
            rng.shuffle(plan)
        case.observe("hung_detectors", n)
        if starve:
            case.observe("starving_cases")
        judge(case, rng, plan, [0.5, 2, 6])
        case.sig(repr(plan))


WORKLOADS = [
    Workload("merge", merge, 4000, 120000),
    Workload("create", create, 1500, 30000),
    Workload("aggregate", aggregate, 100, 3000),
    Workload("hang", hang, 16, 160),
]
