import asyncio
import contextvars
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

from mon import gen, quiet, sched
from mon.checks.p12 import in_thread
from mon.core import Workload

PROPERTY = "P14"
VENV = "pb5"
SCHED = True
REQUIRED = ["contexts", "attaches", "detaches", "bad_detaches", "foreign_tokens", "keys", "key_pairs_compared", "thread_units", "task_units", "copied_runs", "configured_runtimes", "runtime_fallbacks", "custom_runtimes"]
RULE = (
    "Random programs of create_key, set_value, attach, detach (nested, repeated, foreign, garbage tokens) in threads under the schedule "
    "fuzzer, asyncio tasks, copied contexts and raw threads, each checked against its own shadow stack; every context ever seen is compared with "
    "its snapshot at the end; thousands of keys created under one name are compared pairwise; fresh interpreters select a runtime by OTEL_PYTHON_CONTEXT; distinct = program plus context switches."
)
ASSUMPTIONS = ["contexts are only changed through the API (dict methods such as update() on a Context are not used)"]


class World:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.known = []  # (context, snapshot)
        self.keys = []
        self.tokens = []  # (token, owner unit)
        self.used = []
        self.problems = []

    def see(self, ctx):
        self.known.append((ctx, dict(ctx)))
        self.case.observe("contexts")
        return ctx

    def bad(self, msg):
        self.problems.append(msg)

    def verify(self):
        self.case.check(not self.problems, "context", "; ".join(self.problems[:3]))
        for ctx, snap in self.known:
            self.case.check(dict(ctx) == snap, "context-changed", f"{dict(ctx)} was {snap}")


class Unit:
    """One execution unit with its shadow stack of contexts."""

    def __init__(self, w, base):
        self.w = w
        self.stack = [base]  # contexts as dicts; [-1] is current
        self.tokens = []

    def expect(self, where):
        from opentelemetry import context as api

        cur = api.get_current()
        if dict(cur) != self.stack[-1]:
            self.w.bad(f"current context {where} is {dict(cur)} want {self.stack[-1]}")
        return cur

    def step(self, who):
        from opentelemetry import context as api
        from opentelemetry.context import Context

        w, rng, case = self.w, self.w.rng, self.w.case
        k = rng.randrange(10)
        cur = self.expect("before step")
        if k == 0:
            name = rng.choice(["a", "b", gen.string(rng)])
            key = api.create_key(name)
            case.observe("keys")
            if key in w.keys:
                w.bad(f"create_key({name!r}) repeated {key!r}")
            w.keys.append(key)
        elif k in (1, 2):
            key = rng.choice(w.keys + ["plain", "x"])
            val = rng.choice([None, 1, object(), [1], {"k": 2}])
            explicit = rng.choice([None, None, "old", "empty"])
            base = cur if explicit is None else Context() if explicit == "empty" or not w.known else rng.choice(w.known)[0]
            kw = {} if explicit is None else {"context": base}
            snap = dict(base)
            new = api.set_value(key, val, **kw)
            if new is base:
                w.bad("set_value returned the same context")
            if dict(base) != snap:
                w.bad("set_value changed an existing context")
            if dict(new) != {**snap, key: val}:
                w.bad(f"set_value({key!r}) gave {dict(new)}")
            if api.get_value(key, new) is not val:
                w.bad("get_value on the new context")
            other = rng.choice(w.keys + ["plain"])
            if other != key and api.get_value(other, context=new) is not snap.get(other):
                w.bad("get_value of another key changed")
            w.see(new)
            self.expect("after set_value")
        elif k in (3, 4, 5) and w.known:
            ctx = rng.choice(w.known)[0]
            tok = api.attach(ctx)
            case.observe("attaches")
            self.tokens.append(tok)
            self.stack.append(dict(ctx))
            w.tokens.append((tok, who))
            if self.expect("after attach") is not ctx:
                w.bad("attach made another context current")
            for key in w.keys[-2:]:
                if api.get_value(key) is not dict(ctx).get(key):
                    w.bad("get_value after attach")
        elif k in (6, 7) and self.tokens:
            tok = self.tokens.pop()
            self.stack.pop()
            api.detach(tok)
            case.observe("detaches")
            w.used.append((tok, who))
            self.expect("after detach")
        elif k == 8:
            cur = api.get_current()
            kind = rng.choice(["garbage", "used", "foreign", "var"])
            if kind == "garbage":
                api.detach(rng.choice([None, 5, "token", object(), [], cur]))
            elif kind == "used" and w.used:
                api.detach(rng.choice(w.used)[0])
            elif kind == "foreign":
                other = [t for t, o in w.tokens if o is not who]
                if not other:
                    return
                api.detach(rng.choice(other))
                case.observe("foreign_tokens")
            elif kind == "var":
                v = contextvars.ContextVar("v")
                api.detach(v.set(1))
            case.observe("bad_detaches")
            if api.get_current() is not cur:
                w.bad(f"detaching a {kind} token changed the context")
        elif k == 9:
            try:
                cur["direct"] = 1
                w.bad("a context accepted item assignment")
            except ValueError:
                pass
            self.expect("after item assignment")

    def unwind(self):
        from opentelemetry import context as api

        while self.tokens:
            api.detach(self.tokens.pop())
            self.stack.pop()
            self.expect("while unwinding")


def threads(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=200_000)
    box = {}

    def main():
        w = box["w"] = World(case)

        def body(i):
            case.observe("thread_units")
            u = Unit(w, {})
            who = object()
            for _ in range(rng.randrange(1, 10)):
                u.step(who)
                sched_point()
            if rng.random() < 0.7:
                u.unwind()

        ts = [threading.Thread(target=body, args=(i,)) for i in range(rng.randrange(2, 5))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def sched_point():
        import time

        if rng.random() < 0.3:
            time.sleep(0)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc))
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc}", tb=tb)
    box["w"].verify()
    case.sig(s.signature(), len(box["w"].known))


def mixed(case):
    """Tasks inherit a copy, threads start empty, copied contexts stay separate."""
    from opentelemetry import context as api

    rng = case.rng
    quiet.silence()
    w = World(case)
    shape = []

    async def unit(depth, base):
        case.observe("task_units")
        u = Unit(w, dict(base))
        who = object()
        kids = []
        for _ in range(rng.randrange(1, 9)):
            for _ in range(rng.randrange(0, 3)):
                await asyncio.sleep(0)
            r = rng.random()
            if r < 0.2 and depth < 3:
                kids.append(asyncio.ensure_future(unit(depth + 1, u.stack[-1])))
                shape.append("task")
            elif r < 0.28:

                def job():
                    t = Unit(w, {})
                    me = object()
                    for _ in range(rng.randrange(1, 6)):
                        t.step(me)

                in_thread(job)
                case.observe("thread_units")
                shape.append("thread")
            elif r < 0.36:
                # a copied contextvars context: same values, separate afterwards
                c = contextvars.copy_context()
                base = u.stack[-1]

                def inner():
                    t = Unit(w, dict(base))
                    me = object()
                    for _ in range(rng.randrange(1, 6)):
                        t.step(me)

                c.run(inner)
                case.observe("copied_runs")
                shape.append("copy")
            elif r < 0.42 and depth < 3:
                shape.append("await")
                await asyncio.ensure_future(unit(depth + 1, u.stack[-1]))
            else:
                u.step(who)
                shape.append("s")
            u.expect("in task")
        for k in kids:
            await k
            u.expect("after child task")
        if rng.random() < 0.5:
            u.unwind()

    asyncio.run(unit(0, {}))
    if dict(api.get_current()) != {}:
        w.bad("the loop leaked a context")
    w.verify()
    case.sig(shape, rng.random())
    case.sample(shape)


def keys(case):
    """Many keys, mostly of one name, from two threads, with the program's own random source reset in between."""
    import random

    from opentelemetry import context as api

    rng = case.rng
    quiet.silence()
    seen = []
    name = rng.choice(["k", "", "a-b", gen.string(rng)])
    seed = rng.random()

    def make(n):
        seen.extend([api.create_key(name if rng.random() < 0.9 else gen.string(rng)) for _ in range(n)])

    for _ in range(2):
        # the application may seed Python's generator at any time
        random.seed(seed)
        make(700)
        in_thread(lambda: make(700))
    case.observe("keys", len(seen))
    case.observe("key_pairs_compared", len(seen) * (len(seen) - 1) // 2)
    case.check(len(set(seen)) == len(seen), "key-collision", f"{len(seen) - len(set(seen))} of {len(seen)} keys repeated")
    ctx = api.Context()
    for i, k in enumerate(seen[:50]):
        ctx = api.set_value(k, i, ctx)
    case.check([api.get_value(k, ctx) for k in seen[:50]] == list(range(50)), "key-collision", "values of distinct keys mixed")
    case.sig(name, rng.random())


# --- the runtime named by the environment ----------------------------------------------------------------------------------

RUNTIMES = """
import contextvars, threading
from opentelemetry.context.context import Context, _RuntimeContext

calls = []


class Custom(_RuntimeContext):
    def __init__(self):
        self.local = threading.local()

    def attach(self, context):
        calls.append("attach")
        token = object()
        tokens = self.local.__dict__.setdefault("tokens", {})
        tokens[token] = self.get_current()
        self.local.current = context
        return token

    def get_current(self):
        return getattr(self.local, "current", Context())

    def detach(self, token):
        calls.append("detach")
        self.local.current = self.local.tokens.pop(token)


class Raising(_RuntimeContext):
    def __init__(self):
        raise {error}("no runtime")

    attach = get_current = detach = None
"""

CHILD = """
import json, logging, sys, threading
errors = []
h = logging.Handler()
h.emit = lambda r: errors.append(r.getMessage())
logging.getLogger("opentelemetry").addHandler(h)
logging.getLogger("opentelemetry").propagate = False
from opentelemetry import context as api

wrong = []
ops = json.loads(sys.argv[1])


def program():
    stack, tokens = [{}], []
    for op in ops:
        if dict(api.get_current()) != stack[-1]:
            wrong.append([dict(api.get_current()), stack[-1]])
        if op is None:
            if tokens:
                api.detach(tokens.pop())
                stack.pop()
        elif op == "bad":
            api.detach(7)
        else:
            c = api.set_value(op[0], op[1])
            tokens.append(api.attach(c))
            stack.append({**stack[-1], op[0]: op[1]})
    if dict(api.get_current()) != stack[-1]:
        wrong.append([dict(api.get_current()), stack[-1]])
    while tokens:
        api.detach(tokens.pop())
        stack.pop()
        if dict(api.get_current()) != stack[-1]:
            wrong.append([dict(api.get_current()), stack[-1]])


loading = len(errors)
token = api.attach(api.set_value("outer", 1))
t = threading.Thread(target=program)
t.start()
t.join()
seen = dict(api.get_current())
api.detach(token)
program()
custom = sys.modules.get("mon_runtimes")
print(json.dumps({"wrong": wrong[:2], "seen": seen, "loading": loading, "custom": custom.calls[:1] if custom else []}))
"""


def configured(case):
    """Whichever runtime the environment names, contexts behave the same, and a runtime that cannot be loaded is replaced by the default."""
    rng = case.rng
    name = [None, "contextvars_context", "mon_custom", "mon_absent", "mon_no_module", "mon_no_class", "mon_raising", ""][case.index % 8]
    ops = []
    for _ in range(rng.randint(4, 25)):
        r = rng.random()
        ops.append(None if r < 0.4 else "bad" if r < 0.5 else [rng.choice("abc"), rng.randint(0, 9)])
    root = tempfile.mkdtemp(prefix="mon14-")
    try:
        info = os.path.join(root, "monruntimes-1.0.dist-info")
        os.mkdir(info)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: monruntimes\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[opentelemetry_context]\nmon_custom = mon_runtimes:Custom\nmon_raising = mon_runtimes:Raising\nmon_no_module = mon_nowhere:Custom\nmon_no_class = mon_runtimes:Nothing\n")
        with open(os.path.join(root, "mon_runtimes.py"), "w") as f:
            f.write(RUNTIMES.replace("{error}", rng.choice(["ValueError", "RuntimeError", "OSError"])))
        env = {k: v for k, v in os.environ.items() if not k.startswith("OTEL_")}
        env["PYTHONPATH"] = os.pathsep.join([root] + [p for p in sys.path if p])
        if name is not None:
            env["OTEL_PYTHON_CONTEXT"] = name
        r = subprocess.run([sys.executable, "-c", CHILD, json.dumps(ops)], env=env, cwd=root, capture_output=True, text=True)
    finally:
        shutil.rmtree(root)
    ctx = f"OTEL_PYTHON_CONTEXT={name!r}"
    case.check(r.returncode == 0, "runtime-failed", lambda: f"{ctx}: {r.stderr[-400:]}")
    out = json.loads(r.stdout.splitlines()[-1])
    case.check(not out["wrong"], "runtime-context", lambda: f"{ctx}: current context (was, wanted): {out['wrong']}")
    case.eq(out["seen"], {"outer": 1}, "runtime-isolation", f"{ctx}: after another thread attached contexts")
    case.eq(bool(out["custom"]), name == "mon_custom", "runtime-selected", f"{ctx}: the custom runtime was used")
    fallback = name not in (None, "contextvars_context", "mon_custom")
    if name != "":
        case.eq(out["loading"] > 0, fallback, "runtime-fallback-reported", f"{ctx}: errors logged while loading")
    case.observe("runtime_fallbacks" if fallback else "configured_runtimes")
    if name == "mon_custom":
        case.observe("custom_runtimes")
    case.sig(name, str(ops))


WORKLOADS = [
    Workload("keys", keys, quick=60, thorough=1500),
    Workload("threads", threads, quick=3000, thorough=60000),
    Workload("mixed", mixed, quick=3000, thorough=60000),
    Workload("configured", configured, quick=32, thorough=400, chunk=2),
]
