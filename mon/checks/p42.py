import abc
import asyncio
import contextlib
import os
import shutil
import sys
import tempfile
import threading
import types

from mon import quiet
from mon.core import Workload

PROPERTY = "P42"
VENV = "pb5"
REQUIRED = [
    "raised", "quiet_blocks", "handled", "several_handlers", "not_matching", "handled_by_default", "no_handlers", "raising_handlers", "failing_constructors", "unloadable_handlers", "not_a_class", "nested_blocks", "reraised_inside", "threads", "coroutines",
    "parent_exceptions", "several_distributions", "reused_handler_object", "loops", "chained",
]
RULE = (
    "Random sets of error handlers are registered through scratch distributions on sys.path: for random exception classes, some raising, failing to construct or impossible to load. Random blocks (nested, in loops, threads and coroutines) "
    "raise or do not; every call of a handler and every logged exception is compared with the set the documentation asks for."
)
ASSUMPTIONS = [
    "as documented, a handler is called when the class of the exception is a parent of the handler's class (or the same as one of its bases); exceptions are instances of Exception, each entry point names another class",
    "handlers raise instances of Exception; whether those failures are logged is not checked",
]

NAME = "mon42_handlers"


class Custom(Exception):
    pass


class Sub(Custom):
    pass


class Strange(LookupError, ArithmeticError):
    def __str__(self):
        return "strange"


class Unprintable(Exception):
    def __str__(self):
        raise RuntimeError("no text")

    __repr__ = __str__


class Falsy(Exception):
    def __bool__(self):
        return False


EXCEPTIONS = [Falsy, ZeroDivisionError, ArithmeticError, LookupError, KeyError, IndexError, ValueError, OSError, Exception, Custom, Sub, Strange, Unprintable]


@contextlib.contextmanager
def registered(groups):
    """Entry points of scratch distributions: [[(name, value)]]."""
    roots = []
    try:
        for i, entries in enumerate(groups):
            root = tempfile.mkdtemp(prefix="mon42-")
            roots.append(root)
            info = os.path.join(root, f"monhandlers{i}-1.0.dist-info")
            os.mkdir(info)
            with open(os.path.join(info, "METADATA"), "w") as f:
                f.write(f"Metadata-Version: 2.1\nName: monhandlers{i}\nVersion: 1.0\n")
            with open(os.path.join(info, "entry_points.txt"), "w") as f:
                f.write("[opentelemetry_error_handler]\n" + "".join(f"{n} = {v}\n" for n, v in entries) + "[other_group]\nx = nowhere:X\n")
            sys.path.insert(0, root)
        yield
    finally:
        for root in roots:
            if root in sys.path:
                sys.path.remove(root)
            shutil.rmtree(root)
        sys.modules.pop(NAME, None)


def handler_class(name, base, faulty, calls):
    from opentelemetry.sdk.error_handler import ErrorHandler

    lock = threading.Lock()

    def __init__(self, *args):
        if faulty == "construct":
            raise RuntimeError("cannot construct")

    def _handle(self, error, *args, **kwargs):
        with lock:
            calls.append((name, error))
        if faulty == "raise":
            raise RuntimeError("handler failed")
        if faulty == "reraise":
            raise error

    return abc.ABCMeta(name, (ErrorHandler, base), {"__init__": __init__, "_handle": _handle})


class World:
    def __init__(self, case, rng):
        self.calls, self.handlers = [], {}
        module = types.ModuleType(NAME)
        sys.modules[NAME] = module
        self.groups = [[] for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(self.groups) > 1:
            case.observe("several_distributions")
        for i in range(rng.choice([0, 1, 2, 3, 6])):
            name = f"H{i}"
            faulty = rng.choice([None] * 8 + ["raise", "reraise", "construct", "load", "attribute", "object"])
            base = rng.choice(EXCEPTIONS)
            value = f"{NAME}:{name}"
            if faulty == "load":
                value = f"{NAME}_missing:{name}"
            elif faulty == "attribute":
                pass
            elif faulty == "object":
                setattr(module, name, "not a class")
            else:
                setattr(module, name, handler_class(name, base, faulty, self.calls))
            if faulty in ("load", "attribute"):
                case.observe("unloadable_handlers")
            elif faulty == "object":
                case.observe("not_a_class")
            self.handlers[name] = (base, faulty)
            rng.choice(self.groups).append((name.lower(), value))

    def matching(self, exc):
        return [n for n, (base, faulty) in self.handlers.items() if faulty not in ("load", "attribute", "object") and issubclass(base, type(exc))]

    def expect(self, case, exc, recs):
        """What must have happened for one exception."""
        match = self.matching(exc)
        got = sorted(n for n, e in self.calls if e is exc)
        want = sorted(n for n in match if self.handlers[n][1] != "construct")
        what = f"{type(exc).__name__} with handlers { {n: (b.__name__, f) for n, (b, f) in self.handlers.items()} }"
        case.eq(got, want, "handlers", f"handlers called for {what}")
        succeeded = [n for n in match if self.handlers[n][1] is None]
        logged = sum(1 for r in recs if r.exc_info and r.exc_info[1] is exc and r.levelno >= 40)
        reraised = sum(self.handlers[n][1] == "reraise" for n in match)
        if succeeded:
            case.check(logged <= reraised, "default", lambda: f"the default handler logged {what} though it was handled")
            case.observe("handled")
            case.observe("several_handlers", len(match) > 1)
            case.observe("parent_exceptions", any(self.handlers[n][0] is not type(exc) for n in succeeded))
        else:
            case.check(1 <= logged <= 1 + reraised, "default", lambda: f"{what} was logged {logged} times instead of once by the default handler")
            case.observe("handled_by_default")
        case.observe("not_matching", len(self.handlers) - len(match))
        case.observe("no_handlers", not self.handlers)
        case.observe("raising_handlers", sum(self.handlers[n][1] in ("raise", "reraise") for n in match))
        case.observe("failing_constructors", sum(self.handlers[n][1] == "construct" for n in match))


def blocks(case):
    from opentelemetry.sdk.error_handler import GlobalErrorHandler

    rng = case.rng
    world = World(case, rng)
    excs, shape = [], []
    shared = GlobalErrorHandler()

    def make():
        exc = rng.choice(EXCEPTIONS)(rng.choice(["", "m"]))
        excs.append(exc)
        case.observe("raised")
        return exc

    def handler():
        if rng.random() < 0.3:
            case.observe("reused_handler_object")
            return shared
        return GlobalErrorHandler()

    def run(fn, what):
        try:
            fn()
        except Exception as e:  # noqa: B902
            case.fail("escaped", f"{type(e).__name__} left the error handler's block ({what})")

    def plain():
        exc, after = make(), []
        with handler():
            raise exc
        after.append(1)

    def chained():
        exc = make()
        case.observe("chained")
        with handler():
            try:
                raise KeyError("first")
            except KeyError as e:
                raise exc from e

    def quiet_block():
        case.observe("quiet_blocks")
        with handler():
            pass

    def nested():
        case.observe("nested_blocks")
        ran = []
        with handler():
            inner = make()
            with handler():
                raise inner
            ran.append(1)
            if rng.random() < 0.5:
                raise make()
        case.eq(ran, [1], "continues", "what ran after the inner block")

    def caught():
        case.observe("reraised_inside")
        with handler():
            try:
                raise ValueError("caught inside")
            except ValueError:
                pass

    def loop():
        case.observe("loops")
        n = 0
        for _ in range(3):
            with handler():
                if rng.random() < 0.5:
                    raise make()
            n += 1
        case.eq(n, 3, "continues", "iterations of a loop around the block")

    def value():
        def f():
            with handler():
                return 5

        case.eq(f(), 5, "continues", "value returned out of the block")

    def coroutine():
        case.observe("coroutines")

        async def one():
            exc = make()
            with handler():
                await asyncio.sleep(0)
                raise exc

        async def main():
            await asyncio.gather(one(), one())

        asyncio.run(main())

    def threads():
        case.observe("threads")
        mine = [make() for _ in range(3)]
        escaped = []

        def go(exc):
            try:
                with GlobalErrorHandler():
                    raise exc
            except BaseException as e:  # noqa: B902
                escaped.append(e)

        ts = [threading.Thread(target=go, args=(e,)) for e in mine]
        [t.start() for t in ts]
        [t.join() for t in ts]
        case.eq([type(e).__name__ for e in escaped], [], "escaped", "exceptions that left the block in a thread")

    with registered(world.groups), quiet.capture() as recs:
        for _ in range(rng.choice([1, 2, 4])):
            fn = rng.choice([plain, plain, chained, quiet_block, nested, caught, loop, value, coroutine, threads])
            shape.append(fn.__name__)
            run(fn, fn.__name__)
        for exc in excs:
            world.expect(case, exc, recs)
        known = {id(e) for e in excs}
        case.check(all(id(e) in known for _, e in world.calls), "handlers", "a handler was called for something else")
        other = [r for r in recs if r.exc_info and r.exc_info[1] is not None and isinstance(r.exc_info[1], ValueError) and "caught inside" in str(r.exc_info[1].args)]
        case.check(not other, "default", "an exception caught inside the block was handled")
        if not excs:
            case.eq(len(recs), 0, "default", "records logged though nothing was raised")
    case.sig(tuple(shape), tuple(sorted((b.__name__, str(f)) for b, f in world.handlers.values())))


WORKLOADS = [Workload("blocks", blocks, 800, 15000, 100)]
