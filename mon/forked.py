"""Run a function in a forked child and bring its result (or exception) back."""
import os
import pickle
import select
import signal
import time
import traceback


class ChildFailed(Exception):
    pass


def call(fn, timeout=240):
    """fn() runs in the child; its return value must pickle."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = pickle.dumps(("ok", fn()))
            except BaseException as exc:  # noqa
                out = pickle.dumps(("exc", type(exc).__name__, str(exc)[:2000], traceback.format_exc()[-3000:], getattr(exc, "mechanism", None)))
            while out:
                n = os.write(w, out)
                out = out[n:]
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildFailed("child did not finish")
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise ChildFailed("child died")
    return pickle.loads(buf)
