"""Concrete side: run a harness on the real, uninstrumented code under given values.

As a server (no arguments): reads JSON requests on stdin, one per line, and answers each
with one JSON line.  Every request runs in a forked process.
As a command:  concrete.py REPLAY.json   runs one saved replay and reports the outcome.
"""

import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [VERIF, REPO]


class Violation(BaseException):
    pass


class OutOfScope(BaseException):
    pass


class Stop(BaseException):
    pass


class ConcreteCtx:
    symbolic = False

    def __init__(self, assignment, params):
        self.a, self.params, self.obs = assignment, params or {}, []

    def choose(self, name, n):
        v = self.a.get(name, 0)
        return v if 0 <= v < n else 0

    def flag(self, name):
        return bool(self.choose(name, 2))

    def oneof(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def symflag(self, name):
        return bool(self.a.get(name, False))

    def char(self, name, alphabet):
        return self.a.get(name, alphabet[0])

    def word(self, name, n, alphabet):
        return "".join(self.a.get(f"{name}.{i}", alphabet[0]) for i in range(n))

    def int(self, name, lo, hi):
        return self.a.get(name, lo)

    def assume(self, cond):
        if not cond:
            raise OutOfScope()

    def check(self, cond, msg):
        if not cond:
            raise Violation(str(msg))

    def fail(self, msg):
        raise Violation(str(msg))

    def known(self, kf, msg):
        raise Violation(f"[{kf}] {msg}")

    def observe(self, value):
        self.obs.append(value)

    def stop(self):
        raise Stop()

    def done(self):
        raise Stop("done")


def _plain(v):
    if isinstance(v, str):
        return str(v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    return v


class Hang(BaseException):
    pass


def run_one(req):
    mod = importlib.import_module(req["module"])
    fn = getattr(mod, req["fn"])
    ctx = ConcreteCtx(req["assignment"], req.get("params"))

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    limit = req.get("timeout", 20)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = {"status": "ok", "msg": ""}
    try:
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Stop as s:
        out["status"] = "done" if s.args else "stop"
    except OutOfScope:
        out["status"] = "out-of-scope"
    except Violation as v:
        out = {"status": "violation", "msg": v.args[0]}
    except Hang:
        out = {"status": "violation", "msg": f"hang: no answer within {limit} s"}
    except BaseException as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = " < ".join(
            f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:])
        )
        out = {
            "status": "violation",
            "msg": f"unexpected {type(ex).__name__}: {str(ex)[:200]} at {where}",
        }
    out["obs"] = _plain(ctx.obs)
    return out


def forked(req):
    """Run one request in a child with a scratch working directory."""
    r, w = os.pipe()
    scratch = tempfile.mkdtemp(prefix="vfc_")
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            os.chdir(scratch)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(null, 2)
            data = json.dumps(run_one(req)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    deadline = req.get("timeout", 20) + 20
    while True:
        ok, _, _ = select.select([r], [], [], deadline)
        if not ok:
            os.killpg(pid, signal.SIGKILL)
            data = b""
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if not data:
        return {"status": "error", "msg": "replay process died", "obs": []}
    return json.loads(data)


def serve():
    importlib.import_module("harness.common")
    for line in sys.stdin:
        req = json.loads(line)
        try:
            importlib.import_module(req["module"])
        except BaseException as ex:
            sys.stdout.write(
                json.dumps({"status": "error", "msg": f"import: {ex!r}", "obs": []}) + "\n"
            )
            sys.stdout.flush()
            continue
        sys.stdout.write(json.dumps(forked(req)) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            req = json.load(f)
        res = run_one(req) if os.environ.get("VERIF_DEBUG") else forked(req)
        print(json.dumps({"property": req.get("property"), "outcome": res}, indent=1)[:20000])
        sys.exit(1 if res["status"] == "violation" else 0)
    serve()
