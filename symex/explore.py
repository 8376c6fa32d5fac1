"""Path exploration: re-execution over a pool of forked processes."""

import os
import pickle
import random
import selectors
import signal
import sys
import time
import traceback

from . import engine as E
from .engine import ENGINE, HarnessStop, PathAbort, SymBool, SymInt


class PathTimeout(BaseException):
    pass


class SymCtx:
    """Harness interface, symbolic side."""

    symbolic = True

    def __init__(self, params=None):
        self.params = params or {}
        self.obs = []
        self.finished = False

    # symbolic data ------------------------------------------------------------------
    def choose(self, name, n):
        return ENGINE.choose(name, n)

    def flag(self, name):
        return bool(ENGINE.choose(name, 2))

    def oneof(self, name, seq):
        return seq[ENGINE.choose(name, len(seq))]

    def symflag(self, name):
        return ENGINE.new_bool(name)

    def char(self, name, alphabet):
        return ENGINE.new_char(name, alphabet)

    def word(self, name, n, alphabet):
        return "".join(ENGINE.new_char(f"{name}.{i}", alphabet) for i in range(n))

    def int(self, name, lo, hi):
        return ENGINE.new_int(name, lo, hi)

    # assertions ---------------------------------------------------------------------
    def assume(self, cond):
        ENGINE.assume(cond)

    def check(self, cond, msg):
        ENGINE.check_assert(cond, str(msg))

    def fail(self, msg):
        ENGINE.check_assert(False, str(msg))

    def observe(self, value):
        self.obs.append(value)

    def known(self, kf, msg):
        ENGINE.check_assert(False, f"[{kf}] {msg}")

    def stop(self):
        raise HarnessStop()

    def done(self):
        self.finished = True
        raise HarnessStop()


def _flatten(v, model):
    if isinstance(v, str):
        return ENGINE.subst(v, model)
    if isinstance(v, SymBool):
        import z3

        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return model.eval(v.e, model_completion=True).as_long()
    if isinstance(v, (list, tuple)):
        return [_flatten(x, model) for x in v]
    if isinstance(v, dict):
        return {str(_flatten(k, model)): _flatten(x, model) for k, x in v.items()}
    return v


def _short_tb(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if "/symex/" not in f.filename]
    return " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(fr[-3:]))


def run_path(fn, params, prefix, path_timeout, want_witness):
    ENGINE.reset(prefix)
    st0 = dict(ENGINE.stats)
    ctx = SymCtx(params)

    def on_alarm(*_):
        raise PathTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, path_timeout)
    status = "ok"
    try:
        try:
            fn(ctx)
            status = "end"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except HarnessStop:
        status = "done" if ctx.finished else "stop"
    except PathAbort as a:
        status = "abort:" + a.why
    except PathTimeout:
        status = "timeout"
        try:
            m = ENGINE.get_model()
            if m is not None:
                ENGINE.candidates.append(
                    (f"hang: no answer within {path_timeout} s", ENGINE.assignment(m))
                )
        except BaseException:
            pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as ex:  # SystemExit and exceptions escaping the harness
        status = "exception"
        try:
            m = ENGINE.get_model()
            if m is not None:
                ENGINE.candidates.append(
                    (
                        f"unexpected {type(ex).__name__}: {str(ex)[:200]} at {_short_tb(ex)}",
                        ENGINE.assignment(m),
                    )
                )
        except BaseException:
            pass
    if len(ENGINE.decisions) < len(prefix) and not status.startswith("abort"):
        ENGINE.incomplete.append("nondeterministic-replay")
    out = {
        "status": status,
        "alts": ENGINE.new_alternatives,
        "cands": [(m, a) for m, a in ENGINE.candidates],
        "incomplete": ENGINE.incomplete,
        "depth": len(ENGINE.decisions),
        "nvars": len(ENGINE.vars),
        "stats": {k: ENGINE.stats[k] - st0[k] for k in st0},
    }
    if status == "done" and want_witness:
        m = ENGINE.get_model()
        if m is not None:
            out["witness"] = (
                ENGINE.assignment(m),
                [_flatten(o, m) for o in ctx.obs],
            )
            subst = lambda s: ENGINE.subst(s, m)
            out["sample"] = {k: v for k, v in list(ENGINE.assignment(m).items())[:40]}
    return out


_FUNCS = set()


def _monitor(root):
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, "symex")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(root):
            _FUNCS.add((os.path.relpath(code.co_filename, root), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def _child(fn, params, prefix, path_timeout, want_witness, batch, slice_s, wfd, root):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    _monitor(root)
    t0 = time.time()
    stack, results = [prefix], []
    while stack and len(results) < batch and (not results or time.time() - t0 < slice_s):
        p = stack.pop()
        _FUNCS.clear()
        r = run_path(fn, params, p, path_timeout, want_witness)
        stack.extend(r.pop("alts"))
        results.append(r)
        if r["cands"]:
            break
    data = pickle.dumps((results, stack, list(_FUNCS)))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


class Exploration:
    def __init__(self):
        self.paths = 0
        self.statuses = {}
        self.incomplete = {}
        self.cands = []
        self.witnesses = []
        self.samples = []
        self.funcs = set()
        self.stats = {}
        self.pending = 0
        self.maxdepth = 0
        self.nvars = 0
        self.wall = 0.0
        self.crashed = 0

    @property
    def exhaustive(self):
        return self.pending == 0 and not self.incomplete and not self.crashed


def explore(
    fn,
    params,
    budget_s,
    *,
    jobs=8,
    path_timeout=20,
    batch=1,
    slice_s=0.5,
    witness_rate=0.1,
    max_paths=10**9,
    seed=1,
    root="/repo",
    on_candidate=None,
):
    """Explore all paths of fn(ctx).  on_candidate(msg, assignment) -> True stops."""
    ex = Exploration()
    rnd = random.Random(seed)
    queue = [[]]
    sel = selectors.DefaultSelector()
    live = {}
    t0 = time.time()
    stop = False
    launched = 0
    while (queue or live) and not stop:
        while (
            queue
            and len(live) < jobs
            and time.time() - t0 < budget_s
            and launched < max_paths
        ):
            # half depth-first, half uniformly random: bounded memory, diverse prefix
            i = len(queue) - 1 if rnd.random() < 0.5 else rnd.randrange(len(queue))
            queue[i], queue[-1] = queue[-1], queue[i]
            prefix = queue.pop()
            r, w = os.pipe()
            want = ex.paths < 20 or rnd.random() < witness_rate
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    _child(fn, params, prefix, path_timeout, want, batch, slice_s, w, root)
                    code = 0
                except BaseException:
                    if os.environ.get("SYMEX_DEBUG"):
                        traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            launched += 1
            live[r] = [pid, bytearray(), time.time()]
            sel.register(r, selectors.EVENT_READ)
        if not live:
            break
        for key, _ in sel.select(timeout=1.0):
            fd = key.fd
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd][1].extend(chunk)
                continue
            sel.unregister(fd)
            os.close(fd)
            pid, data, _ = live.pop(fd)
            os.waitpid(pid, 0)
            if not data:
                ex.crashed += 1
                continue
            results, rest, funcs = pickle.loads(bytes(data))
            queue.extend(rest)
            ex.funcs.update(funcs)
            for r in results:
                ex.paths += 1
                ex.statuses[r["status"]] = ex.statuses.get(r["status"], 0) + 1
                for why in set(r["incomplete"]):
                    ex.incomplete[why] = ex.incomplete.get(why, 0) + 1
                for k, v in r["stats"].items():
                    ex.stats[k] = ex.stats.get(k, 0) + v
                ex.maxdepth = max(ex.maxdepth, r["depth"])
                ex.nvars = max(ex.nvars, r["nvars"])
                if "witness" in r:
                    ex.witnesses.append(r["witness"])
                    if len(ex.samples) < 5:
                        ex.samples.append(r["sample"])
                for c in r["cands"]:
                    ex.cands.append(c)
                    if on_candidate is not None and on_candidate(*c):
                        stop = True
        now = time.time()
        for fd, (pid, data, start) in list(live.items()):
            if now - start > path_timeout * max(1, min(batch, 4)) + 30:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
    for fd, (pid, data, start) in list(live.items()):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        sel.unregister(fd)
        os.close(fd)
        os.waitpid(pid, 0)
        ex.pending += 1
    ex.pending += len(queue)
    ex.wall = time.time() - t0
    return ex
