"""C14: log messages are formatted and filtered as configured."""

import io
import json
import re
import sys

from rsm import linter, rsmlogger

from .common import *

ASSUMPTIONS = [
    "levels are 10 or more (lower ones are raised to DEBUG, says the code)",
    "the logging module of the standard library and the JSON encoder are executed, not encoded; "
    "levels, flags and the characters of messages are decided by the solver",
]

ANSI = re.compile(r"\x1b\[[0-9;]*m")
NAMES = {10: "DBG", 20: "INF", 25: "LINT", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}
SPECIAL = "ab\"\\/%{}\n\t'<&$"
A, B = "\u2039", "\u203a"  # enclose the message: not in the alphabet


class Log:
    """The RSM logger with its standard error stream captured; the old state comes back."""

    def __enter__(self):
        self.log = logging.getLogger("RSM")
        self.old = (sys.stderr, self.log.level, self.log.handlers[:])
        linter.Linter()  # names its level
        self.err = sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stderr, level, handlers = self.old
        self.log.handlers[:] = handlers
        self.log.setLevel(level)
        return False

    def text(self):
        return self.err.getvalue()


def level_name(ctx, lvl):
    for k in NAMES:
        if lvl == k:
            return NAMES[k]
    return None  # as the logging module calls it


def position(ctx):
    """Nothing, or the extra fields that locate a message."""
    if not ctx.flag("located"):
        return {}
    n = ctx.params["pos"]
    keys = ["start_row", "start_col", "end_row", "end_col"]
    vals = ctx.oneof("pos", [[0, 7, 27, 0], [3, 14, 3, 15], [10, 0, 11, 120], [0, 0, 0, 0]][:n])
    return dict(zip(keys, vals))


def message(ctx):
    """(message, arguments, text of the message)"""
    kind = ctx.oneof("kind", ["plain", "args"])
    w = "".join(ctx.char("m%d" % i, SPECIAL) for i in range(ctx.params["chars"])) + ctx.oneof("u", ["", "é𝔸"])
    if kind == "plain":
        return A + w + B, (), w
    return A + "%s at %d%%" + B, (w, 12), w + " at 12%"


def split(ctx, out):
    """What comes before and after the message, and the message."""
    ctx.check(out.count(A) == 1 and out.count(B) == 1, "the message does not appear once")
    pre, rest = out.split(A)
    msg, post = rest.split(B)
    ctx.check(post.endswith("\n"), "no end of line")
    return ANSI.sub("", pre), msg, ANSI.sub("", post[:-1])


def formats(ctx):
    fmt = ctx.oneof("fmt", ["rsm", "json", "lint", "plain"])
    time, lineno = ctx.symflag("time"), ctx.symflag("lineno")
    lvl = ctx.oneof("level", [10, 20, 25, 30, 40, 50, 33])
    name = ctx.oneof("logger", ["RSM", "RSM.child"])
    extra = position(ctx)
    msg, args, want = message(ctx)
    with Log() as log:
        rsmlogger.config_rsm_logger(10, fmt, time, lineno)
        logging.getLogger(name).log(lvl, msg, *args, extra=extra)
        out = log.text()
    lname = level_name(ctx, lvl) or logging.getLevelName(lvl)
    if fmt == "json":
        ctx.check(out.endswith("\n") and out.count("\n") == 1, "json: not one line")
        # a symbolic character written as it is may need an escape
        out = "".join(next((x for x in '"\\\n\t' if c == x), c) for c in out)
        try:
            d = json.loads(out)
        except ValueError:
            ctx.fail("json: not a JSON document")
        ctx.check(d.get("name") == name, "json: name")
        ctx.check(d.get("level") == lname, "json: level")
        ctx.check(d.get("msg") == A + want + B, "json: message")
        ctx.check(("time" in d) == bool(time), "json: time stamp")
        ctx.check(("lineno" in d) == bool(lineno), "json: line number")
        ctx.done()
    pre, got, post = split(ctx, out)
    ctx.check(got == want, "the message is not the one that was logged")
    if fmt == "plain":
        ctx.check(pre == "" and post == "", "plain: more than the message")
    elif fmt == "lint":
        at = "%d:%d" % (extra["start_row"], extra["start_col"]) if extra else "1:1"
        ctx.check(pre == "src:" + at + ": " + lname + ": ", "lint: position and level")
        ctx.check(post == "", "lint: more than the message")
    else:
        if time:
            ctx.check(bool(re.match(r"\d\d:\d\d:\d\d ", pre)), "rsm: no time stamp")
            pre = pre[9:]
        ctx.check(pre == name + " " + lname.ljust(3) + " | ", "rsm: name and level")
        if lineno:
            m = re.search(r" \([^() ]+:\d+\)$", post)
            ctx.check(m is not None, "rsm: no line number")
            post = post[: m.start()]
        at = " | (%d, %d) - (%d, %d) | " % tuple(extra.values()) if extra else ""
        ctx.check(post == at, "rsm: position")
    ctx.done()


def levels(ctx):
    """Any number of configurations; records of any level."""
    n = ctx.params["configs"]
    fmts = ["plain", "lint"]
    with Log() as log:
        for i in range(1 + ctx.choose("configs", n)):
            level = ctx.int("level%d" % i, 10, 60)
            fmt = ctx.oneof("fmt%d" % i, fmts)
            if ctx.flag("more%d" % i):  # something is logged in between
                log.log.log(60, "between")
            rsmlogger.config_rsm_logger(level, fmt, ctx.symflag("t%d" % i), ctx.symflag("l%d" % i))
        start = len(log.text())
        recs = []
        for j in range(ctx.params["records"]):
            r = ctx.int("rec%d" % j, 1, 60)
            recs.append(r)
            name = ["RSM", "RSM.child", "RSM"][j]
            logging.getLogger(name).log(r, "message%d" % j)
        out = log.text()[start:]
    lines = out.splitlines()
    for j, r in enumerate(recs):
        hits = [x for x in lines if x.endswith("message%d" % j)]
        if r >= level:
            ctx.check(len(hits) == 1, "a record of the configured level or above is not emitted once")
            pre = hits[0][: -len("message%d" % j)]
            ctx.check(pre == "" if fmt == "plain" else pre.startswith("src:1:1: "),
                      "a record is not in the form configured last")
        else:
            ctx.check(hits == [], "a record below the configured level is emitted")
    ctx.check([x[-1] for x in lines] == sorted(x[-1] for x in lines), "records out of order")
    ctx.done()


def long(ctx):
    """More configurations and more records, in one form."""
    between = ctx.flag("between")
    with Log() as log:
        n = ctx.oneof("configs", [3, 5])
        for i in range(n):
            level = ctx.int("level%d" % i, 10, 60) if i > n - 3 else 10 + 10 * i
            rsmlogger.config_rsm_logger(level, "plain")
            if between:
                log.log.log(60, "between")
        start = len(log.text())
        recs = [ctx.int("rec%d" % j, 1, 60) for j in range(ctx.params["records"])]
        for j, r in enumerate(recs):
            log.log.log(r, "message%d" % j)
        lines = log.text()[start:].splitlines()
    ctx.check(lines == ["message%d" % j for j, r in enumerate(recs) if r >= level], "other records are emitted")
    ctx.done()


class Target(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, record):
        self.got.append(record)


def gather(ctx):
    """Any sequence of records and flushes."""
    chosen = [x for x in ctx.params["levels"] if ctx.symflag("g%d" % x)]
    with_target = ctx.flag("target")
    target = Target() if with_target else None
    h = rsmlogger.GatherHandler(chosen, target)
    kept, passed = [], []
    try:
        for i in range(ctx.params["steps"]):
            step = ctx.oneof("step%d" % i, ctx.params["kinds"])
            if step == "flush":
                h.flush()
                if target:
                    passed += kept
                    kept = []
            else:
                lvl = ctx.int("lvl%d" % i, 1, 60)
                rec = logging.LogRecord("RSM", 30, "f", 1, "m%d" % i, None, None)
                rec.levelno = lvl
                (h.handle if step == "handle" else h.emit)(rec)
                if any(lvl == c for c in chosen):
                    kept.append(rec)
            ctx.check([r.msg for r in h.buffer] == [r.msg for r in kept], "what is kept")
            if target:
                ctx.check([r.msg for r in target.got] == [r.msg for r in passed], "what is passed on")
    finally:
        h.buffer = []
        h.close()
    ctx.done()


def gathered(ctx):
    """More records and flushes."""
    gather(ctx)


HARNESSES = [
    dict(fn=formats, params={"chars": 3, "pos": 2}, thorough={"chars": 4, "pos": 4}, witness_rate=0.05,
         bounds="4 formats, flags, 7 levels, 2 loggers, with and without position and arguments; messages of "
                "3 (thorough 4) symbolic characters out of %r" % SPECIAL),
    dict(fn=levels, params={"configs": 2, "records": 2}, thorough={"configs": 3, "records": 3}, witness_rate=0.05,
         bounds="1 to 2 (thorough 3) configurations with any level from 10 to 60, 2 (thorough 3) records of any "
                "level from 1 to 60"),
    dict(fn=gather, params={"kinds": ["record", "flush", "handle"], "steps": 3, "levels": [25, 40]}, thorough={"steps": 4, "levels": [10, 30, 40]}, witness_rate=0.05,
         bounds="any subset of 2 (thorough 3) levels, any sequence of 3 (thorough 4) steps, any level from 1 to 60"),
    dict(fn=gathered, params={"kinds": ["record", "flush"], "steps": 6, "levels": [25]}, thorough={"steps": 8}, witness_rate=0.03,
         budget={"quick": 60, "thorough": 300},
         bounds="one level, any sequence of 6 (thorough 8) records of any level and flushes"),
    dict(fn=long, params={"records": 4}, thorough={"records": 6}, witness_rate=0.03, budget={"quick": 60, "thorough": 300},
         bounds="3 to 5 configurations, the last two with any level from 10 to 60, 4 (thorough 6) records of any level"),
]
