"""C12: options of the API and the command line take effect, independently."""

import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile

from rsm import cli, linter

from .common import *

ASSUMPTIONS = [
    "sources are not empty and do not use a lone carriage return as line end; carriage returns "
    "before a line feed do not count as a difference",
    "argparse, logging and the file system are executed, not encoded; options are decided by the solver",
    "--serve is left out (it runs a server); at level DEBUG the parser also prints the syntax trees "
    "(intended, says the code)",
]


class Env:
    """A scratch directory as working directory, with the standard streams captured."""

    def __init__(self, argv=None):
        self.argv = argv

    def __enter__(self):
        self.log = logging.getLogger("RSM")
        self.old = (os.getcwd(), sys.argv, sys.stdout, sys.stderr, self.log.level, self.log.handlers[:])
        self.dir = tempfile.mkdtemp(prefix="c12-")
        os.chdir(self.dir)
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        if self.argv is not None:
            sys.argv = self.argv
        return self

    def __exit__(self, *a):
        cwd, sys.argv, sys.stdout, sys.stderr, level, handlers = self.old
        os.chdir(cwd)
        self.log.setLevel(level)
        self.log.handlers[:] = handlers
        shutil.rmtree(self.dir)
        return False


def sources(ctx):
    """A manuscript, and the warnings and lint messages it must give rise to."""
    kind = ctx.oneof("src", ctx.params["sources"])
    c = ctx.char("c", LETTERS)
    if kind == "clean":
        return f":rsm:\n  :title: T{c}\n\nHello {c} *x*.\n\n::\n"
    if kind == "warn":
        return f":rsm:\n  :title: T\n\nHello {c} :ref:nolabel::.\n\n::\n"
    if kind == "lint":
        return f":rsm:\n\n## S{c}\n\n$$\nx{c}\n$$\n\n::\n"
    return f":rsm:\n\nHé {c} :ref:nolabel:: and :ref:other::.\n\n## S\n\nB.\n\n::\n"


def reference(src):
    """Messages of warning level from parsing and transforming, and of the linter."""
    tree, cap = with_capture(lambda: to_tree(src))
    log = logging.getLogger("RSM")
    level = log.level
    lin = linter.Linter()
    _, cap2 = with_capture(lambda: lin.lint(tree), level=linter.Linter.LINT_LVL)
    log.setLevel(level)
    return [(l, m) for l, m, _ in cap.records] + [(l, m) for l, m, _ in cap2.records]


ANSI = re.compile(r"\x1b\[[0-9;]*m")
TIME = re.compile(r"^\d\d:\d\d:\d\d ")
LINE = re.compile(r" \(\w+\.py:\d+\)$")


def check_logs(ctx, text, expected, linting, level, fmt, time, lineno):
    level = max(level, 10)
    lint = linter.Linter.LINT_LVL
    # a message may occur several times, e.g. two sections without label
    for lvl, m in set(expected):
        n = expected.count((lvl, m)) if lvl >= level and (lvl != lint or linting) else 0
        shown = json.dumps(m)[1:-1] if fmt == "json" else m
        ctx.check(text.count(shown) == n, f"message of level {lvl} appears {text.count(shown)} times, not {n}")
    ctx.check(("Application started" in text) == (level <= 20), "messages of level INFO")
    if level <= 10:
        ctx.check("Parsing..." in text, "messages are missing")
        return
    if level > lint or not linting:
        ctx.check("Linting..." not in text or linting, "linting without being asked for")
    lines = [ANSI.sub("", x) for x in text.splitlines() if x]
    if level <= 20:
        ctx.check(len([x for x in lines if "Linting..." in x]) == (1 if linting else 0), "linting when not asked for")
    else:
        ctx.check(len(lines) == sum(1 for l, _ in expected if l >= level and (l != lint or linting)),
                  "other messages are emitted")
    for x in lines:
        if fmt == "json":
            try:
                d = json.loads(x)
            except ValueError:
                ctx.fail("a log line is not JSON")
            ctx.check(("time" in d) == bool(time), "json: time stamp")
            ctx.check(("lineno" in d) == bool(lineno), "json: line number")
            ctx.check({"name", "level", "msg"} <= set(d), "json: fields are missing")
        elif fmt == "rsm":
            ctx.check(bool(TIME.match(x)) == bool(time), "rsm: time stamp")
            ctx.check(bool(LINE.search(x)) == bool(lineno), "rsm: line number")
        elif fmt == "lint":
            ctx.check(bool(re.match(r"^src:\d+:\d+: [A-Z]+: ", x)), "lint: no position")
        else:
            ctx.check(not TIME.match(x) and not LINE.search(x) and "RSM" not in x, "plain: more than the message")


def logopts(ctx):
    return dict(
        loglevel=ctx.oneof("level", ctx.params["levels"]),
        log_format=ctx.oneof("fmt", ["rsm", "json", "lint", "plain"]),
        log_time=ctx.symflag("time"),
        log_lineno=ctx.symflag("lineno"),
    )


def given(ctx, src, env):
    """The source as a string or as the path of a file that holds it."""
    how = ctx.oneof("how", ["source", "path", "Path"])
    if how == "source":
        return {"source": src}
    p = os.path.join(env.dir, "in.rsm")
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(src)
    from pathlib import Path

    return {"path": p if how == "path" else Path(p)}


def same_html(a, b):
    return a.replace("\r\n", "\n") == b.replace("\r\n", "\n")


def render_api(ctx):
    src = sources(ctx)
    expected = [(l, m) for l, m in reference(src) if l != linter.Linter.LINT_LVL]
    opts = logopts(ctx)
    hr, emb = ctx.symflag("hr"), ctx.symflag("emb")
    with Env() as env:
        html = rsm.render(handrails=hr, add_source=emb, **given(ctx, src, env), **opts)
        err, out, files = env.err.getvalue(), env.out.getvalue(), os.listdir(env.dir)
    ctx.check(html == to_html(to_tree(src), bool(hr), bool(emb)), "the page differs from the rendering")
    root = parse_html(ctx, html)
    ctx.check(any("hr-collapse-zone" in e.classes for e in root.iter()) == bool(hr), "handrails")
    if hr:
        ctx.check(any("rsm-source" in e.classes for e in root.iter()) == bool(emb), "embedded source")
    ctx.check(out == "" or opts["loglevel"] <= 10, "the API prints")
    ctx.check(set(files) <= {"in.rsm"}, "rendering writes files")
    check_logs(ctx, err, expected, False, opts["loglevel"], opts["log_format"], opts["log_time"], opts["log_lineno"])
    ctx.observe(html)
    ctx.done()


def lint_api(ctx):
    src = sources(ctx)
    expected = reference(src)
    opts = logopts(ctx)
    with Env() as env:
        tree = rsm.lint(handrails=ctx.symflag("hr"), **given(ctx, src, env), **opts)
        err, out, files = env.err.getvalue(), env.out.getvalue(), os.listdir(env.dir)
    ctx.check(tree.sexp() == to_tree(src).sexp(), "linting does not return the manuscript")
    ctx.check(out == "" and set(files) <= {"in.rsm"}, "linting writes something")
    # documented: the linter sets its own log level
    check_logs(ctx, err, expected, True, linter.Linter.LINT_LVL, opts["log_format"], opts["log_time"],
               opts["log_lineno"])
    ctx.done()


def make_api(ctx):
    src = sources(ctx)
    expected = reference(src)
    opts = logopts(ctx)
    hr, lin = ctx.symflag("hr"), ctx.symflag("lint")
    with Env() as env:
        rsm.make(handrails=hr, lint=lin, **given(ctx, src, env), **opts)
        err, out, files = env.err.getvalue(), env.out.getvalue(), os.listdir(env.dir)
        with open("index.html", encoding="utf-8") as f:
            page = f.read()
    ctx.check(set(files) - {"in.rsm"} == {"index.html", "static"}, "other files are written")
    ctx.check(to_html(to_tree(src), bool(hr), True).strip() in page, "the page differs from the rendering")
    ctx.check(out == "" or opts["loglevel"] <= 10, "the API prints")
    check_logs(ctx, err, expected, bool(lin), opts["loglevel"], opts["log_format"], opts["log_time"],
               opts["log_lineno"])
    ctx.done()


def defaults(ctx):
    """Any subset of the options is left out: those have their usual values."""
    fn = ctx.oneof("fn", ["render", "lint", "make"])
    src = sources(ctx)
    expected = reference(src)
    usual = {"loglevel": 30, "log_format": "rsm", "log_time": True, "log_lineno": True, "handrails": fn == "make"}
    given = {"loglevel": 20, "log_format": "json", "log_time": False, "log_lineno": False, "handrails": fn != "make"}
    if fn == "render":
        usual["add_source"], given["add_source"] = False, True
    if fn == "make":
        usual["lint"], given["lint"] = True, False
    kw = {k: v for k, v in given.items() if ctx.symflag("give_" + k)}
    opts = {**usual, **kw}
    positional = ctx.symflag("positional")
    with Env() as env:
        out = getattr(rsm, fn)(src, **kw) if positional else getattr(rsm, fn)(source=src, **kw)
        err, files = env.err.getvalue(), os.listdir(env.dir)
        page = None
        if fn == "make":
            with open("index.html", encoding="utf-8") as f:
                page = f.read()
    linting, level = fn == "lint" or bool(opts.get("lint")), opts["loglevel"]
    if fn == "render":
        ctx.check(out == to_html(to_tree(src), opts["handrails"], opts["add_source"]), "defaults: the page differs")
    elif fn == "make":
        ctx.check(to_html(to_tree(src), opts["handrails"], True).strip() in page, "defaults: the page differs")
    else:
        level = linter.Linter.LINT_LVL
    ctx.check((set(files) == {"index.html", "static"}) if fn == "make" else not files, "defaults: files")
    if fn == "render":
        expected = [(l, m) for l, m in expected if l != linter.Linter.LINT_LVL]
    check_logs(ctx, err, expected, linting, level, opts["log_format"], opts["log_time"], opts["log_lineno"])
    ctx.done()


def two(ctx):
    """A call, then another one with other options: the second does what its own options say."""
    fn1, fn2 = ctx.oneof("fn1", ["render", "lint", "make"]), ctx.oneof("fn2", ["render", "lint", "make"])
    src = sources(ctx)
    expected = reference(src)
    first = dict(loglevel=ctx.oneof("level1", ctx.params["levels"]), log_format=ctx.oneof("fmt1", ["json", "plain"]),
                 log_time=ctx.symflag("time1"), handrails=ctx.symflag("hr1"))
    second = dict(loglevel=ctx.oneof("level2", ctx.params["levels"]), log_format=ctx.oneof("fmt2", ["rsm", "json"]))
    if ctx.symflag("give"):
        second.update(log_time=False, log_lineno=False, handrails=True)
    hr = second.get("handrails", fn2 == "make")
    with Env() as env:
        getattr(rsm, fn1)(source=src, **first)
        env.out.seek(0), env.out.truncate(), env.err.seek(0), env.err.truncate()
        for n in os.listdir(env.dir):
            (shutil.rmtree if os.path.isdir(n) else os.remove)(n)
        out = getattr(rsm, fn2)(source=src, **second)
        err, files, page = env.err.getvalue(), os.listdir(env.dir), None
        if fn2 == "make":
            with open("index.html", encoding="utf-8") as f:
                page = f.read()
    linting, level = fn2 != "render", second["loglevel"]
    if fn2 == "render":
        ctx.check(out == to_html(to_tree(src), hr), "second call: the page differs")
        expected = [(l, m) for l, m in expected if l != linter.Linter.LINT_LVL]
    elif fn2 == "make":
        ctx.check(to_html(to_tree(src), hr, True).strip() in page, "second call: the page differs")
    else:
        level = linter.Linter.LINT_LVL
    ctx.check((set(files) == {"index.html", "static"}) if fn2 == "make" else not files, "second call: files")
    check_logs(ctx, err, expected, linting, level, second["log_format"], second.get("log_time", True),
               second.get("log_lineno", True))
    ctx.done()


def refused(ctx):
    """Both or neither of source and path."""
    fn = ctx.oneof("fn", [rsm.render, rsm.lint, rsm.make])
    both = ctx.symflag("both")
    kw = {}
    if both:
        kw = {"source": "a" + ctx.char("c", LETTERS), "path": "b" + ctx.char("d", LETTERS)}
    else:
        for k in ("source", "path"):
            how = ctx.oneof(k, ["none", "empty"])
            if how == "empty":
                kw[k] = ""
    with Env() as env:
        try:
            fn(**kw)
        except app.RSMApplicationError:
            ctx.check(os.listdir(env.dir) == [], "files are written")
            ctx.done()
    ctx.fail("both or neither of source and path is accepted")


def command_line(ctx):
    cmd = ctx.oneof("cmd", ["render", "lint", "make"])
    src = sources(ctx)
    expected = reference(src)
    level, time, lineno, fmt = 30, True, True, "lint" if cmd == "lint" else "rsm"
    string, hr, silent = ctx.symflag("string"), ctx.symflag("hr"), ctx.symflag("silent")
    argv = []
    long = ctx.flag("long")
    if hr:
        argv.append("--handrails" if long else "-r")
    if silent:
        argv.append("--silent" if long else "-s")
    v = ctx.oneof("v", [0, 1, 2, 3])
    if v:
        argv += ["--verbose"] * v if long else ["-" + "v" * v]
        level -= 10 * v
    if ctx.symflag("notime"):
        argv.append("--log-no-timestamps")
        time = False
    if ctx.symflag("nolineno"):
        argv.append("--log-no-lineno")
        lineno = False
    f = ctx.oneof("fmt", [None, "json"] if ctx.params["few"] else [None, "rsm", "json", "lint", "plain"])
    if f:
        argv += ["--log-format", f]
        fmt = f
    with Env() as env:
        if string:
            argv += ["-c" if not long else "--string", src]
        else:
            with open(os.path.join(env.dir, "in.rsm"), "w", encoding="utf-8") as fh:
                fh.write(src)
            argv.insert(0, "in.rsm")
        sys.argv = ["rsm-" + cmd] + argv
        code = getattr(cli, cmd)()
        err, out, files = env.err.getvalue(), env.out.getvalue(), os.listdir(env.dir)
        page = None
        if cmd == "make":
            with open("index.html", encoding="utf-8") as fh:
                page = fh.read()
    ctx.check(code == 0, "exit code")
    if cmd == "render":
        want = to_html(to_tree(src), bool(hr)) + "\n" if not silent else ""
        ctx.check(out == want or level <= 10 and out.endswith(want), "the output is not the rendering")
    else:
        ctx.check(out == "" or level <= 10, "something is printed")
    if cmd == "make":  # documented: always with handrails
        ctx.check(to_html(to_tree(src), True, True).strip() in page, "the page differs from the rendering")
    else:
        ctx.check(set(files) <= {"in.rsm"}, "files are written")
    if cmd == "render":
        expected = [(l, m) for l, m in expected if l != linter.Linter.LINT_LVL]
    check_logs(ctx, err, expected, cmd != "render", linter.Linter.LINT_LVL if cmd == "lint" else level, fmt, time, lineno)
    if level > 10:
        ctx.observe(out)
    ctx.done()


def path_or_string(ctx):
    """A file with any line ends, byte order mark, characters, read by its path."""
    nl = ctx.oneof("nl", ["\n", "\r\n"])
    bom = ctx.flag("bom")
    a, b = ctx.char("a", "aZ7.é—𝔸"), ctx.oneof("b", ["é", "—", "𝔸", "x", "ß"])
    lines = [":rsm:", "  :title: T" + b, "", "Hello " + a + b, "world.", "", "$$", "x " + b, "$$", "",
             ":codeblock:", "", "c" + b, "d", "", "::", "", "::", ""]
    src = nl.join(lines)
    with Env() as env:
        with open("in.rsm", "wb") as f:
            f.write((b"\xef\xbb\xbf" if bom else b"") + src.encode("utf-8"))
        hr = ctx.flag("hr")
        one = rsm.render(path="in.rsm", handrails=hr)
        two = rsm.render(source=src, handrails=hr)
    ctx.check(same_html(one, two), "a file renders differently from the same text")
    ctx.observe(one)
    ctx.done()


ALL = ["clean", "warn", "lint", "both"]
LV = [0, 10, 15, 20, 25, 26, 30, 31, 40, 60]
HARNESSES = [
    dict(fn=render_api, batch=40, params={"sources": ["warn", "both"], "levels": [0, 10, 20, 25, 30, 40]},
         thorough={"sources": ALL, "levels": LV}, witness_rate=0.05,
         bounds="all combinations of options of render (2 sources, 6 levels; thorough 4 and 10)"),
    dict(fn=lint_api, batch=40, params={"sources": ["clean", "both"], "levels": [0, 10, 30, 40]},
         thorough={"sources": ALL, "levels": LV}, witness_rate=0.05,
         bounds="all combinations of options of lint (2 sources, 4 levels; thorough 4 and 10)"),
    dict(fn=make_api, batch=40, params={"sources": ["both"], "levels": [0, 20, 25, 30, 40]},
         thorough={"sources": ALL, "levels": LV}, witness_rate=0.05,
         bounds="all combinations of options of make (1 source, 5 levels; thorough 4 and 10)"),
    dict(fn=defaults, batch=40, params={"sources": ["both"]}, thorough={"sources": ALL}, witness_rate=0.05,
         bounds="every subset of the options of render, lint and make left out, the source by name or by position"),
    dict(fn=refused, batch=10, witness_rate=0.2, bounds="both or neither of source and path, 3 functions"),
    dict(fn=command_line, batch=40, params={"sources": ["both"], "few": True},
         thorough={"sources": ALL, "few": False}, witness_rate=0.03,
         budget={"quick": 120, "thorough": 900},
         bounds="all combinations of flags of the three commands, short and long (quick: some formats)"),
    dict(fn=path_or_string, batch=20, witness_rate=0.1, bounds="2 kinds of line ends, byte order mark, symbolic characters"),
    dict(fn=two, batch=40, params={"sources": ["both"], "levels": [20, 30, 40]}, thorough={"sources": ALL, "levels": LV},
         witness_rate=0.03, budget={"quick": 60, "thorough": 600},
         bounds="any of the three functions after any, 3 (thorough 10) levels, 2 formats each, flags given or not"),
]
