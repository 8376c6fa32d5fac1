"""C13: a build is complete and self-contained."""

import os
import re
import shutil
import sys
import tempfile
from pathlib import Path

from rsm import builder, writer

from .common import *

ASSUMPTIONS = [
    "paths of figures are relative or rooted in the working directory, do not leave it, exist, and "
    "have none of the characters that mean something else in HTML or URLs (quotes, &, <, ?, #, %)",
    "titles have no '<' or '&' (known finding KF3 of C06)",
    "the virtual file system library is executed, not encoded",
]

STATIC = os.path.join(os.path.dirname(os.path.abspath(rsm.__file__)), "static")


def tree_of(top):
    """All files below a directory with their contents."""
    out = {}
    for d, _, names in os.walk(top):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="c13-")
        log = logging.getLogger("RSM")
        self.old = (log.level, log.handlers[:], sys.stderr, sys.stdout)
        os.makedirs(os.path.join(self.dir, "work"))
        os.makedirs(os.path.join(self.dir, "there"))
        os.chdir(os.path.join(self.dir, "work"))
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        log = logging.getLogger("RSM")
        log.setLevel(self.old[0])
        log.handlers[:] = self.old[1]
        shutil.rmtree(self.dir)
        return False


def source(title, figs, extra):
    src = ":rsm:\n" + (f"  :title: {title}\n" if title is not None else "") + "\n" + extra
    for k, p in enumerate(figs):
        src += f":figure:\n  :path: {p}\n\n:caption: cap{k}\n\n::\n\n"
    return src + "::\n"


def build(ctx, src, how, dest, hr):
    """Build src; returns (files of the destination, all files, the body, destination)."""
    with Scratch() as sc:
        work = os.path.join(sc.dir, "work")
        before = {}
        for p, data in ctx.files.items():
            full = os.path.join(work, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(data)
            before[os.path.join("work", p)] = data
        if how == "make":
            rsm.make(src, handrails=hr, lint=False, loglevel=60)
            body = to_html(to_tree(src), hr, True)
            dst = "work"
        else:
            body = to_html(to_tree(src), hr, False)
            web = builder.FullBuilder().build(body)
            if dest == "cwd":
                writer.Writer().write(web)
                dst = "work"
            else:
                dst = {"abs": "there", "rel": "work/out", "deep": "there"}[dest]
                target = {"abs": os.path.join(sc.dir, "there"), "rel": "out",
                          "deep": os.path.join(sc.dir, "work", "..", "there")}[dest]
                writer.Writer(Path(target)).write(web)
        after = tree_of(sc.dir)
    return before, after, body, dst


def verify(ctx, before, after, body, dst, title, figs):
    want = dict(before)
    for n in os.listdir(STATIC):
        if n.endswith((".js", ".css")):
            with open(os.path.join(STATIC, n), "rb") as f:
                want[os.path.join(dst, "static", n)] = f.read()
    for p in figs:
        q = os.path.normpath(p.lstrip("/"))
        want[os.path.join(dst, q)] = before[os.path.join("work", q)]
    index = os.path.join(dst, "index.html")
    ctx.check(index in after, "no index.html at the destination")
    page = after.pop(index).decode("utf-8")
    ctx.check(sorted(after) == sorted(want), f"files {sorted(after)}, expected {sorted(want)}")
    for k in want:
        ctx.check(after[k] == want[k], "a file was not copied byte for byte")
    parts = page.split(body.strip())
    ctx.check(len(parts) == 2, "the page does not hold the body, once and unchanged")
    head, tail = parts
    ctx.check(head.lstrip().startswith("<html>") and tail.rstrip().endswith("</html>"), "header or footer missing")
    titles = re.findall(r"<title>(.*?)</title>", head)
    ctx.check(len(titles) == 1 and norm(titles[0]) == norm(title or ""), "the title is not the manuscript's")
    uses = re.findall(r'(?:src|href)="(static/[^"]*)"', head) + re.findall(r"'/(static/[^']*)'", head)
    ctx.check("static/rsm.css" in uses, "the style sheet is not used")
    for u in uses:
        ctx.check(os.path.join(dst, u) in want, "the page uses a file that is not there")


DIRS = ["", "d/", "./", "d/e/", "/d/", "d/../", "static/"]


def figures(ctx):
    """Any number of figures, of any names, equal or not."""
    how = ctx.oneof("how", ["make", "builder"])
    dest = "cwd" if how == "make" else ctx.oneof("dest", ctx.params["dests"])
    hr = ctx.flag("hr")
    n = ctx.oneof("n", list(range(ctx.params["n"] + 1)))
    ctx.files, figs = {}, []
    for k in range(n):
        d = ctx.oneof(f"d{k}", ctx.params["dirs"])
        name = "f" + ctx.char(f"c{k}", "abcdefgh") + ctx.oneof(f"x{k}", ctx.params["exts"])
        p = d + name
        q = os.path.normpath(p.lstrip("/"))
        same = next((o for o in ctx.files if o == q), None)
        if same is None:
            ctx.files[q] = bytes([k, 0, 255, 13, 10]) * (k + 1)
        if d == "d/../":
            ctx.files.setdefault("d/keep", b"")
        figs.append(p if same is None else p[: len(p) - len(name)] + same.rpartition("/")[2])
    ctx.files["stranger.png"] = b"unused"
    src = source("T", figs, "Text that has src=\"no.png\" in it.\n\n" if ctx.flag("trap") else "Text.\n\n")
    before, after, body, dst = build(ctx, src, how, dest, hr)
    verify(ctx, before, after, body, dst, "T", figs)
    ctx.done()


def many(ctx):
    """More figures, in two directories, names equal or not."""
    how = ctx.oneof("how", ["make", "builder"])
    n = ctx.params["n"]
    ctx.files, figs = {}, []
    for k in range(n):
        p = ctx.oneof(f"d{k}", ["", "d/"]) + "f" + ctx.char(f"c{k}", "ab") + ".png"
        same = next((o for o in ctx.files if o == p), None)
        if same is None:
            ctx.files[p] = bytes([k, 0, 255]) * (k + 1)
        figs.append(p if same is None else same)
    src = source("T", figs, "Text.\n\n")
    before, after, body, dst = build(ctx, src, how, "cwd" if how == "make" else "abs", ctx.flag("hr"))
    verify(ctx, before, after, body, dst, "T", figs)
    ctx.done()


CHARS = "aZ7.,;!?()'=+[]^_~|@-é"


def titles(ctx):
    """Any title."""
    how = ctx.oneof("how", ["make", "builder"])
    hr = ctx.flag("hr")
    ctx.files = {}
    title = vis = None
    if ctx.flag("has"):
        title = vis = "Q"
        for k in range(ctx.params["n"]):
            kind = ctx.oneof(f"k{k}", ["char", "esc", "gap", "word"])
            if kind == "char":
                c = ctx.char(f"c{k}", CHARS)
                title, vis = title + c, vis + c
            elif kind == "esc":
                c = ctx.char(f"c{k}", ":%$`*{#")
                title, vis = title + "\\" + c, vis + c
            elif kind == "gap":
                title, vis = title + " ", vis + " "
            else:
                w = ctx.oneof(f"w{k}", ["title", "__TITLE_PLACEHOLDER__", "g0"])
                title, vis = title + w, vis + w
        title, vis = title + "w", vis + "w"
    src = source(title, [], "Text.\n\n## Section h1\n\nMore.\n\n")
    before, after, body, dst = build(ctx, src, how, "cwd", hr)
    verify(ctx, before, after, body, dst, vis, [])
    ctx.done()


def again(ctx):
    """Building over an earlier build, from the same or another manuscript."""
    hr, hr2 = ctx.flag("hr"), ctx.flag("hr2")
    n1, n2 = ctx.oneof("n1", [0, 1, 2]), ctx.oneof("n2", [0, 1, 2])
    t1, t2 = "T" + ctx.char("t1", LETTERS), "T" + ctx.char("t2", LETTERS)
    c = ctx.char("c", LETTERS)
    names = ["a.png", "d/b.png"]
    shared = ctx.flag("shared")
    b = builder.FullBuilder()
    with Scratch() as sc:
        os.makedirs("d")
        for k, p in enumerate(names):
            with open(p, "wb") as f:
                f.write(bytes([k, 13, 10]))
        start = {os.path.join("work", k): v for k, v in tree_of(".").items()}
        s1 = source(t1, names[:n1], f"One {c}.\n\n")
        s2 = source(t2, names[:n2], "Two.\n\n")
        writer.Writer().write((b if shared else builder.FullBuilder()).build(to_html(to_tree(s1), hr)))
        body = to_html(to_tree(s2), hr2)
        writer.Writer(Path("../there")).write((b if shared else builder.FullBuilder()).build(body))
        after = {k: v for k, v in tree_of(sc.dir).items() if k.startswith("there") or k in start}
    verify(ctx, start, after, body, "there", t2, names[:n2])
    ctx.done()


HARNESSES = [
    dict(fn=figures, batch=40, params={"n": 2, "dests": ["cwd", "abs", "rel"], "dirs": DIRS, "exts": [".png", " x.js"]},
         thorough={"n": 3, "dests": ["cwd", "abs", "rel", "deep"], "dirs": DIRS, "exts": [".png", ".svg", " x.jpeg", ".js"]},
         witness_rate=0.02, budget={"quick": 60, "thorough": 1500},
         bounds="up to 2 (thorough 3) figures with symbolic names in 7 directories, 4 (5) destinations"),
    dict(fn=titles, batch=40, params={"n": 2}, thorough={"n": 3}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds="titles with 2 (thorough 3) symbolic characters, escapes or special words, or no title"),
    dict(fn=again, batch=40, witness_rate=0.02, bounds="a second build of another manuscript, with a fresh or used builder"),
    dict(fn=many, batch=40, params={"n": 4}, thorough={"n": 6}, witness_rate=0.02, budget={"quick": 60, "thorough": 600},
         bounds="4 (thorough 6) figures in 2 directories, names symbolic, equal or not, 2 destinations"),
]
