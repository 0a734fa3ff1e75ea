"""C09, C10, C19, C20, C21: the applications as a whole."""

from __future__ import annotations

import ast
import os
import re

from . import apph as A
from . import effects
from . import html
from . import psharness as H
from .apph import Run, docs, doc, fn, fs_events, given, install, mentions, opt, same_text, tryrun, where, written
from .checklib import Obligation, Violation, REPO
from .trrules import raised
from .values import AStr, AList, ADict, AObj, ATuple, Sym, is_hole, PyRaise

ASSUME = [
    "logging, pathlib, fs (PyFilesystem), argparse and tree_sitter are the models in sa/stubs, which follow their documentation; the package's own sources are interpreted",
    "eight documents, one of them with every construct of the language; their words are unknown strings",
]


# ------------------------------------------------------------------ C09: effects
def norm_path(M, p):
    p = M.norm(p).s if isinstance(p, AStr) else M.show(p)
    if p.startswith("/cwd"):
        p = p[len("/cwd"):].lstrip("/")
    p = re.sub(r"^(\./)+", "", p)
    return p or "."


def effect(name, app):
    def run(M):
        d = doc(M, name)
        R = Run()
        R.how = opt(M, "given as", ["source", "path"]) if name != "every construct" else "source"
        R.level = opt(M, "loglevel", [None, 20]) if name != "every construct" else None
        kw = given(M, d, R.how)
        if R.level:
            kw["loglevel"] = R.level
        R.got = tryrun(M, fn(M, "rsm.app", app), [], kw)
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []        # C21 decides whether it works
        vs = []
        own = {norm_path(M, M.lift("docs/in.rsm"))} if R.how == "path" else set()
        user = {A.PIC1, A.PIC2} if app == "make" else set()
        for e in R.got.events:
            k = e["kind"]
            if k == "print":
                vs.append(Violation(f"rsm.{app} prints to standard output", e["loc"], key=f"{app}:prints"))
            elif k == "rt:fs_write":
                p = norm_path(M, e["path"])
                ok = app == "make" and (p in (".", "index.html", "static") or re.fullmatch(r"static/[^/]+", p) and ".." not in p)
                if not ok:
                    vs.append(Violation(f"rsm.{app} writes {p} ({M.show(e.get('how'))})", e["loc"], key=f"{app}:writes"))
            elif k == "rt:fs_read":
                p = norm_path(M, e["path"])
                ok = p in own or app == "make" and (p.startswith(os.path.join(REPO, "rsm", "static")) or p in user)
                if not ok:
                    vs.append(Violation(f"rsm.{app} reads {p} ({M.show(e.get('how'))})", e["loc"], key=f"{app}:reads"))
            elif k == "ext_call":
                n = e["name"]
                top, rest = n.split(".")[0], n.split(".")[1:]
                if top in effects.MODULES or top in effects.EFFECTS and rest and rest[0] in effects.EFFECTS[top] or n in ("builtins.open", "builtins.input", "builtins.exec", "builtins.eval"):
                    vs.append(Violation(f"rsm.{app} calls {n}", e["loc"], key=f"{app}:calls {n}"))
        return vs
    return Obligation(f"effects of rsm.{app} on {name}", run, judge, 2000, 3 if name == "every construct" else 1)


def writer(M, tier):
    """Writer(dstpath) writes every file of the web manuscript below dstpath, and nothing else."""
    def run(M):
        R = Run()
        src = opt(M, "source file of the manuscript", [None, "in/x.rsm"])
        web = M.call(fn(M, "rsm.manuscript", "WebManuscript"), [] if src is None else [M.call(M.rt["Path"], [M.lift(src)])])
        R.texts = {}
        for n in ("index.html", "static/a.js", "static/deep.css"):
            t = M.strsym("contents of " + n, truth=True)
            R.texts[n] = t
        M.call(M.getattr(web, "makedir"), [M.lift("static")])
        for n, t in R.texts.items():
            M.call(M.getattr(web, "writetext"), [M.lift(n), t])
        R.where = opt(M, "destination", [None, "out", "/abs/out"])
        args = [] if R.where is None else [M.call(M.rt["Path"], [M.lift(R.where)])]
        w = M.call(fn(M, "rsm.writer", "Writer"), args)
        R.got = tryrun(M, M.getattr(w, "write"), [web])
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return [Violation(f"Writer.write fails: {raised(M, R if out == 'raise' else R.got.exc) if out in ('ok', 'raise') else out}", key="writer:fails")]
        files = {norm_path(M, M.lift(k) if not isinstance(k, AStr) else k): v for k, v in written(M, R.got.events).items()}
        base = "" if R.where is None else R.where + "/"
        w = where(M, "rsm.writer", "Writer")
        vs = []
        for n, t in R.texts.items():
            if base + n not in files:
                vs.append(Violation(f"Writer does not write {n} below {R.where or 'the current directory'}", w, key="writer:missing"))
            elif not same_text(M, files[base + n], t):
                vs.append(Violation(f"Writer writes other contents to {n}", w, key="writer:contents"))
        for k in files:
            if k not in {base + n for n in R.texts} | {base.rstrip("/") or ".", base + "static"}:
                vs.append(Violation(f"Writer writes {k}, which is no file of the web manuscript", w, key="writer:extra"))
        return vs
    return [Obligation("Writer writes the web manuscript below its destination", run, judge, 100, 1)]


POSITIVE = '''
import os, shutil as sh
from subprocess import run
def helper(p): os.remove(p)
class Transformer:
    def transform(self): self._a()
    def _a(self): helper("x"); run(["x"]); sh.rmtree("y"); open("z"); print("w")
'''


def positive_example(ck):
    """The rule must fire on code that it is meant to catch."""
    m = effects.Module("transformer", ast.parse(POSITIVE), "example")
    m.ext = {"os": "os", "sh": "shutil", "run": "subprocess.run"}
    m.funcs = {"helper": m.tree.body[2], "Transformer.transform": m.tree.body[3].body[0], "Transformer._a": m.tree.body[3].body[1]}
    m.classes = {"Transformer": ({"transform": "Transformer.transform", "_a": "Transformer._a"}, [])}
    a = effects.scan({"transformer": m}, "transformer", "Transformer._a", m.funcs["Transformer._a"].body, set())
    b = effects.scan({"transformer": m}, "transformer", "Transformer.transform", m.funcs["Transformer.transform"].body, set())
    c = effects.scan({"transformer": m}, "transformer", "helper", m.funcs["helper"].body, set())
    if len(a[0]) != 4 or ("transformer", "helper") not in a[1] or ("transformer", "Transformer._a") not in b[1] or len(c[0]) != 1:
        ck.errors.append("the effect rule no longer recognises its positive example")


def c09(ck):
    ck.explanation = ("(1) Effect analysis by abstract interpretation of rsm.render, rsm.lint and rsm.make on models of the file system: files read and written, output printed, external calls. "
                      "(2) Call-graph rule over all functions of the package: no function of the parser, transformer, linter, translators, nodes, tags, manuscript and logging modules, and no module "
                      "body, reaches an external name that touches files, processes, the network or the terminal. Rule: render and lint write nothing and read only the given path; make writes "
                      "only index.html and files directly below static/ under the current directory (Writer: below its destination) and reads the package's static files and the manuscript's assets.")
    ck.assumptions = ASSUME + ["log levels above DEBUG (at DEBUG the parser prints its trees by design)", "the call graph resolves module functions, classes, and methods through self and super"]
    positive_example(ck)
    found, counts, _ = effects.reach()
    for k, v in counts.items():
        ck.counts[k] = v
    if counts["roots"] < 150:
        ck.errors.append(f"only {counts['roots']} functions of the stages were found")
    for chain, what, path, line in found:
        ck.fail(f"{'.'.join(chain[0])} {what}" + (f" through {' -> '.join('.'.join(c) for c in chain[1:])}" if len(chain) > 1 else ""), (path, line, chain[-1][1]), f"effect:{chain[-1][0]}.{chain[-1][1]}:{what}")
    M = A.boot(ck)
    ck.explore(M, [effect(n, a) for a in ("render", "lint", "make") for n in docs()] + writer(M, ck.tier))


# ------------------------------------------------------------------ C19: log records
def log_sites():
    """Every call of a logging method in the package."""
    out = set()
    base = os.path.join(REPO, "rsm")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f != "conftest.py":
            with open(os.path.join(base, f), encoding="utf-8") as fh:
                t = ast.parse(fh.read())
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log", "lint") \
                        and isinstance(n.func.value, ast.Name) and "log" in n.func.value.id:
                    out.add((f"rsm/{f}", n.lineno))
    return out


POS = ("start_row", "start_col", "end_row", "end_col")


def records(name, fmt, noise, app):
    def run(M):
        d = doc(M, name, noise)
        R = Run()
        R.noise = noise
        R.got = tryrun(M, fn(M, "rsm.app", app), [], {"source": d.source, "log_format": M.lift(fmt), "loglevel": 10})
        R.sites = sorted({(e["site"][0], e["site"][1]) for e in R.got.events if e["kind"] == "log" and e.get("site")})
        return R

    def judge(M, P, out, R):
        if out != "ok":
            return []
        vs = []
        what = f"log format {fmt}"
        if R.got.exc is not None:
            e = R.got.exc
            if any("log" in f.lower() for f in (e.stack or ())) if getattr(e, "stack", None) else e.exc.cls.name in ("KeyError", "TypeError", "ValueError") and "runtime_model" in str(e.loc):
                return [Violation(f"a log call raises {raised(M, e)}", e.loc, key=f"log call raises:{e.exc.cls.name}")]
            return []
        logs = [e for e in R.got.events if e["kind"] == "log"]
        lines = [e for e in R.got.events if e["kind"] == "rt:log_line"]
        for e in R.got.events:
            if e["kind"] == "rt:log_error":
                m = M.show(e["record"].attrs.get("msg"))[:80] if isinstance(e.get("record"), AObj) else "?"
                vs.append(Violation(f"the record {m} cannot be formatted in the {what}: {raised(M, PyRaise(e['error'])) if e.get('error') is not None else ''}", key=f"{fmt}:unformattable"))
        for e in logs:
            x = e["kwargs"].get("extra")
            if isinstance(x, ADict):
                keys = {M.show(k).strip("'\"") for k, _ in x.d.values()}
                if keys & set(POS) and not keys >= set(POS):
                    vs.append(Violation(f"a record carries only a part of the position of its element ({', '.join(sorted(keys))})", e["site"], key=f"partial position:{e['site'][2]}"))
        # each record appears at most once, and exactly once at a level that the application shows
        need = 10 if app == "render" else 30
        i = 0
        evs = [e for e in R.got.events if e["kind"] in ("log", "rt:log_line", "rt:log_error")]
        started = False
        while i < len(evs):
            e = evs[i]
            j = i + 1
            while j < len(evs) and evs[j]["kind"] != "log":
                j += 1
            n = j - i - 1 if e["kind"] == "log" else j - i
            started = started or n > 0
            if n > 1:
                vs.append(Violation(f"the record {M.show(e.get('msg'))[:80]} appears {n} times ({what})", e.get("site"), key=f"{fmt}:repeated"))
            elif n == 0 and isinstance(e["level"], int) and e["level"] >= need and (started or need == 30):
                vs.append(Violation(f"the record {M.show(e.get('msg'))[:80]} of level {e['level']} does not appear ({what})", e.get("site"), key=f"{fmt}:lost"))
            i = j
        if noise == "ERROR" and not any(isinstance(e["level"], int) and e["level"] >= 30 for e in logs):
            vs.append(Violation("a syntax error is not logged", key="syntax error unlogged"))
        return vs
    return Obligation(f"log records of rsm.{app} on {name}" + (f" with {noise}" if noise else "") + f", {fmt} format", run, judge, 200, 2 if name == "every construct" else 1)


def gather(M, tier):
    """GatherHandler keeps exactly the records of its levels, in order, until they are flushed to the target once."""
    def run(M):
        R = Run()
        R.levels = opt(M, "gathered levels", [[30], [20, 40], [], [10, 20, 25, 30, 40, 50]])
        R.order = opt(M, "records", [[30, 20, 30], [10, 20, 25, 30, 40, 50], [40, 40, 20], []])
        R.target = opt(M, "target", ["a handler", "none"])
        cap = M.call(M.rt["StreamHandler"], [])
        M.call(M.getattr(cap, "setLevel"), [0])
        h = M.call(fn(M, "rsm.rsmlogger", "GatherHandler"), [AList([x for x in R.levels])] + ([cap] if R.target == "a handler" else []))
        R.recs = [M.call(M.rt["LogRecord"], [M.lift("RSM"), lv, M.lift("f"), 1, M.strsym(f"message {i}", truth=True), ATuple([]), None]) for i, lv in enumerate(R.order)]
        R.exc, R.early, R.mid, R.late = None, None, None, None
        try:
            n0 = len(M.P.events)
            for r in R.recs:
                M.call(M.getattr(h, "handle"), [r])
            n1 = len(M.P.events)
            M.call(M.getattr(h, "flush"), [])
            n2 = len(M.P.events)
            M.call(M.getattr(h, "flush"), [])
        except PyRaise as e:
            R.exc = e
            return R
        pick = lambda evs: [e["record"] for e in evs if e["kind"] == "rt:log_line"]
        R.early, R.mid, R.late = pick(M.P.events[n0:n1]), pick(M.P.events[n1:n2]), pick(M.P.events[n2:])
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.exc is not None:
            return [Violation(f"GatherHandler fails: {raised(M, R if out == 'raise' else R.exc) if out in ('ok', 'raise') else out}", key="gather:fails")]
        want = [r for r, lv in zip(R.recs, R.order) if lv in R.levels] if R.target == "a handler" else []
        w = where(M, "rsm.rsmlogger", "GatherHandler")
        if R.early:
            return [Violation("GatherHandler forwards records before it is flushed", w, key="gather:early")]
        if R.late:
            return [Violation("GatherHandler forwards records again when it is flushed again", w, key="gather:again")]
        if len(R.mid) != len(want) or any(a is not b for a, b in zip(R.mid, want)):
            return [Violation(f"GatherHandler for the levels {R.levels} forwards {len(R.mid)} of the records {R.order}, or in another order", w, key="gather:records")]
        return []
    return [Obligation("GatherHandler", run, judge, 200, 1)]


def formats(fmt):
    """Records of every level, with and without a position, can be formatted and come out once."""
    def run(M):
        d = doc(M, "a paragraph")
        R = Run()
        kw = {"source": d.source, "log_format": M.lift(fmt), "loglevel": 10}
        for k in ("log_time", "log_lineno"):
            v = opt(M, k, [True, False])
            kw[k] = v
        if opt(M, "before", ["nothing", "another run"]) == "another run":
            M.call(fn(M, "rsm.app", "render"), [], {"source": d.source, "loglevel": 20})
        R.got = tryrun(M, fn(M, "rsm.app", "render"), [], kw)
        R.probes = []
        for lv in A.LEVELS:
            for pos in (False, True):
                p = A.probe(M, lv, pos)
                p.what = f"a record of level {lv} with{'' if pos else 'out'} position in the {fmt} format"
                R.probes.append(p)
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []
        vs = []
        w = where(M, "rsm.rsmlogger", "config_rsm_logger")
        for p in R.probes:
            if p.exc is not None:
                vs.append(Violation(f"logging {p.what} raises {raised(M, p.exc)}", p.exc.loc, key=f"{fmt}:log raises"))
            elif any(err is not None for _, err in p.out):
                vs.append(Violation(f"{p.what} cannot be formatted: {raised(M, PyRaise([e for _, e in p.out if e is not None][0]))}", w, key=f"{fmt}:unformattable"))
            elif len(p.out) != 1:
                vs.append(Violation(f"{p.what} comes out {len(p.out)} times", w, key=f"{fmt}:{'lost' if not p.out else 'repeated'}"))
        return vs
    return Obligation(f"records of every level in the {fmt} format", run, judge, 200, 2)


def refused(app, fmt):
    """The record about a source that cannot be parsed."""
    def run(M):
        d = doc(M, "a paragraph")
        install(M, None)
        R = Run()
        R.got = tryrun(M, fn(M, "rsm.app", app), [], {"source": d.source, "log_format": M.lift(fmt)})
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []
        errs = [e for e in R.got.events if e["kind"] == "rt:log_error"]
        if errs:
            return [Violation(f"the record about a source that cannot be parsed cannot be formatted in the {fmt} format", key=f"{fmt}:unformattable")]
        n = sum(1 for e in R.got.events if e["kind"] == "log" and isinstance(e["level"], int) and e["level"] >= 40)
        if n > sum(1 for e in R.got.events if e["kind"] == "rt:log_line"):
            return [Violation(f"the record about a source that cannot be parsed does not come out (log format {fmt})", key=f"{fmt}:lost")]
        return []
    return Obligation(f"rsm.{app}: source that cannot be parsed, {fmt} format", run, judge, 50, 1)


def c19(ck):
    ck.explanation = ("Abstract interpretation of rsm.render, rsm.lint and rsm.make at log level DEBUG in all four log formats, on documents with every construct, syntax errors and comments, and of "
                      "rsm.rsmlogger.GatherHandler. Rule: every record that is logged appears exactly once, can be formatted in every format, carries all four parts of a position or none, and no log "
                      "call raises; GatherHandler forwards exactly the records of its levels, in order, once.")
    ck.assumptions = ASSUME
    M = A.boot(ck)
    obs = gather(M, ck.tier)
    for fmt in ("rsm", "plain", "json", "lint"):
        obs.append(formats(fmt))
        obs += [refused(a, fmt) for a in ("render", "lint", "make")]
        for name in docs():
            if name == "every construct" or fmt in ("rsm", "lint"):
                for noise in ((None, "ERROR") if name != "a figure" else (None,)):
                    for app in (("render", "make", "lint") if name in ("every construct", "a paragraph") and noise is None else ("render", "make")[noise is None:]):
                        obs.append(records(name, fmt, noise, app))
    rs = ck.explore(M, obs)
    ck.counts["logging_call_sites_in_source"] = len(log_sites())
    return rs


# ------------------------------------------------------------------ C20: assets
def strip_js(s):
    """JavaScript without comments; strings are kept."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in "\"'`":
            j = i + 1
            while j < len(s) and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i)
            i = len(s) if j < 0 else j + 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


EXPORT = re.compile(r"\bexport\s+(?:default\s+)?(?:async\s+)?(?:function\s*\*?|const|let|var|class)\s+([\w$]+)")
EXPORTS = re.compile(r"\bexport\s*\{([^}]*)\}")
IMPORT = re.compile(r"\bimport\s+(?:([\w$]+)\s*,?\s*)?(?:\{([^}]*)\}|\*\s+as\s+([\w$]+))?\s*(?:from\s*)?[\"']([^\"']+)[\"']")
DYNAMIC = re.compile(r"(?:(?:const|let|var)\s+([\w$]+)\s*=\s*)?(?:await\s+)?\bimport\s*\(\s*([\"'`])(.*?)\2\s*\)")
PARAM = re.compile(r"[\s{(,]([\w$]+)\s*=\s*[\"']([^\"']*)[\"']")


def exports(js):
    out = set(EXPORT.findall(js))
    for g in EXPORTS.findall(js):
        for x in g.split(","):
            x = x.strip()
            if x:
                out.add(x.split(" as ")[-1].strip())
    return out


def local(url):
    return bool(url) and "://" not in url and not url.startswith(("//", "#", "data:", "mailto:")) and not any(is_hole(c) for c in url)


def resolve(url, base):
    url = url.split("?")[0].split("#")[0]
    if url.startswith("/"):
        return os.path.normpath(url.lstrip("/"))
    return os.path.normpath(os.path.join(base, url))


def check_scripts(files, read, bad):
    """Imports among the scripts and references of the style sheets; returns the number of references."""
    n = 0
    js = {f: strip_js(read(f)) for f in files if f.endswith(".js")}
    for f, s in js.items():
        if not re.search(r"\b(import|export)\b", s):
            continue
        base = os.path.dirname(f)
        params = {}
        for k, v in PARAM.findall(s):
            params.setdefault(k, v)
        refs = [(m.group(4), [x.split(" as ")[0].strip() for x in (m.group(2) or "").split(",") if x.strip()], m.group(3)) for m in IMPORT.finditer(s)]
        for m in DYNAMIC.finditer(s):
            url = re.sub(r"\$\{\s*([\w$]+)\s*\}", lambda k: params.get(k.group(1), "${" + k.group(1) + "}"), m.group(3)) if m.group(2) == "`" else m.group(3)
            refs.append((url, [], m.group(1)))
        for url, names, space in refs:
            if "${" in url or not local(url):
                continue
            n += 1
            t = resolve(url, base)
            if t not in js:
                bad(f"{f} imports {url}, which is not among the files that are built", f, f"import:{os.path.basename(f)}:{os.path.basename(url)}")
                continue
            ex = exports(js[t])
            uses = list(names)
            if space:
                uses += re.findall(r"\b" + re.escape(space) + r"\.([\w$]+)\s*\(", s)
            for u in uses:
                n += 1
                if u not in ex and u != "then":
                    bad(f"{f} uses {u} from {t}, which does not export it", f, f"export:{os.path.basename(f)}:{u}")
    for f in files:
        if not f.endswith(".css"):
            continue
        s = re.sub(r"/\*.*?\*/", "", read(f), flags=re.S)
        for m in re.finditer(r"@import\s+(?:url\(\s*)?[\"']?([^\"')\s;]+)|url\(\s*[\"']?([^\"')]+)", s):
            url = m.group(1) or m.group(2)
            if not local(url):
                continue
            n += 1
            if resolve(url, os.path.dirname(f)) not in files:
                bad(f"{f} refers to {url}, which is not among the files that are built", f, f"css:{os.path.basename(f)}:{url}")
    return n


def assets(name):
    def run(M):
        d = doc(M, name)
        R = Run()
        kw = {"source": d.source}
        h = opt(M, "handrails", [True, False])
        kw["handrails"] = h
        R.got = tryrun(M, fn(M, "rsm.app", "make"), [], kw)
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []
        vs = []
        w = where(M, "rsm.builder", "FullBuilder")
        files = {norm_path(M, M.lift(k)): v for k, v in written(M, R.got.events).items()}
        idx = files.get("index.html")
        if not isinstance(idx, AStr):
            return [Violation("rsm.make writes no index.html", w, key="no index.html")]
        s = M.norm(idx).s
        root, _ = html.parse(s)
        reads = {norm_path(M, e["path"]) for e in fs_events(R.got.events, "fs_read")}
        n = 0

        def bad(what, f=None, key=None):
            vs.append(Violation(what, (f"rsm/{f}", 1, "") if f else w, key=key))
        def contents(t):
            return open(os.path.join(REPO, "rsm", t), encoding="utf-8").read() if os.path.exists(os.path.join(REPO, "rsm", t)) else ""
        images = set()
        for e in root.walk():
            for a in ("src", "href"):
                u = e.attrs.get(a)
                if u is None or not local(u) or (a == "href" and e.tag == "a"):
                    continue
                n += 1
                if e.tag == "img":
                    images.add(u)
                    t = "static/" + os.path.basename(u)
                    if t not in files:
                        bad(f"the image {u} of the manuscript is not copied to {t}", key="image not copied")
                    elif resolve(u, "") not in reads:
                        bad(f"the file copied to {t} is not the image {u}", key="image from elsewhere")
                elif resolve(u, "") not in files:
                    bad(f"index.html refers to {u}, which is not among the files that are built", key=f"missing:{os.path.basename(u)}")
            if e.tag == "script" and "src" not in e.attrs:
                js = strip_js(e.text())
                for m in IMPORT.finditer(js):
                    n += 1
                    t = resolve(m.group(4), "")
                    if t not in files:
                        bad(f"index.html imports {m.group(4)}, which is not among the files that are built", key=f"missing:{os.path.basename(m.group(4))}")
                        continue
                    ex = exports(strip_js(contents(t)))
                    for x in (m.group(2) or "").split(","):
                        x = x.strip().split(" as ")[0].strip()
                        if x and x not in ex:
                            bad(f"index.html imports {x} from {m.group(4)}, which does not export it", key=f"export:index.html:{x}")
        wanted = {os.path.basename(A.PIC1), A.PIC2} & {os.path.basename(u) for u in images}
        if name == "a figure" and len(wanted) != 2 or name == "every construct" and not wanted:
            bad("the page does not show the images of the manuscript", key="images not shown")

        for f, data in files.items():
            if f.startswith("static/") and os.path.basename(f) not in {os.path.basename(u) for u in images}:
                src = data.attrs.get("path") if isinstance(data, AObj) else None
                if src is None or os.path.basename(M.show(src).strip("'\"")) != os.path.basename(f):
                    bad(f"{f} is built from another file", key="static from elsewhere")
        n += check_scripts([f for f in files if f.startswith("static/")], contents, bad)
        R.n = n
        if n < 8:
            bad(f"only {n} references were found in the page and the scripts", key="no references")
        return vs

    return Obligation(f"assets of {name}", run, judge, 50, 3 if name == "every construct" else 1)


def c20(ck):
    ck.explanation = ("Abstract interpretation of rsm.make on a model of the file systems, and cross-check of the page with the scripts and style sheets that are built. Rule: every local file that the page "
                      "or a built script or style sheet refers to is among the files built, every name imported from a script or used through it is exported by it, and every image of the manuscript "
                      "is copied to static/ under its own name.")
    ck.assumptions = ASSUME + ["scripts: import statements, import() with constant or defaulted paths, and uses of the imported names; files of third parties are only checked to exist"]
    static = os.path.join(REPO, "rsm", "static")
    ck.counts["static_files"] = len([f for f in os.listdir(static) if f.endswith((".js", ".css"))])
    M = A.boot(ck)
    ck.explore(M, [assets(n) for n in docs()])


# ------------------------------------------------------------------ C10, C21
def c10(ck):
    ck.explanation = ("Abstract interpretation of rsm.app and rsm.cli with every combination of the options below, relating the runs to the documented meaning of the options. Rule: exactly one of source and "
                      "path is accepted; handrails, add_source and lint have their effect and no other; log level, format, time and line number configure the log (exactly one line per record, also when "
                      "the log was configured before); a command line has the effect of the call with the documented options, prints the result unless silent, and returns 0.")
    ck.assumptions = ASSUME + ["rsm-make --serve is not covered"]
    M = A.boot(ck)
    ck.explore(M, A.options(M, ck.tier))


def c21(ck):
    ck.explanation = ("Relational abstract interpretation: rsm.render, rsm.lint and rsm.make against the stages (parser, transformer, linter, translator, builder) run one after the other on the same abstract "
                      "document. Rule: render returns the translation, lint the transformed tree, and make writes exactly the files of the build, whose page contains the translation; an input that "
                      "cannot be parsed is reported, gives an empty result and writes nothing.")
    ck.assumptions = ASSUME
    M = A.boot(ck)
    ck.explore(M, A.compositions(M, ck.tier))


# ------------------------------------------------------------------ C31: the page
def page(name):
    def run(M):
        d = doc(M, name)
        R = Run()
        hr = opt(M, "handrails", [True, False])
        R.got = tryrun(M, fn(M, "rsm.app", "make"), [], {"source": d.source, "handrails": hr})
        install(M, d.tree)
        R.want = A.reference(M, d.source, hr, True, False, False)
        install(M, d.tree)
        R.tree = M.call(M.getattr(M.call(fn(M, "rsm.tsparser", "TSParser"), []), "parse"), [d.source])
        R.title = M.getattr(R.tree, "title")
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []
        w = where(M, "rsm.builder", "SingleFileBuilder")
        files = {norm_path(M, M.lift(k)): v for k, v in written(M, R.got.events).items()}
        idx = files.get("index.html")
        if not isinstance(idx, AStr):
            return [Violation("rsm.make writes no index.html", w, key="no index.html")]
        s = M.norm(idx).s
        body = M.norm(R.want.val).s.strip()
        vs = []
        n = s.count(body)
        if n != 1:
            vs.append(Violation(f"the page contains the translation of the manuscript {n} times", w, key="body"))
        root, probs = html.parse(s)
        for p in probs[:3]:
            vs.append(Violation(f"the page is not well formed: {p.what}", w, key=f"malformed:{p.what}"))
        top = root.els()
        if [e.tag for e in top] != ["html"] or [e.tag for e in top[0].els()] != ["head", "body"]:
            vs.append(Violation("the page is not a document with one head and one body", w, key="structure"))
        heads = [e for e in root.walk() if e.tag == "title"]
        title = M.norm(R.title).s if isinstance(R.title, AStr) else M.show(R.title)
        if len(heads) != 1 or heads[0].parent.tag != "head":
            vs.append(Violation(f"the page has {len(heads)} titles", w, key="titles"))
        elif heads[0].text().split() != title.split():
            vs.append(Violation(f"the title of the page is {M.show(AStr(heads[0].text()))!r}, the manuscript's is {M.show(R.title)!r}", w, key="title"))
        if not any(e.tag == "meta" and e.attrs.get("charset", "").lower() == "utf-8" for e in root.walk()):
            vs.append(Violation("the page does not say that it is encoded in UTF-8", w, key="charset"))
        return vs
    return Obligation(f"page of {name}", run, judge, 50, 2 if name == "every construct" else 1)


def c31(ck):
    ck.explanation = ("Abstract interpretation of rsm.make; the page is parsed as a template of HTML. Rule: the page is one well-formed document with one head and one body, contains the translation of "
                      "the manuscript exactly once, declares UTF-8, and its title is the title of the manuscript (empty if it has none).")
    ck.assumptions = ASSUME
    M = A.boot(ck)
    ck.explore(M, [page(n) for n in docs()])


CHECKS = {"C09": c09, "C10": c10, "C19": c19, "C20": c20, "C21": c21, "C31": c31}
