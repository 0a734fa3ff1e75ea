"""Whole applications on abstract documents: rsm.app and rsm.cli are interpreted on top of models of logging, pathlib, fs, argparse and tree_sitter."""

from __future__ import annotations

import os
import re

from . import psharness as H
from .checklib import Obligation, Violation, REPO
from .engine import Machine
from .trrules import raised
from .values import *  # noqa: F401,F403
from .values import AStr, AList, ADict, AObj, ATuple, ABuiltin, AClass, Sym, is_hole

RT = "_stub_rt"
RSMDIR = os.path.join(REPO, "rsm")


def natives(M):
    def _event(M, a, k):
        M.event("rt:" + M.const(a[0]), **k)

    def _unknown(M, a, k):
        n = M.const(a[0]) if M.isconst(a[0]) else M.show(a[0])
        key = ("rt_unknown", n)
        memo = M.P.__dict__.setdefault("rt_memo", {})
        if key not in memo:
            memo[key] = M.strsym(n, truth=True)
        return memo[key]

    def _unknown_int(M, a, k):
        memo = M.P.__dict__.setdefault("rt_memo", {})
        n = M.const(a[0])
        if n not in memo:
            s = M.sym(n, "int", truth=True)
            s.meta["lo"] = 1
            memo[n] = s
        return memo[n]

    SPEC = re.compile(r"%\((\w+)\)([-#0 +]*)(\d*)(?:\.\d+)?([sdrfx])|%(%)|(%)")

    def _percent(M, a, k):
        fmt, rec = M.norm(a[0]), a[1]
        out, last = AStr("", []), 0
        for m in SPEC.finditer(fmt.s):
            out = out + fmt.slice(last, m.start())
            last = m.end()
            if m.group(5):
                out = out + M.lift("%")
                continue
            if m.group(6):
                M.raise_("ValueError", "incomplete format key")
            name, flags, width, conv = m.group(1), m.group(2), m.group(3), m.group(4)
            if name not in rec.attrs:
                M.raise_("ValueError", f"Formatting field not found in record: '{name}'")
            v = M.getattr(rec, name)
            if conv in "dxf" and not isinstance(v, (int, float)) and not (isinstance(v, Sym) and v.kind in ("int", "float", "any", "bool")):
                M.raise_("TypeError", f"%{conv} format: a real number is required, not {M.type_of(v).name}")
            t = M.to_repr(v) if conv == "r" else M.to_str(v)
            if isinstance(t, AStr) and not t.holes and width:
                w = t.s.ljust(int(width)) if "-" in flags else t.s.rjust(int(width))
                t = M.lift(w)
            out = out + t
        return out + fmt.slice(last, len(fmt.s))

    def _percent_valid(M, a, k):
        return bool(re.search(r"%\(\w+\)[#0+ -]*(\*|\d+)?(\.(\*|\d+))?[diouxefgcrsa%]", M.norm(a[0]).s, re.I))

    def _listdir(M, a, k):
        p = M.norm(a[0])
        if not p.holes and os.path.realpath(p.s).startswith(os.path.realpath(RSMDIR)) and os.path.isdir(p.s):
            return AList([M.lift(x) for x in sorted(os.listdir(p.s))])
        M.gap(f"listing of {M.show(p)}")
        return AList([])

    def _isdir(M, a, k):
        p = M.norm(a[0])
        if not p.holes and p.s.startswith(RSMDIR):
            return os.path.exists(p.s)
        memo = M.P.__dict__.setdefault("rt_memo", {})
        key = ("exists", p.s)
        if key not in memo:
            memo[key] = M.choose(2, lambda i: f"{M.show(p)} {'exists' if i == 0 else 'does not exist'}") == 0
        return memo[key]

    def _fnmatch(M, a, k):
        import fnmatch
        return fnmatch.fnmatch(M.const(a[0]), M.const(a[1]))

    def _argv(M, a, k):
        return M.P.__dict__.get("argv") or AList([])

    def _log_call(M, a, k):
        level, msg, args, extra, lg = a
        site = next(((f[1], f[2], f[0]) for f in reversed(M.frames) if "runtime_model" not in f[1]), None)
        M.event("log", level=level, msg=msg, args=M.tolist(args), kwargs={"extra": extra} if extra is not None else {}, logger=lg, site=site)

    return {n: ABuiltin(n, f) for n, f in locals().items() if n.startswith("_") and callable(f)}


LOGGING = ("addLevelName getLevelName LogRecord makeLogRecord Formatter Handler StreamHandler FileHandler NullHandler Logger getLogger Filterer "
           "DEBUG INFO WARN ERROR CRITICAL NOTSET").split()


def prepare(M):
    H.prepare(M)
    M.builtins.update(natives(M))
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "runtime_model.py")
    with open(p, encoding="utf-8") as f:
        mod = M.load_source(RT, p, f.read())
    V = mod.env.vars
    X = M.ext_models
    for n in LOGGING:
        X[f"logging.{n}"] = V[n]
    X["logging.WARNING"] = V["WARN"]
    X["logging.FATAL"] = V["CRITICAL"]
    X["logging.handlers.BufferingHandler"] = X["logging.handlers.MemoryHandler"] = V["BufferingHandler"]
    for n in ("Path", "PurePath", "PosixPath", "PurePosixPath"):
        X[f"pathlib.{n}"] = V["Path"]
    X["fs.open_fs"] = V["open_fs"]
    X["fs.copy.copy_file"] = V["copy_file"]
    X["fs.copy.copy_fs"] = V["copy_fs"]
    X["fs.copy.copy_dir"] = V["copy_dir"]
    X["fs.mountfs.MountFS"] = V["MountFS"]
    X["fs.memoryfs.MemoryFS"] = V["MemFS"]
    X["fs.osfs.OSFS"] = V["OSFS"]
    X["argparse.ArgumentParser"] = V["ArgumentParser"]
    X["argparse.Namespace"] = V["Namespace"]
    X["importlib.metadata.version"] = ABuiltin("version", lambda MM, a, k: MM.lift("0"))
    M.builtins["open"] = V["open_"]
    M.logger_cls = V["Logger"]
    return V


def boot(ck):
    M = Machine(REPO)
    M.rt = prepare(M)
    M.fresh_types = True
    M.boot(["rsm", "rsm.app", "rsm.cli"])
    if M.P.gaps:
        ck.counts["boot_gaps"] = [f"{g} @ {l[0]}:{l[1]}" for g, l in M.P.gaps][:20]
    return M


# ------------------------------------------------------------------ documents
PIC1, PIC2 = "Pics/a_B/Plot-1.v2.PNG", "other.svg"


def set_path(n, M, path):
    """Give the :path: metadata below n a known value."""
    for x in n.native["seq"]:
        if x == H.NL:
            continue
        c = x[1]
        if c.tag == "metaval_any":
            c.attrs["text"].attrs["_s"] = M.lift(" " + path)
        set_path(c, M, path)


def set_label(parts, M, label):
    """Give the :label: metadata of the construct a known value."""
    def go(n):
        for x in n.native["seq"]:
            if x == H.NL:
                continue
            c = x[1]
            if c.tag == "pair":
                key, val = [y[1] for y in c.native["seq"] if y != H.NL][:2] if len(c.native["seq"]) > 1 else (None, None)
                if key is not None and any(y != H.NL and y[1].tag == "label" for y in key.native["seq"]):
                    val.attrs["text"].attrs["_s"] = M.lift(" " + label)
                    return True
            elif go(c):
                return True
        return False
    for n in parts[0]:
        if not isinstance(n, str) and go(n[1] if isinstance(n, tuple) else n):
            return parts
    raise AssertionError("no label to set")


def set_target(parts, M, label):
    for x in parts[0][0].native["seq"]:
        if x != H.NL and x[0] in ("target", "targetlabels"):
            x[1].attrs["text"].attrs["_s"] = M.lift(label)
    return parts


def everything(b):
    """Every construct of the language, with references that resolve and references that do not."""
    M = b.M
    L = lambda parts, name: set_label(parts, M, name)
    R = lambda name, **k: set_target(H.ref(b, "ref", **k), M, name)
    t = lambda p="w": H.text(b, p)
    p = lambda *xs, **k: H.para(b, *xs, **k)
    parts = [
        H.block(b, "author", p(t()), meta=["name", "affiliation", "email"]), H.block(b, "abstract", p(t("w w"))), H.toc(b),
        L(H.section(b, "section", L(p(t("w "), H.span2(b, "spanemphas", t()), t(" w "), R("sec"), t(" w "), R("thm", reftext=True), t(" w "), H.ref(b, "url"), t(" w "), R("nowhere"), meta=["label"]), "par"),
                    p(H.inline(b, "note", t(" w ")), t("w "), H.inline(b, "draft", t(" w ")), H.inline(b, "span", t(" w "), meta=["strong"]), t(" w "), set_target(H.cite(b, 1), M, "bib1"), t(" w "), set_target(H.cite(b, 2), M, "bib2, nobody")),
                    L(H.mathblock(b, meta=["label"]), "eq1"), p(t(), H.NL, H.mathblock(b, meta=["nonum"]), H.NL, t()), meta=["label"]), "sec"),
        H.section(b, "section",
                  L(H.block(b, "theorem", p(H.construct(b, "let", t(" w "), H.math(b), t(" w ")), t(" w")), meta=["label", "title"]), "thm"),
                  H.block(b, "proof", L(H.block(b, "step", p(t("w "), H.construct(b, "claim", t(" w "), H.math(b))), H.block(b, "proof", H.block(b, "step", p(t())), H.block(b, "step", p(t("w "), H.prev(b, 1)))), meta=["label"]), "st1"),
                          H.block(b, "step", p(H.qed(b)))),
                  H.block(b, "sketch", p(t())), H.block(b, "definition", p(t())), H.block(b, "remark", p(t()), meta=["nonum"]), L(H.block(b, "lemma", p(t()), meta=["label"]), "lem"), H.block(b, "example", p(t())),
                  H.block(b, "proposition", p(t())), H.block(b, "corollary", p(t())),
                  H.section(b, "subsection", p(R("st1"), t(" w "), R("lem"), t(" w "), R("eq1"), t(" w "), R("fig"), t(" w "), R("tab"), t(" w "), R("par")),
                            H.section(b, "subsubsection", p(t("w "), set_target(H.cite(b, 1), M, "bib1"))))),
        L(H.section(b, "section",
                    H.block(b, "itemize", H.itempara(b, "item", t(" w"))), H.block(b, "enumerate", L(H.itempara(b, "item", t(" w"), meta=["label"]), "itm"), H.itempara(b, "item", t(" w "), R("itm"))),
                    L(H.table(b, [(False, [H.cell(b), H.cell(b)])], [(True, [H.cell(b), H.cell(b)])], t(" w"), meta=["label"]), "tab"), H.codeblock(b), H.codeblock(b, kind="algorithm"),
                    p(H.code(b), t(" w")), meta=["label"]), "sec3"),
        H.appendix(b), H.section(b, "section", p(t())),
    ]
    f = L(H.block(b, "figure", H.itempara(b, "caption", t(" w")), meta=["path", "label"]), "fig")
    for n in f[0]:
        if not isinstance(n, str):
            set_path(n[1] if isinstance(n, tuple) else n, M, PIC1)
    bl = H.bibliography(b)
    bt = H.bibtex(b, [["title", "year", "author", "journal", "doi"], ["publisher"]], bl[1][0])
    names = iter(["article", "bib1", "book", "bib2"])
    for x in bt.native["seq"]:
        if x != H.NL and x[1].tag == "bibitem":
            for y in x[1].native["seq"]:
                if y != H.NL and y[0] in ("kind", "label"):
                    y[1].attrs["text"].attrs["_s"] = M.lift(next(names))
    return H.document(b, *parts, f, bl, bib=bt)


def docs():
    """Small documents that between them exercise every stage."""
    def plain(b):
        return H.document(b, H.para(b, H.text(b, "w w"), H.span2(b, "spanstrong", H.text(b, "w"))))

    def untitled(b):
        return H.document(b, H.section(b, "section", H.para(b, H.text(b, "w"), H.NL, H.mathblock(b), H.NL, H.text(b, "w")), hash=False), title=False)

    def proof(b):
        return H.document(b, H.block(b, "theorem", H.para(b, H.text(b, "w")), H.block(b, "proof", H.block(b, "step", H.para(b, H.text(b, "w"))))))

    def deep(b):
        step = lambda *xs: H.block(b, "step", H.para(b, H.text(b, "w")), *xs)
        return H.document(b, H.block(b, "lemma", H.para(b, H.text(b, "w"))), H.block(b, "proof", step(step(step(), step()), step()), step()))

    def sections(b):
        return H.document(b, H.toc(b), H.section(b, "section", H.para(b, H.text(b, "w"))), H.section(b, "section", H.block(b, "remark", H.para(b, H.text(b, "w"))), meta=["label"]))

    def code(b):
        return H.document(b, H.codeblock(b), H.para(b, H.text(b, "w "), H.code(b), H.text(b, " w"), H.math(b)), H.block(b, "itemize", H.itempara(b, "item", H.text(b, " w"))))

    def figures(b):
        f1, f2 = (H.block(b, "figure", H.itempara(b, "caption", H.text(b, " w")), meta=["path"]) for _ in range(2))
        for f, p in ((f1, PIC1), (f2, PIC2)):
            for n in f[0]:
                if not isinstance(n, str):
                    set_path(n[1] if isinstance(n, tuple) else n, b.M, p)
        return H.document(b, f1, H.para(b, H.text(b, "w")), f2)
    return {"a paragraph": plain, "no title and an unlabelled section": untitled, "a theorem with a proof": proof, "a proof with sub-proofs": deep, "a table of contents and sections": sections, "code, math and a list": code,
            "a figure": figures, "every construct": everything}


class Run:
    pass


def doc(M, name, noise=None, first=0):
    """Install the concrete tree of the document; returns the tree."""
    M.opaque_raw = True
    b = H.B(M)
    b.first = first
    root, _ = docs()[name](b) if name != "nothing" else H.document(b, title=False)
    if noise:
        pos = b.positions(root)
        b.add_noise(noise, *pos[len(pos) // 2])
    r = Run()
    r.source = M.strsym("source text", truth=True)
    y = M.P.holes[r.source.s]
    y.meta.update(word=True)
    r.root = root
    r.tree = b.finish(root, r.source)
    M.modules[H.STUB].env.vars["Parser"].ns["tree"] = r.tree
    return r


def install(M, tree):
    M.modules[H.STUB].env.vars["Parser"].ns["tree"] = tree


def fn(M, mod, name):
    m = M.load(mod)
    v = m.env.vars.get(name)
    if v is None:
        raise AnalysisError(f"{mod}.{name} not found")
    return v


def tryrun(M, f, args=(), kwargs=None):
    """Run and collect: value or exception, and the events."""
    r = Run()
    r.start = len(M.P.events)
    r.exc = r.val = None
    try:
        r.val = M.call(f, list(args), dict(kwargs or {}))
    except PyRaise as e:
        r.exc = e
    r.events = M.P.events[r.start:]
    return r


def given(M, d, how, path=None):
    """Keyword arguments that hand over the source text or the path."""
    if how == "source":
        return {"source": d.source}
    return {"path": path if path is not None else M.lift("docs/in.rsm")}


def text_of(M, d, how):
    if how == "source":
        return d.source
    return M.call(M.builtins["_unknown"], [M.lift("contents of docs/in.rsm")])


def reference(M, src, handrails, add_source, lint, build):
    """The stages, one after the other."""
    r = Run()
    r.start = len(M.P.events)
    tree = M.call(M.getattr(M.call(fn(M, "rsm.tsparser", "TSParser"), []), "parse"), [src])
    tree = M.call(M.getattr(M.call(fn(M, "rsm.transformer", "Transformer"), []), "transform"), [tree])
    if lint:
        tree = M.call(M.getattr(M.call(fn(M, "rsm.linter", "Linter"), []), "lint"), [tree])
    if lint == "only":
        r.val = tree
        return r
    tr = M.call(fn(M, "rsm.translator", "HandrailsTranslator"), [], {"add_source": add_source}) if handrails else M.call(fn(M, "rsm.translator", "Translator"), [])
    r.val = M.call(M.getattr(tr, "translate"), [tree])
    if build:
        bl = M.call(fn(M, "rsm.builder", "FullBuilder"), [])
        r.web = M.call(M.getattr(bl, "build"), [r.val])
    r.events = M.P.events[r.start:]
    return r


def fs_events(evs, kind="fs_write"):
    return [e for e in evs if e["kind"] == "rt:" + kind]


def same_text(M, a, b):
    if isinstance(a, AStr) and isinstance(b, AStr):
        a, b = M.norm(a), M.norm(b)
        return a.s == b.s
    return a is b


def first_diff(M, a, b):
    if not isinstance(a, AStr) or not isinstance(b, AStr):
        return f"{M.show(a)[:200]} instead of {M.show(b)[:200]}"
    i = 0
    while i < min(len(a.s), len(b.s)) and a.s[i] == b.s[i]:
        i += 1

    def cut(x):
        return M.show(x.slice(max(0, i - 40), min(len(x.s), i + 60)))
    return f"...{cut(a)}...\ninstead of\n...{cut(b)}..."


def where(M, mod, name):
    f = M.load(mod).env.vars.get(name)
    n = getattr(f, "node", None)
    return (f.module.path if hasattr(f.module, "path") else f.module, n.lineno, name) if n is not None else None


# ------------------------------------------------------------------ C21: the applications are the composition of the stages
def opt(M, what, opts):
    return opts[M.choose(len(opts), lambda i: f"{what} = {opts[i]}")]


def composition(name, app):
    def run(M):
        d = doc(M, name)
        R = Run()
        how = opt(M, "given as", ["source", "path"]) if name != "every construct" else "source"
        kw = given(M, d, how)
        R.handrails, R.add_source, R.lint = None, True, False
        if app == "render":
            R.handrails = opt(M, "handrails", [None, True, False])
            R.add_source = opt(M, "add_source", [None, True, False])
            if R.add_source is not None:
                kw["add_source"] = R.add_source
        elif app == "make":
            R.handrails = opt(M, "handrails", [None, True, False])
            R.lint = opt(M, "lint", [None, True, False])
            if R.lint is not None:
                kw["lint"] = R.lint
        if R.handrails is not None:
            kw["handrails"] = R.handrails
        R.app, R.how, R.name = app, how, name
        seen = M.modules[H.STUB].env.vars["Parser"].ns["seen"]
        R.got = tryrun(M, fn(M, "rsm.app", app), [], kw)
        R.seen = list(seen.items)
        src = text_of(M, d, how)
        R.src = src
        hr = R.handrails if R.handrails is not None else app == "make"
        ads = {"render": bool(R.add_source), "make": True, "lint": True}[app]
        install(M, d.tree)
        n0 = len(seen.items)
        R.want = reference(M, src, hr, ads, "only" if app == "lint" else (R.lint is None or R.lint) if app == "make" else False, app == "make")
        R.ref_seen = list(seen.items)[n0:]
        return R

    def judge(M, P, out, R):
        if out == "raise":
            return [Violation(f"a stage raises {raised(M, R)}", R.loc, key=f"stage raises:{R.exc.cls.name}")]
        if out == "diverged":
            return [Violation(f"rsm.{app} does not end", key=f"{app}:diverged")]
        if out != "ok":
            return []
        w = where(M, "rsm.app", app)
        if R.got.exc is not None:
            return [Violation(f"rsm.{app} raises {raised(M, R.got.exc)} on {name}", R.got.exc.loc, key=f"{app}:raises:{R.got.exc.exc.cls.name}")]
        vs = []
        if len(R.seen) != 1 or not derives(M, R.seen[0], R.src) or len(R.ref_seen) != 1 or not alike(M, R.seen[0], R.ref_seen[0]):
            vs.append(Violation(f"rsm.{app} does not parse exactly the text that it is given ({', '.join(M.show(x) for x in R.seen)})", w, key=f"{app}:parses"))
        if app == "render" and not same_text(M, R.got.val, R.want.val):
            vs.append(Violation("rsm.render does not return the translation of the transformed manuscript", w, key="render:output", detail=first_diff(M, R.got.val, R.want.val)))
        if app == "lint":
            a = M.call(M.getattr(R.got.val, "sexp"), []) if isinstance(R.got.val, AObj) else R.got.val
            b = M.call(M.getattr(R.want.val, "sexp"), [])
            if not same_text(M, a, b):
                vs.append(Violation("rsm.lint does not return the transformed manuscript", w, key="lint:output", detail=first_diff(M, a, b)))
        if app == "make":
            files = written(M, R.got.events)
            want = dict(webfiles(M, R.want.web))
            for n, data in want.items():
                got = files.get("./" + n) or files.get(n) or files.get("/cwd/" + n)
                if got is None:
                    vs.append(Violation(f"rsm.make does not write {n}", w, key=f"make:missing {n if n == 'index.html' else 'asset'}"))
                elif not same_data(M, got, data):
                    vs.append(Violation(f"rsm.make writes other contents to {n} than the build of the translation", w, key="make:contents", detail=first_diff(M, got, data)))
            idx = want.get("index.html")
            if isinstance(idx, AStr):
                if M.norm(R.want.val).s.strip() not in M.norm(idx).s:
                    vs.append(Violation("index.html does not contain the translated manuscript", w, key="make:body"))
        return vs
    return Obligation(f"rsm.{app} on {name}", run, judge, 5000, 2)


def derives(M, v, src):
    if isinstance(v, AStr):
        return same_text(M, v, src)
    if isinstance(v, Sym):
        ss = M.P.holes.get(src.s)
        args = [a for a in v.origins()]
        base = [x for x in args if not x.origin]
        return bool(base) and all(x is ss for x in base)
    return False


def written(M, evs):
    out = {}
    for e in fs_events(evs):
        p = e.get("path")
        p = M.norm(p) if isinstance(p, AStr) else p
        out[M.show(p)] = e.get("data")
    return out


def webfiles(M, web):
    f = web.attrs.get("files")
    if not isinstance(f, ADict):
        return []
    return [(M.show(k), v) for k, v in f.d.values()]


def same_data(M, a, b):
    if isinstance(a, AStr) or isinstance(b, AStr):
        return same_text(M, a, b)
    if isinstance(a, AObj) and isinstance(b, AObj):
        return same_text(M, a.attrs.get("path"), b.attrs.get("path"))
    return a is b


# ------------------------------------------------------------------ probing the log configuration
def probe(M, level, position=False):
    """What one record of this level leaves on the handlers: [(text, error)]."""
    lg = M.call(M.getattr(M.call(M.rt["getLogger"], [M.lift("RSM")]), "getChild"), [M.lift("probe")])
    msg = M.strsym("log message", truth=True)
    extra = {}
    if position:
        d = ADict()
        for k in ("start_row", "start_col", "end_row", "end_col"):
            M.dict_set(d, M.lift(k), M.sym(k, "int"))
        extra = {"extra": d}
    n = len(M.P.events)
    r = tryrun(M, M.getattr(lg, "log"), [level, msg], extra)
    out = []
    for e in M.P.events[n:]:
        if e["kind"] in ("rt:log_line", "rt:log_error"):
            out.append((e.get("text"), e.get("error") if e["kind"] == "rt:log_error" else None))
        elif e["kind"] == "ext_call" and e["name"].endswith("dumps"):
            r.json = e
    r.out, r.msg = out, msg
    return r


def mentions(M, text, name):
    """Whether the unknown called `name` contributes to the text."""
    vals = []
    if isinstance(text, AStr):
        vals = M.holesyms(text)
    elif isinstance(text, Sym):
        vals = [text]
    for v in vals:
        for o in v.origins():
            if o.name == name:
                return True
            for a in o.meta.get("args", ()):  # e.g. json.dumps of a dict
                if isinstance(a, ADict) and any(mentions(M, x, name) for _, x in a.d.values()):
                    return True
                if isinstance(a, (AList, ATuple)) and any(mentions(M, x, name) for x in a.items):
                    return True
    return False


LEVELS = [10, 20, 25, 30, 40, 50]
SHOWS = {"rsm": (True, True), "json": (True, True), "lint": (None, None), "plain": (None, None)}  # format -> do the switches for time and line number apply?


def judge_probe(M, R, fmt, time, lineno, shown, tag):
    vs = []
    n = len(R.out)
    what = f"log format {fmt}"
    if R.exc is not None:
        return [Violation(f"logging a message raises {raised(M, R.exc)}", R.exc.loc, key=f"{tag}:log raises")]
    for text, err in R.out:
        if err is not None:
            return [Violation(f"a log record cannot be formatted in the {what}: {raised(M, PyRaise(err))}", key=f"{tag}:{fmt}:unformattable")]
    if n != (1 if shown else 0):
        return [Violation(f"a record of level {R.level} is shown {n} time(s) instead of {1 if shown else 0} ({what}, log level {R.loglevel})", where(M, "rsm.rsmlogger", "config_rsm_logger"), key=f"{tag}:{'lost' if shown else 'shown'}" if n < 2 else f"{tag}:repeated")]
    if not shown:
        return []
    text = R.out[0][0]
    if not mentions(M, text, "log message"):
        vs.append(Violation(f"the message is not part of the log line ({what})", key=f"{tag}:{fmt}:message"))
    if SHOWS[fmt][0] is not None:
        for on, unk, w in ((time, "formatted time", "time"), (lineno, "line of the log call", "line number")):
            if mentions(M, text, unk) != on:
                vs.append(Violation(f"the {w} is {'missing from' if on else 'part of'} the log line although it was asked {'for' if on else 'to be left out'} ({what})", key=f"{tag}:{fmt}:{w}"))
    if fmt in ("rsm", "lint") and getattr(R, "position", False):
        for k in ("start_row", "start_col") + (("end_row", "end_col") if fmt == "rsm" else ()):
            if not mentions(M, text, k):
                vs.append(Violation(f"the {k} of the record is not part of the log line ({what})", key=f"{tag}:{fmt}:position"))
    return vs


# ------------------------------------------------------------------ C10: options
def logoptions(app):
    def run(M):
        d = doc(M, "a paragraph")
        R = Run()
        R.fmt = opt(M, "log_format", [None, "rsm", "plain", "json", "lint"])
        R.time = opt(M, "log_time", [None, False])
        R.lineno = opt(M, "log_lineno", [None, False])
        R.loglevel = opt(M, "loglevel", [None, 10, 20, 30] + ([40] if app == "render" else [])) if app != "lint" else None
        kw = {"source": d.source}
        for k, v in (("log_format", R.fmt), ("log_time", R.time), ("log_lineno", R.lineno), ("loglevel", R.loglevel)):
            if v is not None:
                kw[k] = M.lift(v)
        R.again = M.choose(2, lambda i: ["first run", "after another run with other options"][i])
        if R.again:
            M.call(fn(M, "rsm.app", "render"), [], {"source": d.source, "log_format": M.lift("lint" if R.fmt != "lint" else "json"), "loglevel": 40})
        R.got = tryrun(M, fn(M, "rsm.app", app), [], kw)
        R.probes = []
        if R.got.exc is None:
            for lv in LEVELS:
                for pos in (False, True):
                    p = probe(M, lv, pos)
                    p.level, p.position, p.loglevel = lv, pos, R.loglevel
                    R.probes.append(p)
        return R

    def judge(M, P, out, R):
        if out != "ok":
            return [Violation(f"rsm.{app} fails: {raised(M, R) if out == 'raise' else out}", key=f"{app}:fails")]
        if R.got.exc is not None:
            return [Violation(f"rsm.{app} raises {raised(M, R.got.exc)}", R.got.exc.loc, key=f"{app}:raises:{R.got.exc.exc.cls.name}")]
        vs = []
        th = max(R.loglevel or 30, 10)
        for p in R.probes:
            if app == "lint":
                shown = p.level >= 25
            elif app == "make" and p.level == 25:
                continue
            else:
                shown = p.level >= th
            vs += judge_probe(M, p, R.fmt or "rsm", R.time is None, R.lineno is None, shown, app)
        return vs
    return Obligation(f"logging options of rsm.{app}", run, judge, 5000, 3)


def which_input(app):
    """Exactly one of source and path."""
    def run(M):
        d = doc(M, "a paragraph")
        R = Run()
        R.s = opt(M, "source", ["given", "empty", "not given"])
        R.p = opt(M, "path", ["given", "empty", "not given"])
        kw = {}
        if R.s != "not given":
            kw["source"] = d.source if R.s == "given" else M.lift("")
        if R.p != "not given":
            kw["path"] = M.lift("docs/in.rsm") if R.p == "given" else M.lift("")
        R.got = tryrun(M, fn(M, "rsm.app", app), [], kw)
        R.seen = list(M.modules[H.STUB].env.vars["Parser"].ns["seen"].items)
        return R

    def judge(M, P, out, R):
        if out != "ok":
            return [Violation(f"rsm.{app} fails: {out}", key=f"{app}:fails")]
        ok = (R.s == "given") != (R.p == "given")
        w = where(M, "rsm.app", app)
        if ok and R.got.exc is not None:
            return [Violation(f"rsm.{app} refuses a valid input: {raised(M, R.got.exc)}", R.got.exc.loc, key=f"{app}:refuses")]
        if not ok:
            if R.got.exc is None:
                return [Violation(f"rsm.{app} accepts source {R.s} together with path {R.p}", w, key=f"{app}:accepts")]
            if R.got.exc.exc.cls.name != "RSMApplicationError":
                return [Violation(f"rsm.{app} raises {raised(M, R.got.exc)} instead of RSMApplicationError when source is {R.s} and path is {R.p}", R.got.exc.loc, key=f"{app}:wrong exception")]
            if R.seen or fs_events(R.got.events) or fs_events(R.got.events, "fs_read"):
                return [Violation(f"rsm.{app} starts to work on an invalid input", w, key=f"{app}:starts")]
        return []
    return Obligation(f"rsm.{app}: source and path", run, judge, 1000, 1)


def stage_options():
    """handrails, add_source and lint reach the stages (whatever else the stages do)."""
    def run(M):
        d = doc(M, "no title and an unlabelled section")
        R = Run()
        R.app = opt(M, "application", ["render", "make"])
        R.handrails = opt(M, "handrails", [None, True, False])
        kw = {"source": d.source}
        if R.handrails is not None:
            kw["handrails"] = R.handrails
        R.add_source = opt(M, "add_source", [None, True, False]) if R.app == "render" else None
        if R.add_source is not None:
            kw["add_source"] = R.add_source
        R.lint = opt(M, "lint", [None, True, False]) if R.app == "make" else False
        if R.lint is not None and R.app == "make":
            kw["lint"] = R.lint
        R.got = tryrun(M, fn(M, "rsm.app", R.app), [], kw)
        R.source = d.source
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return [Violation(f"rsm.{getattr(R, 'app', '?')} fails", key="options:fails")]
        vs = []
        w = where(M, "rsm.app", R.app)
        body = R.got.val if R.app == "render" else written(M, R.got.events).get("./index.html", written(M, R.got.events).get("index.html"))
        if not isinstance(body, AStr):
            return [Violation(f"rsm.{R.app} gives no page", w, key=f"{R.app}:no page")]
        t = M.norm(body).s
        hr = R.handrails if R.handrails is not None else R.app == "make"
        has = "hr-collapse-zone" in t
        if has != hr:
            vs.append(Violation(f"rsm.{R.app} {'adds' if has else 'does not add'} handrails with handrails={R.handrails}", w, key=f"{R.app}:handrails"))
        src = M.norm(R.source).s in t
        want = hr and (R.add_source is not None and R.add_source if R.app == "render" else True)
        if src != want:
            vs.append(Violation(f"rsm.{R.app} {'includes' if src else 'does not include'} the source with handrails={R.handrails}, add_source={R.add_source}", w, key=f"{R.app}:add_source"))
        lint = any(e["kind"] == "log" and e["level"] == 25 for e in R.got.events)
        wl = R.app == "make" and (R.lint is None or R.lint)
        if lint != wl:
            vs.append(Violation(f"rsm.{R.app} {'lints' if lint else 'does not lint'} with lint={R.lint}", w, key=f"{R.app}:lint"))
        return vs
    return Obligation("handrails, add_source and lint", run, judge, 1000, 2)


COMMANDS = {
    "render": (False, dict(handrails=False, log_format="rsm", silent=False)),
    "lint": (False, dict(handrails=False, log_format="lint", silent=True)),
    "make": (False, dict(handrails=True, log_format="rsm", silent=False)),
}


def command(app, part):
    """A command line means the same as the call with the documented options."""
    def run(M):
        d = doc(M, "no title and an unlabelled section")
        R = Run()
        R.app = app
        o = dict(COMMANDS[app][1], loglevel=30, log_time=True, log_lineno=True)
        argv = []

        def flag(what, opts):
            return opts[M.choose(len(opts), lambda i: f"command line {' '.join(opts[i]) if opts[i] else 'without ' + what}")]
        if part == "output":
            fs = [("-c", [[], ["-c"], ["--string"]]), ("-r", [[], ["-r"], ["--handrails"]]), ("-s", [[], ["-s"], ["--silent"]]), ("-v", [[], ["-v"]])]
        else:
            fs = [("-c", [["-c"]]), ("-v", [[], ["-v"], ["-vv"], ["--verbose", "-v", "-v"]]), ("--log-no-timestamps", [[], ["--log-no-timestamps"]]),
                  ("--log-no-lineno", [[], ["--log-no-lineno"]]), ("--log-format", [[], ["--log-format", "plain"], ["--log-format", "rsm"], ["--log-format=json"], ["--log-format", "lint"]])]
        string = False
        for name, opts in fs:
            f = flag(name, opts)
            argv += f
            if not f:
                continue
            if name == "-c":
                string = True
            elif name == "-r":
                o["handrails"] = True
            elif name == "-s":
                o["silent"] = True
            elif name == "-v":
                o["loglevel"] = 30 - 10 * sum(len(x) - 1 if not x.startswith("--") else 1 for x in f)
            elif name == "--log-no-timestamps":
                o["log_time"] = False
            elif name == "--log-no-lineno":
                o["log_lineno"] = False
            else:
                o["log_format"] = f[-1].split("=")[-1]
        R.argv = argv
        first = part == "output" and M.choose(2, lambda i: ["source last", "source first"][i]) == 1
        s = M.lift(":rsm: ") + d.source + M.lift(" ::") if string else M.lift("docs/in.rsm")
        items = [M.lift(x) for x in argv]
        M.P.argv = AList([s] + items if first else items + [s])
        R.got = tryrun(M, fn(M, "rsm.cli", app))
        R.silent = o.pop("silent")
        R.pr = [probe(M, lv, True) for lv in LEVELS]
        seen = M.modules[H.STUB].env.vars["Parser"].ns["seen"]
        R.n = len(seen.items)
        install(M, d.tree)
        kw = {k: M.lift(v) for k, v in o.items()}
        kw["source" if string else "path"] = s
        R.want = tryrun(M, fn(M, "rsm.app", app), [], kw)
        R.seen = list(seen.items)
        R.pw = [probe(M, lv, True) for lv in LEVELS]
        return R

    def judge(M, P, out, R):
        cmd = f"rsm-{app} {' '.join(getattr(R, 'argv', []))}"
        if out != "ok":
            return [Violation(f"{cmd} fails: {raised(M, R) if out == 'raise' else out}", key=f"rsm-{app}:fails")]
        w = where(M, "rsm.cli", app)
        if R.got.exc is not None or R.want.exc is not None:
            e = R.got.exc or R.want.exc
            return [Violation(f"{cmd} raises {raised(M, e)}", e.loc, key=f"rsm-{app}:raises")]
        vs = []
        if R.got.val not in (0, None) or R.got.val is False:
            vs.append(Violation(f"{cmd} returns {M.show(R.got.val)} although it succeeds", w, key=f"rsm-{app}:status"))
        if R.n != 1 or len(R.seen) != 2 or not (R.seen[0] is R.seen[1] or M.show(R.seen[0]) == M.show(R.seen[1])):
            vs.append(Violation(f"{cmd} does not parse the input that it is given", w, key=f"rsm-{app}:input"))
        outs = [e for e in R.got.events if e["kind"] == "print" and "cli" in e["loc"][0]]
        val = R.want.val
        if R.silent or not M.truth(val):
            if outs:
                vs.append(Violation(f"{cmd} prints something although it is silent or has no output", outs[0]["loc"], key=f"rsm-{app}:prints"))
        elif len(outs) != 1 or len(outs[0]["args"]) != 1 or outs[0]["kwargs"] or not (isinstance(val, AObj) or same_text(M, outs[0]["args"][0], val)):
            vs.append(Violation(f"{cmd} does not print the result of rsm.{app} with these options", w, key=f"rsm-{app}:output",
                                detail=first_diff(M, outs[0]["args"][0], val) if outs else "nothing is printed"))
        if app == "make":
            a, b = written(M, R.got.events), written(M, R.want.events)
            if set(a) != set(b) or any(not same_data(M, a[k], b[k]) for k in a):
                vs.append(Violation(f"{cmd} does not write what rsm.make with these options writes", w, key="rsm-make:output"))
        for p, q in zip(R.pr, R.pw):
            if len(p.out) != len(q.out) or any(not alike(M, x[0], y[0]) or (x[1] is None) != (y[1] is None) for x, y in zip(p.out, q.out)):
                vs.append(Violation(f"{cmd} does not configure the log as rsm.{app} with these options does", w, key=f"rsm-{app}:log"))
                break
        return vs
    return Obligation(f"command line of rsm-{app}: {part} options", run, judge, 20000, 3)


def spell(M, v, depth=6):
    """How a value came about, spelled out."""
    if isinstance(v, Sym) and depth:
        args = v.meta.get("args", ())
        return v.name + ("(" + ", ".join(spell(M, x, depth - 1) for x in args) + ")" if args else "")
    if isinstance(v, AStr):
        return "".join(spell(M, M.P.holes[c], depth - 1) if is_hole(c) and c in M.P.holes and depth else c for c in v.s)
    if isinstance(v, ADict):
        return "{" + ", ".join(f"{spell(M, k, depth)}: {spell(M, x, depth)}" for k, x in v.d.values()) + "}"
    if isinstance(v, (AList, ATuple)):
        return "[" + ", ".join(spell(M, x, depth) for x in v.items) + "]"
    if isinstance(v, AObj):
        return f"a {v.cls.name}"
    return M.show(v)


def alike(M, a, b):
    strip = lambda x: re.sub(r"log message(#\d+)?", "log message", spell(M, x))
    return a is b or strip(a) == strip(b)


def options(M, tier):
    obs = [stage_options()]
    for a in ("render", "lint", "make"):
        obs += [which_input(a), logoptions(a), command(a, "output"), command(a, "log")]
    return obs


RESULTS = ["None", "an empty text", "a text", "a number", "0", "False", "an empty list", "a list", "a tuple", "an empty tuple", "a mapping", "an empty mapping", "an object"]


def pipeline():
    """A pipeline hands each task exactly the result of the task before, whatever that is."""
    def run(M):
        R = Run()
        obj = AObj(M.builtins["object"])
        ws = {"None": None, "an empty text": M.lift(""), "a text": M.strsym("result", truth=True), "a number": 7, "0": 0, "False": False, "an empty list": AList([]),
              "a list": AList([1, 2]), "a tuple": ATuple([1, 2]), "an empty tuple": ATuple([]), "a mapping": ADict(), "an empty mapping": ADict(), "an object": obj}
        M.dict_set(ws["a mapping"], M.lift("key"), 5)
        R.kind = opt(M, "result of the first task", RESULTS)
        first = opt(M, "initial arguments", ["not given", "an object"])
        R.init = obj if first == "an object" else None
        R.value, R.last = ws[R.kind], AObj(M.builtins["object"])
        R.calls = []

        def task(i, res):
            def f(MM, a, k):
                R.calls.append((i, list(a), dict(k)))
                return res
            return M.call(fn(M, "rsm.app", "Task"), [M.lift(f"task{i}"), AObj(M.builtins["object"]), ABuiltin(f"task{i}", f)])
        ts = [task(0, R.value), task(1, R.last)]
        p = M.call(fn(M, "rsm.app", "Pipeline"), [AList(ts)])
        if opt(M, "added afterwards", [False, True]):
            p = M.call(fn(M, "rsm.app", "Pipeline"), [AList([])])
            for t in ts:
                M.call(M.getattr(p, "add_task"), [t])
        R.got = tryrun(M, M.getattr(p, "run"), [] if R.init is None else [R.init])
        return R

    def judge(M, P, out, R):
        w = where(M, "rsm.app", "Pipeline")
        if out != "ok":
            return [Violation(f"a pipeline fails: {raised(M, R) if out == 'raise' else out}", w, key="pipeline:fails")]
        if R.got.exc is not None:
            return [Violation(f"a pipeline raises {raised(M, R.got.exc)} when a task returns {R.kind}", w, key="pipeline:raises")]
        if [c[0] for c in R.calls] != [0, 1]:
            return [Violation(f"a pipeline of two tasks calls {[c[0] for c in R.calls]}", w, key="pipeline:order")]
        vs = []

        def args(v):
            if v is None:
                return [], {}
            if isinstance(v, ADict):
                return [], {M.show(k).strip("'"): x for k, x in v.d.values()}
            if isinstance(v, (AList, ATuple)):
                return list(v.items), {}
            return [v], {}
        for (i, a, k), v, what in ((R.calls[0], R.init, "its initial arguments"), (R.calls[1], R.value, f"the result of the task before ({R.kind})")):
            wa, wk = args(v)
            if len(a) != len(wa) or any(x is not y and x != y for x, y in zip(a, wa)) or {M.show(x).strip("'"): y for x, y in k.items()} != wk:
                vs.append(Violation(f"a pipeline does not hand {what} to its task", w, key="pipeline:arguments"))
        if R.got.val is not R.last:
            vs.append(Violation("a pipeline does not return the result of its last task", w, key="pipeline:result"))
        return vs
    return Obligation("Pipeline: what each task is given", run, judge, 200, 1)


def compositions(M, tier):
    return [pipeline()] + [composition(n, a) for a in ("render", "lint", "make") for n in docs()] + [failing(a, w) for a in ("render", "lint", "make") for w in ("no tree", "a tree that cannot be understood")]


def failing(app, what):
    """An input that cannot be parsed: the application says so and gives nothing."""
    def run(M):
        d = doc(M, "a paragraph")
        R = Run()
        if what == "no tree":
            install(M, None)
        else:
            d.tree.attrs["root_node"] = None
        R.got = tryrun(M, fn(M, "rsm.app", app), [], {"source": d.source})
        return R

    def judge(M, P, out, R):
        if out != "ok":
            return [Violation(f"rsm.{app} fails: {out}", key=f"{app}:fails")]
        w = where(M, "rsm.app", app)
        if R.got.exc is not None:
            return [Violation(f"rsm.{app} lets {raised(M, R.got.exc)} out when the source cannot be parsed", R.got.exc.loc, key=f"{app}:parser error escapes")]
        vs = []
        if not (isinstance(R.got.val, AStr) and R.got.val.s == ""):
            vs.append(Violation(f"rsm.{app} does not return an empty text when the source cannot be parsed", w, key=f"{app}:result after parser error"))
        if not any(e["kind"] == "log" and isinstance(e["level"], int) and e["level"] >= 40 for e in R.got.events):
            vs.append(Violation(f"rsm.{app} does not report that the source cannot be parsed", w, key=f"{app}:parser error unreported"))
        if fs_events(R.got.events):
            vs.append(Violation(f"rsm.{app} writes files although the source cannot be parsed", w, key=f"{app}:writes after parser error"))
        return vs
    return Obligation(f"rsm.{app} when the parser gives {what}", run, judge, 100, 1)
