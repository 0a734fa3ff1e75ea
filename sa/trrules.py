"""Rules over abstract translations."""

from __future__ import annotations

import re

from . import html
from .checklib import Violation
from .html import El
from .nodeshapes import cls, kids
from .trharness import LOSSLESS
from .values import *  # noqa: F401,F403
from .values import AStr, AList, AObj, Lazy, Sym, is_hole


def exc_where(M, val):
    st = getattr(val, "stack", None) or getattr(getattr(val, "exc", None), "stack", None)
    return st


def raised(M, val):
    e = val.exc
    a = e.attrs.get("args")
    msg = ", ".join(M.show(x) for x in a.items) if a is not None else ""
    return f"{e.cls.name}: {msg}"


def balance(M, P, outcome, R):
    if outcome != "ok" or R is None or R.out is None:
        return []
    R.parse()
    out = []
    for pr in R.problems[:3]:
        w = R.where(pr.pos)
        out.append(Violation(f"{R.tname} emits malformed markup for {R.label}: {M_show(M, pr.what)}", w,
                             key=f"{R.tname}:{w[2] if w else '?'}:{classify(pr.what)}",
                             detail="... " + R.excerpt(pr.pos) + " ..."))
    for e in R.dom.walk() if not out else ():
        if e.parent is not None and e.parent.tag == "p" and e.tag == "div" and "mathblock" in e.classes():
            w = R.where(e.pos)
            out.append(Violation(f"{R.tname} puts a math block inside <p>, for {R.label}", w, key=f"{R.tname}:mathblock-in-p",
                                 detail="... " + R.excerpt(e.pos) + " ..."))
    return out


def classify(what):
    return what.split(" near ")[0].split(" (")[0]


def M_show(M, s):
    return "".join(f"{{{M.P.holes[c].name}}}" if is_hole(c) and c in M.P.holes else c for c in s)


# ------------------------------------------------------------------ shared helpers
def tree_nodes(R):
    """All nodes below the root, in document order."""
    out, stack = [], [R.root]
    while stack:
        n = stack.pop()
        out.append(n)
        stack += kids(R.M, n)[::-1]
    return out


def is_a(R, n, name):
    return n.cls.issub(cls(R.M, name))


def field(R, n, k):
    """Value of a field, as this path knows it: AStr/Sym/python value, or None if surely empty."""
    M = R.M
    v = n.attrs.get(k)
    if isinstance(v, Lazy):
        v = v.value if getattr(v, "forced", False) else v
    if isinstance(v, AStr):
        v = M.norm(v)
        return v if v.s else None
    if isinstance(v, Sym):
        if v.bound is not UNBOUND:
            return v.bound if v.bound else None
        if v.truth is False or v.isnone:
            return None
    return v


def hole_of(v):
    """The single hole character of a value, if it is one unknown."""
    if isinstance(v, AStr):
        return v.s if len(v.s) == 1 and is_hole(v.s) else None
    if isinstance(v, Sym):
        return v.hole
    return None


def sym_of(M, v):
    if isinstance(v, Sym):
        return v
    h = hole_of(v)
    return M.P.holes[h] if h else None


def roots(M, h):
    """The unknowns whose whole content a hole carries."""
    out = []
    s = M.P.holes.get(h)
    seen = set()
    todo = [s]
    while todo:
        s = todo.pop()
        if s is None or id(s) in seen:
            continue
        seen.add(id(s))
        out.append(s)
        op = s.meta.get("op")
        if op in LOSSLESS and s.meta.get("src") is not None:
            todo.append(s.meta["src"])
        elif op == "slice" and s.meta.get("src") is not None:
            lo, hi = (list(s.meta.get("extra", ())) + [None, None])[:2]
            src = s.meta["src"]
            if lo in (0, None) and hi is None:
                todo.append(src)
            elif hi is None and isinstance(lo, int) and any(
                    k[0] == "startswith" and v and len(k[1]) == lo for k, v in src.memo.items() if isinstance(k, tuple)):
                # the part cut off is known; the caller checks that it is put back
                s.meta["cut"] = next(k[1] for k, v in src.memo.items()
                                     if isinstance(k, tuple) and k[0] == "startswith" and v and len(k[1]) == lo)
                todo.append(src)
        elif s.meta.get("ext") and "highlight" in s.meta["ext"]:
            for a in s.meta.get("args", [])[:1]:
                todo += M.holesyms(a)
        elif op and str(op).startswith("pygments"):
            todo += s.origin
    return out


MENU = {"hr-menu-zone", "rsm-source", "float-minimap-wrapper", "minimap"}


def visible(el, skip=MENU):
    """Text a reader sees: everything outside menus, the embedded source and the minimaps."""
    out = []
    for c in el.children:
        if isinstance(c, str):
            out.append(c)
        elif not (set(c.classes()) & skip) and c.tag != "svg":
            out.append(visible(c, skip))
    return "".join(out)


def ancestors(el):
    while el is not None:
        yield el
        el = el.parent


# ------------------------------------------------------------------ handrails
ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-content-zone", "hr-info-zone"]
RAILED = ["Theorem", "Sketch", "Proof", "Subproof", "Step", "Author", "Paragraph", "MathBlock"]
UNRAILED = ["Caption"]


def by_nodeid(R, dom):
    d = {}
    for e in dom.walk():
        v = e.attrs.get("data-nodeid")
        if v is not None:
            d.setdefault(v, []).append(e)
    return d


def handrails(M, P, outcome, R):
    if outcome != "ok" or R is None or R.out is None or R.tname == "Translator":
        return []
    dom = R.parse()
    if R.problems:
        return []
    vs = []

    def bad(what, pos, key):
        w = R.where(pos)
        vs.append(Violation(f"{M_show(M, what)}, for {R.label}", w, key=f"{key}:{w[2] if w else '?'}",
                            detail="... " + R.excerpt(pos) + " ..."))
    nhr = 0
    for e in dom.walk():
        cl = e.classes()
        if "hr" in cl:
            nhr += 1
            kinds = [" ".join(c for c in x.classes() if c in ZONES) or f"<{x.tag}>" for x in e.els()]
            if kinds != ZONES:
                bad(f"a handrail has the zones {kinds} instead of {ZONES}", e.pos, "zones")
                continue
            loose = "".join(c for c in e.children if isinstance(c, str)).strip()
            if loose:
                bad(f"a handrail has content outside its zones: {loose[:40]!r}", e.pos, "loose")
            zone = dict(zip(ZONES, e.els()))
            if "hr-labeled" in cl and sum("hr-label" in x.classes() for x in zone["hr-content-zone"].els()) != 1:
                bad("a labeled handrail does not have exactly one label in its content zone", e.pos, "label")
            menus = [x for x in zone["hr-menu-zone"].els() if "hr-menu" in x.classes()]
            for mnu in menus:
                for it in mnu.els():
                    c = it.classes()
                    if "hr-menu-item" not in c:
                        continue
                    if "link" in c:
                        anchor = e
                        if "heading" in cl:
                            anchor = next((a for a in ancestors(e.parent) if a.attrs.get("data-nodeid") or a.tag == "section"), None)
                        ok = anchor is not None and (anchor.attrs.get("id") or ("heading" in cl and "level-1" in anchor.classes()))
                        if "disabled" not in c and not ok:
                            bad("a handrail offers 'copy link' although there is no anchor to link to", it.pos, "link")
                        if "disabled" in c and anchor is not None and anchor.attrs.get("id"):
                            bad("a handrail of a labeled element does not offer 'copy link'", it.pos, "nolink")
                    if len(it.els()) != 2 or "icon" not in it.els()[0].classes():
                        bad("a handrail menu entry does not consist of an icon and a text", it.pos, "item")
                    elif not it.els()[1].text().strip():
                        bad("a handrail menu entry has no text", it.pos, "item")
            if len(menus) > 1:
                bad("a handrail has several menus", e.pos, "menus")
        for z in cl:
            if z in ZONES and "hr" not in (e.parent.classes() if e.parent else []):
                bad(f"a {z} stands outside any handrail", e.pos, "stray")
        if e.tag in ("h1", "h2", "h3", "h4", "h5", "h6"):
            a = e.parent
            if a is None or "hr-content-zone" not in a.classes() or "heading" not in a.parent.classes():
                bad(f"a heading <{e.tag}> is not inside a handrail of its own", e.pos, "heading")
    ids = by_nodeid(R, dom)
    for n in tree_nodes(R):
        if any(is_a(R, n, r) for r in RAILED) and not any(is_a(R, n, r) for r in UNRAILED):
            h = hole_of(n.attrs.get("nodeid"))
            els = ids.get(h, [])
            if not els or not any("hr" in e.classes() for e in els):
                vs.append(Violation(f"a {n.cls.name} is output without a handrail, for {R.label}", None, key=f"nohandrail:{n.cls.name}"))
    R.extra["handrails"] = nhr
    return vs


# ------------------------------------------------------------------ ids
NO_ANCHOR = {"Text", "Error", "SourceCode", "Reference", "URL", "Cite", "Appendix", "UnknownBibitem", "Keyword"}


def identifiers(M, P, outcome, R):
    if outcome != "ok" or R is None or R.out is None:
        return []
    dom = R.parse()
    if R.problems:
        return []
    vs = []

    def bad(what, pos, key):
        w = R.where(pos) if pos is not None else None
        vs.append(Violation(f"{M_show(M, what)}, for {R.label}", w, key=f"{R.tname}:{key}:{w[2] if w else '?'}",
                            detail="... " + R.excerpt(pos) + " ..." if pos is not None else ""))
    ids, hrefs, nids = {}, [], {}
    for e in dom.walk():
        i = e.attrs.get("id")
        if i is not None:
            if i == "":
                bad(f"<{e.tag}> has an empty id", e.pos, "emptyid")
            ids.setdefault(i, []).append(e)
        n = e.attrs.get("data-nodeid")
        if n is not None:
            nids.setdefault(n, []).append(e)
        if e.tag == "a" and (e.attrs.get("href") or "").startswith("#"):
            hrefs.append(e)
    for i, es in ids.items():
        if len(es) > 1:
            bad(f"the id {i} is used by {len(es)} elements", es[1].pos, "dupid")
            if not any(is_hole(c) for c in i):
                vs[-1].key = f"{R.tname}:dupid:{i}"
    for n, es in nids.items():
        if len(es) > 1:
            bad(f"the node {n} is output by {len(es)} elements", es[1].pos, "dupnode")
    labels = set()
    for n in tree_nodes(R):
        lab = field(R, n, "label")
        h = hole_of(lab)
        s = h if h else (lab.s if isinstance(lab, AStr) else None)
        if s:
            labels.add(s)
        if n.cls.name in NO_ANCHOR or not h:
            continue
        y = M.P.holes[h]
        if y.truth is False:
            continue
        es = ids.get(h, [])
        if not es:
            bad(f"the label of a {n.cls.name} is not output as an id, so nothing can link to it", None, f"noid:{n.cls.name}")
    allowed = set(labels)
    for n in tree_nodes(R):
        b = n.attrs.get("backlinks")
        if isinstance(b, Lazy):
            continue
        if isinstance(b, AList):
            for x in b.items:
                if isinstance(x, AStr):
                    allowed.add(M.norm(x).s)
        t = n.attrs.get("targets")
        for x in ([n.attrs.get("target")] + (t.items if isinstance(t, AList) else [])):
            if isinstance(x, AObj):
                l = x.attrs.get("label")
                if isinstance(l, AStr):
                    allowed.add(M.norm(l).s)
    for e in hrefs:
        tgt = e.attrs["href"][1:]
        if tgt not in allowed:
            bad(f"a link points to #{tgt}, which is not the label of its target", e.pos, "href")
    for n in tree_nodes(R):
        if n.cls.name in ("Reference",):
            t = n.attrs.get("target")
            want = hole_of(t.attrs.get("label")) if isinstance(t, AObj) else None
            if want and not any(e.attrs["href"] == "#" + want for e in hrefs):
                bad(f"a {n.cls.name} does not link to its target", None, "noref")
        if n.cls.name == "Cite":
            t = n.attrs.get("targets")
            for x in t.items if isinstance(t, AList) else []:
                l = x.attrs.get("label")
                if isinstance(l, AStr) and not any(e.attrs["href"] == "#" + M.norm(l).s for e in hrefs):
                    bad("a citation does not link to one of its targets", None, "nocite")
            if not any(i == M.norm(n.attrs["label"]).s for i in ids):
                bad("a citation is not output with its id, so its bibliography entry cannot link back", None, "citeid")
        if is_a(R, n, "Bibitem"):
            b = n.attrs.get("backlinks")
            if isinstance(b, AList):
                for x in b.items:
                    if not any(e.attrs["href"] == "#" + M.norm(x).s for e in hrefs):
                        bad("a bibliography entry does not link back to a citation", None, "nobacklink")
            elif isinstance(b, Lazy):
                bad("a bibliography entry ignores the citations that link to it", None, "nobacklink")
    return vs


# ------------------------------------------------------------------ content
CONTENT = {
    "Heading": ["title"], "Author": ["name", "affiliation", "email"], "Abstract": ["keywords", "msc"],
    "Bibitem": ["author", "title", "year"], "Text": ["text"],
}
NOT_SHOWN = {("Note", "title"), ("Item", "title"), ("Caption", "title"), ("Step", "title")}
SPAN_TAGS = {"strong": "strong", "emphas": "em", "little": "small", "insert": "ins", "delete": "del"}


def shown_fields(R, n):
    for c, ks in CONTENT.items():
        if is_a(R, n, c):
            for k in ks:
                if k in n.attrs and (n.cls.name, k) not in NOT_SHOWN and n.cls.name != "UnknownBibitem":
                    yield k
    if is_a(R, n, "Bibitem") and n.cls.name != "UnknownBibitem":
        kind = field(R, n, "kind")
        if isinstance(kind, AStr) and kind.s == "article":
            yield "journal"
        if isinstance(kind, AStr) and kind.s == "book":
            yield "publisher"


def content(M, P, outcome, R):
    if outcome != "ok" or R is None or R.out is None:
        return []
    dom = R.parse()
    if R.problems:
        return []
    vs = []

    def bad(what, key, pos=None):
        w = R.where(pos) if pos is not None else None
        vs.append(Violation(f"{M_show(M, what)}, for {R.label}", w, key=f"{R.tname}:{key}", detail=""))
    vis = visible(dom)
    seen = []
    for i, c in enumerate(vis):
        if is_hole(c):
            for s in roots(M, c):
                if s.meta.get("cut") is not None:
                    cut = s.meta["cut"]
                    if not vis[:i].rstrip().endswith(cut):
                        continue
                seen.append((i, s))
    where = {}
    for i, s in seen:
        where.setdefault(id(s), []).append(i)
    attrs = {}
    for e in dom.walk():
        for k, v in e.attrs.items():
            for c in v:
                if is_hole(c):
                    for s in roots(M, c):
                        attrs.setdefault(id(s), []).append((e.tag, k))
    nodes = tree_nodes(R)
    for n in nodes:
        for k in shown_fields(R, n):
            v = n.attrs.get(k)
            if isinstance(v, Lazy):
                bad(f"the {k} of a {n.cls.name} is never output", f"lost:{n.cls.name}.{k}")
                continue
            items = v.items if isinstance(v, AList) else [v]
            for x in items:
                if isinstance(x, (AStr, Sym)):
                    y = sym_of(M, x)
                    if y is None:
                        continue
                    if y.truth is False or y.isnone or y.bound is not UNBOUND:
                        continue
                    if id(y) not in where:
                        bad(f"the {k} of a {n.cls.name} is not output", f"lost:{n.cls.name}.{k}")
        if is_a(R, n, "Bibitem") and n.cls.name != "UnknownBibitem":
            y = sym_of(M, n.attrs.get("doi"))
            if y is not None and y.truth is not False and y.bound is UNBOUND and id(y) not in attrs:
                bad("the DOI of a bibliography entry is not linked", "lost:Bibitem.doi")
        if is_a(R, n, "Figure"):
            y = sym_of(M, n.attrs.get("path"))
            if y is not None and not any(t == ("img", "src") for t in attrs.get(id(y), [])):
                bad("the image of a figure is not output", "lost:Figure.path")
            y = sym_of(M, n.attrs.get("scale"))
            if y is not None and y.bound is UNBOUND and id(y) not in attrs and not any(
                    isinstance(k, tuple) and k[0] == "eqc" and v for k, v in y.memo.items()):
                bad("the scale of a figure is ignored", "lost:Figure.scale")
        if is_a(R, n, "Span"):
            h = hole_of(n.attrs.get("nodeid"))
            els = by_nodeid(R, dom).get(h, [])
            inside = {x.tag for e in els for x in e.walk() if x is not e}
            direct = set()
            for e in els:
                x = e
                while len(x.els()) >= 1:
                    x = x.els()[0]
                    if x.tag in SPAN_TAGS.values() and not (x.attrs.get("data-nodeid")):
                        direct.add(x.tag)
                    else:
                        break
            for k, tag in SPAN_TAGS.items():
                f = n.attrs.get(k)
                on = f is True or (isinstance(f, Sym) and f.truth is True)
                off = f is False or (isinstance(f, Sym) and f.truth is False)
                if on and tag not in direct:
                    bad(f"a span with {k} is output without <{tag}>", f"span:{k}")
                if off and tag in direct:
                    bad(f"a span without {k} is output with <{tag}>", f"span:{k}")
                if not on and not off:
                    bad(f"the {k} flag of a span is ignored", f"span:{k}")
    # text leaves exactly once, in document order
    last = -1
    for n in nodes:
        if not is_a(R, n, "Text"):
            continue
        y = sym_of(M, n.attrs.get("text"))
        if y is None or y.truth is False or y.bound is not UNBOUND:
            continue
        at = where.get(id(y), [])
        if len(at) > 1:
            bad("the text of a paragraph is output more than once", "twice:text")
        elif at:
            if at[0] < last:
                bad("text is output out of order", "order:text")
            last = at[0]
    return vs


def total(M, P, outcome, R):
    """Translation ends, and ends normally."""
    if outcome == "ok":
        if R is None or R.out is None:
            return [Violation(f"the translation of {R.label if R else '?'} does not yield text", None, key=f"notext:{R.tname if R else ''}")]
        return []
    if outcome == "diverged":
        return [Violation(f"{R.tname} does not terminate on {R.label}", None, key=f"diverge:{R.tname}")]
    if outcome == "raise":
        val = P.value
        w = val.loc
        return [Violation(f"{R.tname if R else ''} fails with {raised(M, val)} on {R.label if R else '?'}", w,
                          key=f"raise:{val.exc.cls.name}:{w[2] if w else '?'}")]
    return []


# ------------------------------------------------------------------ effects
def net_changes(M, events, kind="mutate_frozen"):
    """Mutation events whose effect is still visible at the end of the path."""
    first = {}
    for e in events:
        if e["kind"] == kind:
            first.setdefault((id(e["obj"]), e.get("attr")), e)
    out = []
    for e in events:
        if e["kind"] != kind:
            continue
        f = first.pop((id(e["obj"]), e.get("attr")), None)
        if f is None:
            continue
        now = getattr(e["obj"], e["attr"], None) if e.get("attr") else None
        snap = e.get("snap")
        if isinstance(snap, list) and isinstance(now, list):
            if len(snap) == len(now) and all(same(M, a, b) for a, b in zip(snap, now)):
                continue
            out.append(e)
        elif isinstance(snap, dict) and isinstance(now, dict):
            diff = [k for k in set(snap) | set(now)
                    if not (k in snap and k in now and same(M, snap[k], now[k]))
                    and not isinstance(snap.get(k), Lazy)]
            if diff:
                e["changed"] = diff
                out.append(e)
        else:
            out.append(e)
    return out


def same(M, a, b):
    if a is b:
        return True
    if isinstance(a, AStr) and isinstance(b, AStr):
        return M.norm(a).s == M.norm(b).s
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(M, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return a == b and type(a) is type(b)
    if isinstance(a, AList) and isinstance(b, AList):
        return len(a.items) == len(b.items) and all(same(M, x, y) for x, y in zip(a.items, b.items))
    return False


def obj_name(o):
    if isinstance(o, AObj):
        return o.cls.name
    if getattr(o, "tag", None):
        return str(o.tag)
    return getattr(o, "name", None) or type(o).__name__


def readonly(M, P, outcome, R):
    if outcome not in ("ok", "raise") or R is None:
        return []
    vs = []
    for e in net_changes(M, P.events[R.ev0:]):
        what = f"{e['what']} {', '.join(map(str, e.get('changed', [])))} of a {obj_name(e['obj'])}"
        vs.append(Violation(f"translating modifies the manuscript: {what}, for {R.label}", e["loc"],
                            key=f"mutates:{e['loc'][2]}:{obj_name(e['obj'])}"))
    return vs
