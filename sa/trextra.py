"""Relational translator obligations: reuse, determinism, agreement of the two output modes."""

from __future__ import annotations

from .checklib import Obligation, Violation
from .nodeshapes import Shape, cls, has_children
from .trharness import Run, rich, seq, shapes, rich_singles, specials, translate, translator_classes, place
from .trrules import M_show, net_changes, obj_name, raised, roots, visible, tree_nodes
from . import html
from .values import *  # noqa: F401,F403
from .values import AStr, AList, AObj, is_hole


def other(S, fail=False):
    """A second manuscript touching every kind of node; node ids and labels overlap with the first."""
    M = S.M
    root = S.make("Manuscript", symbolic=False)
    rich(S, root)
    sec = S.make("Section", symbolic=False)
    S.attach(root, sec)
    thm = S.make("Theorem", symbolic=False)
    rich(S, thm)
    S.attach(sec, thm)
    seq(S, thm, [("Paragraph", ["T", "MathBlock", "T"]), ("Proof", [("Step", [("Statement", ["T", "Math", "T"])])])])
    seq(S, sec, [("Itemize", [("Item", ["T"])]), ("Figure", [("Caption", ["T"])]), ("Bibliography", [("Bibitem", [])]),
                 ("Abstract", []), ("Author", []), ("Paragraph", [("Construct", [("Keyword", ["T"])]), ("Note", ["T"]), ("Span", ["T"]), ("Code", [])])])
    if fail:
        p = S.make("Paragraph", symbolic=False)
        S.attach(thm, p)
        S.attach(p, S.make("Reference", symbolic=False))  # no target: translating it fails
    number(M, root)
    return root


def number(M, root):
    stack, i = [root], 0
    while stack:
        n = stack.pop()
        n.attrs["nodeid"] = i
        i += 1
        k = n.attrs.get("_children")
        if isinstance(k, AList):
            stack += k.items[::-1]


def canon(M, s):
    """A template with its unknowns named by how they were computed: equal iff surely equal text."""
    return tuple(c if not is_hole(c) else ckey(M, M.P.holes[c]) for c in s)


def ckey(M, v, depth=0):
    if depth > 6:
        return ("deep", id(v))
    if isinstance(v, AStr):
        return tuple(c if not is_hole(c) else ckey(M, M.P.holes[c], depth + 1) for c in M.norm(v).s)
    if isinstance(v, Sym):
        if v.bound is not UNBOUND:
            return v.bound
        op = v.meta.get("op")
        if op and "args" in v.meta and "src" not in v.meta:
            kw = v.meta.get("kwargs") or {}
            return (op, tuple(ckey(M, a, depth + 1) for a in v.meta["args"]),
                    tuple((k, ckey(M, x, depth + 1)) for k, x in sorted(kw.items())))
        if op and v.meta.get("src") is not None:
            return (op, v.meta.get("extra"), ckey(M, v.meta["src"], depth + 1))
        return ("sym", v.uid)
    if isinstance(v, (AList, ATuple)):
        return tuple(ckey(M, x, depth + 1) for x in v.items)
    if isinstance(v, (AObj,)):
        if v.cls.ext_bases or not v.attrs:
            return ("instance", v.cls.name)
        return ("obj", id(v))
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return ("v", getattr(v, "name", None) or id(v))


def reuse_obligations(M, tier):
    """A translator that was used before (or failed before) yields what a fresh one yields."""
    obs = []
    for T in translator_classes(M):
        plain = rich_singles(M) + specials(M, tier, plain=True)
        names = {n for n, _, _ in plain}
        more = [x for x in shapes(M, "quick") if x[0] not in names and " inside " not in x[0]] if tier == "thorough" else []
        for name, build, w in plain + more:
            def run(M, T=T, build=build, name=name, again=name in names):
                S = Shape(M)
                root, focus = build(S)
                number(M, root)
                R = Run(M, S, root, focus, T.name, name)
                M.P.run = R
                fresh = translate(M, T, root)
                uses = ["on a manuscript with other content", "and failed"] + (["on a manuscript of the same form"] if again else [])
                fail = M.choose(len(uses), lambda i: f"the translator was used before {uses[i]}")
                tr = M.call(T, [], {"quiet": True})
                if fail == 2:
                    b, _ = build(Shape(M))
                    number(M, b)
                else:
                    b = other(Shape(M), fail == 1)
                try:
                    M.call(M.getattr(tr, "translate"), [b])
                except PyRaise:
                    if fail != 1:
                        raise
                R.again = M.norm(M.call(M.getattr(tr, "translate"), [root]))
                R.once = M.norm(M.call(M.getattr(tr, "translate"), [root]))
                R.out = M.norm(fresh)
                return R

            def judge(M, P, outcome, val, name=name, T=T):
                R = getattr(P, "run", None)
                if outcome == "raise" and R is not None and R.out is None:
                    w = val.loc
                    return [Violation(f"{T.name} fails on its second use: {raised(M, val)}, for {name}", w,
                                      key=f"{T.name}:second:{val.exc.cls.name}:{w[2] if w else '?'}")]
                if outcome != "ok" or R.out is None:
                    return []
                vs = []
                for what, o in (("after another manuscript", R.again), ("the second time in a row", R.once)):
                    a, b = M.norm(R.out), M.norm(o)
                    ca, cb = canon(M, a.s), canon(M, b.s)
                    if ca != cb:
                        i = next((i for i, (x, y) in enumerate(zip(ca, cb)) if x != y), min(len(a.s), len(b.s)))
                        prov = M.provs[b.p[min(i, len(b.p) - 1)]] if b.p else None
                        vs.append(Violation(f"{T.name} gives a different result {what}, for {name}", prov,
                                            key=f"{T.name}:differs:{prov[2] if prov else '?'}",
                                            detail=f"first: {M.show(a.slice(max(0, i - 40), i + 60))}\nthen:  {M.show(b.slice(max(0, i - 40), i + 60))}"))
                for e in net_changes(M, P.events, "mutate_boot"):
                    if obj_name(e["obj"]).startswith("logging"):
                        continue
                    vs.append(Violation(f"translating modifies state shared by all translators: {e['what']} {e.get('key', '')} of {obj_name(e['obj'])}",
                                        e["loc"], key=f"shared:{e['loc'][2]}:{obj_name(e['obj'])}"))
                return vs
            obs.append(Obligation(f"{T.name} reused: {name}", run, judge, weight=w))
    return obs


def flatten(M, s):
    """Visible text with cut-off known prefixes put back and blanks removed."""
    out = []
    for c in s:
        if is_hole(c):
            rs = roots(M, c)
            y = rs[0]
            cut = y.meta.get("cut")
            if cut:
                for ch in cut:
                    if out and out[-1] == ch:
                        out.pop()
                    else:
                        out.append("\0")
                out.append(rs[-1].hole)
            else:
                out.append(c)
        elif not c.isspace():
            out.append(c)
    return "".join(out)


SKIP = {"hr-menu-zone", "hr-info-zone", "rsm-source", "float-minimap-wrapper", "minimap"}


def agree_obligations(M, tier):
    """Both output modes show the same text."""
    Ts = translator_classes(M)
    base = [t for t in Ts if t.name == "Translator"]
    obs = []
    for T in Ts:
        if T in base:
            continue
        for name, build, w in shapes(M, tier):
            if "alone, structural" in name and tier == "quick":
                continue

            def run(M, T=T, build=build, name=name):
                S = Shape(M)
                root, focus = build(S)
                R = Run(M, S, root, focus, T.name, name)
                M.P.run = R
                R.a = M.norm(translate(M, base[0], root))
                R.out = M.norm(translate(M, T, root))
                R.a = M.norm(R.a)
                return R

            def judge(M, P, outcome, val, name=name, T=T):
                R = getattr(P, "run", None)
                if outcome != "ok":
                    return []
                d1, p1 = html.parse(R.a.s)
                d2, p2 = html.parse(R.out.s)
                if p1 or p2:
                    return []
                t1, t2 = flatten(M, visible(d1, SKIP)), flatten(M, visible(d2, SKIP))
                # the link of a bibliography entry moves to the info zone
                t1 = t1.replace("[link]", "")
                if canon(M, t1) != canon(M, t2):
                    i = next((i for i, (x, y) in enumerate(zip(t1, t2)) if x != y), min(len(t1), len(t2)))
                    return [Violation(f"the two output modes show different text, for {name}", None,
                                      key=f"agree:{name.split(' alone')[0]}",
                                      detail=f"plain:     {M_show(M, t1[max(0, i - 40):i + 60])}\nhandrails: {M_show(M, t2[max(0, i - 40):i + 60])}")]
                return []
            obs.append(Obligation(f"{T.name} vs Translator: {name}", run, judge, weight=w))
    return obs
