"""Translator obligations: manuscript shapes, their abstract translation, and helpers of the rules."""

from __future__ import annotations

import itertools

from . import html
from .checklib import Obligation, Violation
from .nodeshapes import Shape, cls, freeze_tree, has_children, node_classes
from .values import *  # noqa: F401,F403
from .values import AStr, AList, AObj, Lazy, Sym, AClass, AnalysisError, is_hole

# classes that only exist between passes, or only as bases of other classes
INTERNAL = {"Node", "NodeWithChildren", "Heading", "BaseReference", "BaseParagraph",
            "PendingReference", "PendingPrev", "PendingCite"}
# leaves built with targets by their own shapes
TARGETED = {"Reference", "URL", "Cite"}
LOSSLESS = {"strip", "lstrip", "rstrip", "lower", "upper", "capitalize", "title", "casefold", "escape",
            "replace", "re.sub", "expandtabs", "zfill", "swapcase", "removesuffix", "removeprefix"}


class Run:
    """One abstract translation."""

    def __init__(self, M, S, root, focus, tname, label):
        self.M, self.S, self.root, self.focus, self.tname, self.label = M, S, root, focus, tname, label
        self.out = None
        self.extra = {}

    def where(self, pos):
        p = self.out.p
        if not p:
            return None
        return self.M.provs[p[min(max(pos, 0), len(p) - 1)]]

    def parse(self):
        self.dom, self.problems = html.parse(self.out.s)
        return self.dom

    def excerpt(self, pos, n=60):
        return self.M.show(self.out.slice(max(0, pos - n), pos + n))


def translator_classes(M):
    mod = M.load("rsm.translator")
    out = []
    base = mod.env.vars.get("Translator")
    if not isinstance(base, AClass):
        raise AnalysisError("class Translator not found in rsm.translator")
    for k, v in mod.env.vars.items():
        if isinstance(v, AClass) and v.issub(base) and v not in out:
            out.append(v)
    return out


def parents_of(M, c):
    pp = c.lookup("possible_parents")[0]
    items = []
    if pp is not None and getattr(pp, "d", None):
        items = list(pp.d.values())
    return [x.name for x in items]


def place(S, root, node):
    """Attach node below root, through a legal parent."""
    M = S.M
    pars = parents_of(M, node.cls)
    if not pars:
        S.attach(root, node)
        return root
    par = S.make(sorted(pars)[0], symbolic=False)
    if "Proof" in pars:
        par = S.make("Proof", symbolic=False)
    S.attach(par, node)
    place(S, root, par)
    return par


STRUCT = {"types", "handrail_depth", "label", "nonum", "kind"}


def concrete_classes(M):
    return [c for c in node_classes(M) if c.name not in INTERNAL]


def fill(S, node):
    """Content that the class needs to make sense."""
    M, n = S.M, node.cls.name
    if n == "Construct":
        pass
    if n == "Contents":
        for k in ("Section", "Subsection"):
            sec = S.make(k, symbolic=False)
            it = S.make("Item", symbolic=False)
            t = S.M.strsym(S.name("seclabel"), truth=True)
            sec.attrs["label"] = t
            ref = S.make("Reference", symbolic=False, target=sec)
            ref.attrs["overwrite_reftext"] = M.strsym(S.name("tocentry"), truth=True)
            M.P.holes[ref.attrs["overwrite_reftext"].s].meta["field"] = (ref, "overwrite_reftext")
            S.attach(it, ref)
            S.attach(node, it)


def singles(M, tier):
    """Every class alone, its fields unknown."""
    out = []
    for c in concrete_classes(M):
        if c.name in TARGETED:
            continue
        content = {k for k in attr_names(M, c)} - {"types", "handrail_depth"}
        if tier == "thorough":
            modes = [("all fields", True)]
        else:
            modes = [("content fields", content), ("structural fields", STRUCT)]
        kids = [0, 1] if has_children(M, c) and c.name != "Contents" else [0]
        for mname, mode in modes:
            for k in kids:
                if k == 0 and mname == "structural fields" and has_children(M, c) and c.name != "Contents":
                    continue

                def build(S, c=c, mode=mode, k=k):
                    if c.name == "Manuscript":
                        n = S.make(c, symbolic=mode)
                        root = n
                    else:
                        root = S.make("Manuscript", symbolic=False)
                        n = S.make(c, symbolic=mode)
                        place(S, root, n)
                    fill(S, n)
                    if k:
                        S.attach(n, S.text())
                    return root, n
                out.append((f"{c.name} alone, {mname} unknown, {'a text child' if k else 'no child'}", build, 5))
    return out


def attr_names(M, c):
    o = M.call(c, [])
    return [k for k in o.attrs if not k.startswith("_")]


def rich(S, o):
    """Non-empty label and title, without branching."""
    M = S.M
    for k in ("label", "title"):
        if k == "label" and o.cls.name == "Bibliography":
            continue
        if k in o.attrs and isinstance(o.attrs[k], AStr):
            s = M.strsym(f"{o.tag}.{k}", truth=True)
            M.P.holes[s.s].meta["field"] = (o, k)
            o.attrs[k] = s


def full_fields(S, o, flag=True):
    """Every field of o given, without branching: the richest instance of its class."""
    M = S.M
    for k, v in list(o.attrs.items()):
        if k in ("nodeid", "handrail_depth", "start_point", "end_point", "kind", "reftext_template") or k.startswith("_"):
            continue
        if k == "label" and o.cls.name == "Bibliography":
            continue
        if isinstance(v, bool):
            o.attrs[k] = flag if k != "nonum" else not flag
        elif isinstance(v, AStr):
            s = M.strsym(f"{o.tag}.{k}", truth=True)
            M.P.holes[s.s].meta["field"] = (o, k)
            o.attrs[k] = s
        elif isinstance(v, AList) and k in ("types", "keywords", "msc"):
            o.attrs[k] = AList([M.lift(f"{k}-one"), M.lift(f"{k}-two")])
    if "kind" in o.attrs and o.cls.name == "Bibitem":
        o.attrs["kind"] = M.lift("article" if flag else "book")
    if o.cls.lookup("kind_to_keyword")[0] is not None and "kind" in o.attrs:
        o.attrs["kind"] = M.lift("claim" if flag else "let")


def rich_singles(M):
    """Every class, once with all its fields given and all flags set, once with none set."""
    out = []
    for c in concrete_classes(M):
        if c.name in TARGETED | {"UnknownBibitem"}:
            continue
        for flag in (True, False):
            def build(S, c=c, flag=flag):
                root = S.make("Manuscript", symbolic=False)
                n = root if c.name == "Manuscript" else S.make(c, symbolic=False)
                full_fields(S, n, flag)
                n.attrs["handrail_depth"] = 2 if flag else 0
                if n is not root:
                    place(S, root, n)
                fill(S, n)
                if has_children(S.M, c) and c.name != "Contents":
                    S.attach(n, S.text())
                return root, n
            out.append((f"{c.name} with all fields, flags {'set' if flag else 'clear'}", build, 1))
    return out


COMBOS = {
    "C": ["C"], "CT": ["C", "T"], "TC": ["T", "C"], "CC": ["C", "C"], "TCT": ["T", "C", "T"],
    "TCTCT": ["T", "C", "T", "C", "T"], "CCT": ["C", "C", "T"], "TCC": ["T", "C", "C"],
}


def pairs(M, tier):
    """Every legal (parent class, child class) pair with text around."""
    out = []
    cs = [c for c in concrete_classes(M) if c.name not in TARGETED | {"Contents", "UnknownBibitem", "Bibitem", "Manuscript"}]
    for p in cs:
        if not has_children(M, p):
            continue
        for c in cs:
            pars = parents_of(M, c)
            if pars and p.name not in pars:
                continue
            if tier == "thorough":
                combos = [(k, r) for k in COMBOS for r in (0, 1)]
            elif p.issub(cls(M, "Paragraph")) or c.name in ("MathBlock", "Math"):
                combos = [("C", 0), ("CT", 0), ("TC", 0), ("TCT", 1), ("CCT", 0)]
            else:
                combos = [("CT", 0), ("TC", 1)]

            def build(S, p=p, c=c):
                k, r = S.combo
                root = S.make("Manuscript", symbolic=False)
                n = S.make(p, symbolic=False)
                if r:
                    rich(S, n)
                place(S, root, n)
                for x in COMBOS[k]:
                    if x == "T":
                        S.attach(n, S.text())
                    else:
                        ch = S.make(c, symbolic=False)
                        if r:
                            rich(S, ch)
                        if has_children(M, c):
                            S.attach(ch, S.text())
                        S.attach(n, ch)
                return root, n

            def multi(S, build=build, combos=combos):
                i = S.M.choose(len(combos), lambda i: f"children are {combos[i][0]}"
                               + (", labels and titles given" if combos[i][1] else ", no labels or titles"))
                S.combo = combos[i]
                return build(S)
            out.append((f"{c.name} inside {p.name}", multi, 1))
    return out


def seq(S, parent, names):
    """Attach children described by class names; 'T' is a text leaf; nested lists recurse."""
    made = []
    for x in names:
        if x == "T":
            o = S.text()
        elif isinstance(x, tuple):
            o = S.make(x[0], symbolic=False)
            rich(S, o)
            seq(S, o, x[1])
        else:
            o = S.make(x, symbolic=False)
            rich(S, o)
            if has_children(S.M, o.cls):
                S.attach(o, S.text())
        S.attach(parent, o)
        made.append(o)
    return made


def specials(M, tier, plain=False):
    out = []
    N = 4 if tier == "quick" else 6

    def paras(S):
        k = S.M.choose(N, lambda i: f"the paragraph has {i + 1} children") + 1
        kinds = ["T", "MathBlock", "Math"] if tier == "thorough" and k <= 4 else ["T", "MathBlock"]
        if k <= 3:
            kinds = ["T", "MathBlock", "Math"]
        names = [kinds[S.M.choose(len(kinds), lambda i, j=j: f"child {j} is {kinds[i]}")] for j in range(k)]
        root = S.make("Manuscript", symbolic=False)
        p = S.make("Paragraph", symbolic=False)
        S.attach(root, p)
        seq(S, p, names)
        return root, p
    out.append(("Paragraph with any sequence of text, math and math blocks", paras, 8))

    for host in ("Item", "Step", "Note", "Caption", "Statement", "Abstract", "Section", "Theorem", "Draft", "Span"):
        def hosted(S, host=host):
            k = S.M.choose(3, lambda i: f"{i + 1} children") + 1
            kinds = ["T", "MathBlock", "Math"]
            names = [kinds[S.M.choose(3, lambda i, j=j: f"child {j} is {kinds[i]}")] for j in range(k)]
            root = S.make("Manuscript", symbolic=False)
            p = S.make(host, symbolic=False)
            place(S, root, p)
            seq(S, p, names)
            return root, p
        out.append((f"{host} with any sequence of text, math and math blocks", hosted, 3))

    trees = {
        "a proof with steps and sub-proofs": ("Theorem", ["T", ("Proof", [
            ("Step", [("Statement", ["T"]), ("Subproof", [("Step", [("Statement", ["T", "Math"])]), ("Step", [("Statement", ["T"])])])]),
            ("Step", [("Statement", ["T"])])])]),
        "steps directly inside steps": ("Proof", [("Step", ["T", ("Step", ["T", ("Step", ["T"])])]), ("Step", ["T"])]),
        "a step whose sub-proof has no step": ("Proof", [("Step", [("Statement", ["T"]), ("Subproof", [("Paragraph", ["T"])])])]),
        "a figure and a table with captions": ("Section", [("Figure", [("Caption", ["T", "Math", "T"])]), ("Table", [
            ("TableHead", [("TableRow", [("TableDatum", ["T"]), ("TableDatum", ["Math"])])]),
            ("TableBody", [("TableRow", [("TableDatum", ["T"]), ("TableDatum", ["T"])]), ("TableRow", [("TableDatum", ["T"])])]),
            ("Caption", ["T"])])]),
        "nested lists": ("Enumerate", [("Item", ["T", ("Itemize", [("Item", ["T"]), ("Item", ["T", ("Enumerate", [("Item", ["T"])])])])]), ("Item", ["T"])]),
        "nested sections": ("Section", [("Paragraph", ["T"]), ("Subsection", [("Paragraph", ["T"]), ("Subsubsection", [("Paragraph", ["T", "MathBlock", "T"])])]), ("Subsection", [])]),
        "constructs and keywords": ("Paragraph", [("Construct", [("Keyword", ["T"]), "T", "Math"]), "T", ("ClaimBlock", [("MathBlock", ["T"])]), ("Span", ["T"]), "T"]),
        "code and algorithms": ("Section", [("CodeBlock", [("SourceCode", [])]), ("Paragraph", ["T", ("Code", [("SourceCode", [])]), "T"]), ("Algorithm", ["T"])]),
        "notes and drafts": ("Paragraph", ["T", ("Note", ["T", "Math"]), "T", ("Draft", ["T"]), ("Note", ["T"])]),
        "errors between text": ("Paragraph", ["T", "Error", "T"]),
        "abstract, author and bibliography": ("Section", [("Author", []), ("Abstract", [("Paragraph", ["T"]), ("Paragraph", ["T"])]), ("Bibliography", [("Bibitem", []), ("Bibitem", [])])]),
        "an appendix between sections": ("Section", [("Paragraph", ["T"]), ("Appendix", []), ("Paragraph", ["T"])]),
    }
    for nm, (top, kids) in trees.items():
        def tree(S, top=top, kids=kids):
            root = S.make("Manuscript", symbolic=False)
            rich(S, root)
            o = S.make(top, symbolic=False)
            rich(S, o)
            S.attach(root, o)
            seq(S, o, kids)
            return root, o
        out.append((nm, tree, 2))
    if plain:
        return out[-len(trees):]

    targets = [c.name for c in concrete_classes(M)
               if c.name not in TARGETED | {"Text", "Error", "SourceCode", "Manuscript", "Appendix", "UnknownBibitem", "Contents", "Bibliography"}]
    for tn in targets:
        def ref(S, tn=tn):
            root = S.make("Manuscript", symbolic=False)
            t = S.make(tn, symbolic={"nonum", "reftext_template"})
            lab = S.M.strsym(f"{t.tag}.label", truth=True)
            S.M.P.holes[lab.s].meta["field"] = (t, "label")
            t.attrs["label"] = lab
            if "kind_to_keyword" in [k for c in t.cls.mro for k in c.ns]:
                t.attrs["kind"] = S.M.lift("claim")
            place(S, root, t)
            p = S.make("Paragraph", symbolic=False)
            S.attach(root, p)
            S.attach(p, S.text())
            r = S.make("Reference", symbolic={"overwrite_reftext", "types"}, target=t)
            S.attach(p, r)
            S.attach(p, S.text())
            return root, r
        out.append((f"a reference to {tn}", ref, 1))

    def url(S):
        root = S.make("Manuscript", symbolic=False)
        p = S.make("Paragraph", symbolic=False)
        S.attach(root, p)
        u = S.make("URL", symbolic={"overwrite_reftext", "types"})
        t = S.M.strsym("URL.target", truth=True)
        S.M.P.holes[t.s].meta["field"] = (u, "target")
        u.attrs["target"] = t
        seq(S, p, ["T"])
        S.attach(p, u)
        seq(S, p, ["T"])
        return root, u
    out.append(("a URL", url, 1))

    def cite(S):
        M = S.M
        root = S.make("Manuscript", symbolic=False)
        p = S.make("Paragraph", symbolic=False)
        S.attach(root, p)
        bib = S.make("Bibliography", symbolic=False)
        k = M.choose(4, lambda i: f"the citation has {i} targets")
        items = []
        for j in range(k):
            unk = M.choose(2, lambda i, j=j: f"target {j} is {'known' if i == 0 else 'unknown'}")
            if unk:
                t = S.make("UnknownBibitem", symbolic=False, number="?")
                t.attrs["label"] = M.strsym(f"unknown{j}", truth=True)
            else:
                t = S.make("Bibitem", symbolic=False)
                rich(S, t)
                S.attach(bib, t)
            t.attrs["backlinks"] = AList([M.lift("cite-0")])
            items.append(t)
        c = S.make("Cite", symbolic={"types"})
        c.attrs["targets"] = AList(items)
        c.attrs["label"] = M.lift("cite-0")
        S.attach(p, S.text())
        S.attach(p, c)
        S.attach(p, S.text())
        S.attach(root, bib)
        return root, c
    out.append(("a citation", cite, 3))

    def toc(S):
        M = S.M
        root = S.make("Manuscript", symbolic={"title", "src"})
        con = S.make("Contents", symbolic=False)
        S.attach(root, con)
        k = M.choose(3, lambda i: f"{i} sections")
        named = M.choose(2, lambda i: ["the sections have labels", "the sections have no labels"][i]) == 0
        for j in range(k):
            sec = S.make("Section", symbolic=False)
            sub = S.make("Subsection", symbolic=False)
            subsub = S.make("Subsubsection", symbolic=False)
            for x in (sec, sub, subsub):
                rich(S, x)
                if not named:
                    x.attrs["label"] = M.lift("")

            def item(par, target):
                it = S.make("Item", symbolic=False)
                r = S.make("Reference", symbolic=False, target=target)
                r.attrs["overwrite_reftext"] = M.strsym(S.name("tocentry"), truth=True)
                M.P.holes[r.attrs["overwrite_reftext"].s].meta["field"] = (r, "overwrite_reftext")
                S.attach(it, r)
                S.attach(par, it)
                return it
            it = item(con, sec)
            ul = S.make("Itemize", symbolic=False)
            S.attach(it, ul)
            it2 = item(ul, sub)
            ul2 = S.make("Itemize", symbolic=False)
            S.attach(it2, ul2)
            item(ul2, subsub)
            S.attach(sub, subsub)
            S.attach(sec, sub)
            S.attach(root, sec)
        return root, con
    out.append(("a table of contents", toc, 3))

    def dots(S):
        M = S.M
        root = S.make("Manuscript", symbolic=False)
        p = S.make("Paragraph", symbolic=False)
        S.attach(root, p)
        alts = [["Math", "T"], ["T", "Math", "T"], ["Math", "Math", "T"], ["Math", "T", "Math", "T"],
                ["Span", "T"], ["Math", "Span", "T"], ["T", "T"], ["MathBlock", "T"], ["Math"], ["Code", "T"]]
        i = M.choose(len(alts), lambda i: f"children are {alts[i]}")
        seq(S, p, alts[i])
        return root, p
    out.append(("text after inline math", dots, 3))
    return out


def shapes(M, tier):
    return singles(M, tier) + specials(M, tier) + pairs(M, tier)


def translate(M, T, root, **opts):
    tr = M.call(T, [], {"quiet": True, **opts})
    return M.call(M.getattr(tr, "translate"), [root])


def obligations(M, tier, rule, translators=None, select=None, two=False, freeze=False):
    """One obligation per (translator, shape); `rule(R)` returns violations of a finished run."""
    obs = []
    for T in translators or translator_classes(M):
        for name, build, w in shapes(M, tier):
            if select and not select(name):
                continue

            def run(M, T=T, build=build, name=name):
                S = Shape(M)
                root, focus = build(S)
                R = Run(M, S, root, focus, T.name, name)
                M.P.run = R
                if freeze:
                    R.frozen = freeze_tree(M, root)
                n0 = len(M.P.events)
                R.ev0 = n0
                out = translate(M, T, root)
                R.result = out
                R.out = M.norm(out) if isinstance(out, AStr) else None
                return R

            def judge(M, P, outcome, val, T=T, name=name):
                P.value = val
                return rule(M, P, outcome, P.run if hasattr(P, "run") else None)
            obs.append(Obligation(f"{T.name}: {name}", run, judge, weight=w))
    return obs
