"""Transformer obligations: abstract manuscript trees before the transform step, and the rules on the result."""

from __future__ import annotations

from .checklib import Obligation, Violation
from .nodeshapes import Shape, cls, has_children, kids, node_classes
from .trrules import raised, same, hole_of, obj_name, net_changes
from .values import *  # noqa: F401,F403
from .values import AStr, AList, AObj, Lazy, Sym, AClass, is_hole, UNBOUND

# ------------------------------------------------------------------ what is promised, independently of the code
WITHIN = {  # class -> class it is numbered within (None: the whole manuscript)
    "Section": None, "Subsection": "Section", "Subsubsection": "Subsection",
    "Theorem": "Section", "MathBlock": "Section", "Figure": "Section",
    "Table": None, "Algorithm": None, "Bibitem": None,
}
THEOREMS = ["Theorem", "Lemma", "Corollary", "Example", "Exercise", "Proposition", "Problem", "Porism", "Remark", "Definition"]
AS = {t: "Theorem" for t in THEOREMS}
for _t in THEOREMS:
    WITHIN[_t] = "Section"
RAILED = set(THEOREMS) | {"Proof", "Sketch", "Step"}
NOT_ASSUMPTION = {"then", "suffices", "claim", "claimblock", "qed", "prove"}
REFTEXT = {t: t + " {}" for t in THEOREMS}
REFTEXT.update({"Section": "Section {}", "Subsection": "Section {}", "Subsubsection": "Section {}", "MathBlock": "({})", "Figure": "Figure {}",
                "Table": "Table {}", "Algorithm": "Algorithm {}", "Bibitem": "{}", "Step": "Step \u27e8{}\u27e9"})


class Tree:
    """Builds one manuscript; remembers what it built."""

    def __init__(self, M):
        self.M = M
        self.S = Shape(M)
        self.root = self.node("Manuscript")

    def node(self, cname, **fields):
        M = self.M
        o = M.call(cls(M, cname), [])
        o.tag = self.S.name(cname)
        ty = o.attrs.get("types")
        if isinstance(ty, AList):  # a type that the author gave it
            s = M.strsym(f"{o.tag}.types[0]", truth=True)
            y = M.P.holes[s.s]
            y.memo[("distinct",)] = True
            if getattr(M, "fresh_types", True):
                y.memo[("fresh",)] = True
            ty.items.append(s)
        for k, v in fields.items():
            o.attrs[k] = M.lift(v) if isinstance(v, (str, list, tuple, dict)) else v
        return o

    def label(self, name, truth=None):
        return self.M.strsym(self.S.name(name), truth=truth)

    def add(self, parent, spec):
        """spec: 'T' | 'Class' | ('Class', {fields}, [children...]) | ('Class', [children...]) | an AObj"""
        M = self.M
        if isinstance(spec, AObj):
            self.S.attach(parent, spec)
            return spec
        fields, sub = {}, []
        if isinstance(spec, tuple):
            for x in spec[1:]:
                if isinstance(x, dict):
                    fields = x
                else:
                    sub = x
            spec = spec[0]
        if spec == "T":
            o = self.node("Text")
            o.attrs["text"] = M.strsym(self.S.name("text"))
        else:
            o = self.node(spec, **fields)
        self.S.attach(parent, o)
        for s in sub:
            self.add(o, s)
        return o

    def add_all(self, specs):
        for s in specs:
            self.add(self.root, s)
        return self.root

    def pick(self, what, n, show=None):
        return self.M.choose(n, (lambda i: f"{what}: {show(i)}") if show else (lambda i: f"{what} = {i}"))


def preorder(M, root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        out.append(n)
        stack += kids(M, n)[::-1]
    return out


class Run:
    pass


def snapshot(M, root):
    d = {}
    for n in preorder(M, root):
        d[id(n)] = (n, dict(n.attrs), list(kids(M, n)), list(n.attrs["types"].items) if isinstance(n.attrs.get("types"), AList) else None)
    return d


# ------------------------------------------------------------------ shapes
def alternatives():
    P = ("Paragraph", ["T"])
    eq = ("MathBlock", ["T"])
    return [
        ("Section", [P]),
        ("Section", {"nonum": True}, ["Theorem", ("Subsection", [])]),
        ("Section", [("Subsection", ["Theorem", ("Subsubsection", ["Figure"]), ("Subsubsection", {"nonum": True}, [])]), ("Subsection", {"nonum": True}, []),
                     ("Subsection", [("Subsubsection", [eq])])]),
        ("Section", ["Theorem", "Lemma", ("Theorem", {"nonum": True}, []), ("Proposition", [("Paragraph", ["T", eq, "T"])]), ("Remark", []), ("Definition", [])]),
        ("Section", [("Paragraph", [eq, ("MathBlock", {"nonum": True}, ["T"]), eq]), ("Figure", [("Caption", ["T"])]), ("Figure", {"nonum": True}, []), ("Table", [("Caption", ["T"])])]),
        "Theorem",
        ("Corollary", {"nonum": True}, [P]),
        ("Paragraph", ["T", eq]),
        ("Figure", [("Caption", ["T"])]),
        ("Table", {"nonum": True}, []),
        ("Algorithm", ["T"]),
        "Appendix",
        ("Bibliography", ["Bibitem", "Bibitem"]),
        ("Theorem", [("Proof", [("Step", ["T", ("Step", ["T"]), ("Step", ["T", eq])]), ("Step", {"nonum": True}, ["T"]), ("Step", ["T", ("Subproof", [("Step", ["T"])])])])]),
        ("Section", ["Example", "Exercise", "Problem", "Porism", ("Subsection", ["Table", "Algorithm", ("Corollary", [])]), eq]),
        ("Itemize", [("Item", ["T", ("Enumerate", [("Item", [eq])])]), ("Item", [])]),
    ]


def shapes(M, tier):
    """(name, builder(Tree), weight)"""
    out = []
    alts = alternatives()
    n = 3 if tier == "quick" else 4

    def show(a):
        return a if isinstance(a, str) else f"{a[0]}" + ("(unnumbered)" if any(isinstance(x, dict) and x.get("nonum") for x in a[1:]) else "") + \
            ("[" + ", ".join(show(y) for x in a[1:] if isinstance(x, list) for y in x) + "]" if any(isinstance(x, list) and x for x in a[1:]) else "")

    for i, first in enumerate(alts):
        def mix(t, first=first, i=i):
            seqs = [first]
            # all pairs; triples whose third element is a coarse representative
            for j in range(1, n):
                pool = alts if j == 1 else [alts[0], alts[1], alts[2], alts[3], alts[5], alts[7], alts[11]]
                k = t.pick(f"element {j + 1}", len(pool) + 1, lambda k: "none" if k == 0 else show(pool[k - 1]))
                if k == 0:
                    break
                seqs.append(pool[k - 1])
            if t.pick("table of contents", 2, lambda k: ["none", "first"][k]):
                t.add(t.root, "Contents")
            t.add_all(seqs)
        out.append((f"manuscript starting with {show(first)}", mix, 10))

    places = ["first", "last", "first and last", "inside the first section"]
    kinds1 = ["numbered", "unnumbered", "after a paragraph", "in an appendix", "with a theorem"]

    def toc(t, nsec, where, k1):
        if where in (0, 2):
            t.add(t.root, "Contents")
        for s in range(nsec):
            k = k1 if s == 0 else 0
            if k == 2:
                t.add(t.root, ("Paragraph", ["T"]))
            if k == 3:
                t.add(t.root, "Appendix")
            sec = t.add(t.root, ("Section", {"nonum": k == 1}, []))
            sec.attrs["title"] = t.label("title")
            if k == 4:
                t.add(sec, "Theorem")
            if where == 3 and s == 0:
                t.add(sec, "Contents")
            deep = s == 0 or (where == 0 and k1 == 0) or tier == "thorough"
            nsub = t.pick(f"subsections of section {s + 1}", 3) if deep else 1
            for b in range(nsub):
                sub = t.add(sec, ("Subsection", [("Paragraph", ["T"])]))
                sub.attrs["title"] = t.label("title")
                for c in range(t.pick(f"subsubsections of subsection {b + 1} of section {s + 1}", 3) if deep else 0):
                    ss = t.add(sub, ("Subsubsection", {"nonum": c == 1}, []))
                    ss.attrs["title"] = t.label("title")
            if nsub and s == 0 and t.pick(f"section {s + 1} ends with", 2, lambda k: ["its last subsection", "a paragraph"][k]):
                t.add(sec, ("Paragraph", ["T"]))
        if where in (1, 2):
            t.add(t.root, "Contents")
    for ns in (0, 1) + ((2,) if tier == "quick" else (2, 3)):
        for wh in range(4 if ns else 3):
            for k1 in range(5 if ns else 1):
                out.append((f"table of contents {places[wh]}, {ns} sections" + (f", the first {kinds1[k1]}" if ns else ""),
                            lambda t, ns=ns, wh=wh, k1=k1: toc(t, ns, wh, k1), 30 if ns > 1 else 10))

    def many_tocs(t):
        M = t.M
        a = t.add(t.root, ("Section", [("Subsection", [("Paragraph", ["T"])])]))
        th = t.add(t.root, ("Theorem", [("Paragraph", ["T"])]))
        b = t.add(t.root, ("Section", [("Subsection", [])]))
        homes = [("at the top", t.root, 0), ("at the start of the first section", a, 0), ("at the end of the first section", a, None), ("in its subsection", kids(M, a)[0], None),
                 ("in the theorem", th, None), ("at the end", t.root, None), ("in the last subsection", kids(M, b)[0], None)]
        chosen = [t.pick(f"table of contents {j + 1}", len(homes), lambda i: homes[i][0]) for j in range(2)]
        if t.pick("a third table of contents", 2, lambda i: ["none", "at the end"][i]):
            chosen.append(5)
        for i in chosen:
            _, par, pos = homes[i]
            t.add(par, "Contents")
            if pos is not None:
                items = par.attrs["_children"].items
                items.insert(pos, items.pop())
        for x in (a, b):
            x.attrs["title"] = t.label("title")
    out.append(("several tables of contents", many_tocs, 30))

    def refs(t, kind):
        labs = [t.label("label", None) for _ in range(3)]
        sec = t.add(t.root, ("Section", [("Paragraph", ["T"])]))
        sec.attrs["label"] = labs[0]
        p = t.add(sec, ("Paragraph", ["T"]))
        thm = t.add(sec, "Theorem")
        thm.attrs["label"] = labs[1]
        eq = t.add(thm, ("Paragraph", [("MathBlock", ["T"])]))
        eq.attrs["label"] = labs[2]

        def ref(par):
            r = t.node("PendingReference", target=t.label("target"), overwrite_reftext=t.label("reftext"))
            t.add(par, r)
        if kind == "one reference":
            ref(p)
            t.add(p, "T")
        elif kind == "two references":
            for o in (thm, eq, sec):
                o.attrs["label"] = o.attrs["label"] if o is thm else t.M.lift("")
            sec.attrs["label"] = labs[0]
            ref(p)
            t.add(p, "T")
            ref(eq)
        elif kind == "references as only and last children":
            q = t.add(sec, ("Paragraph", []))
            ref(q)
            q2 = t.add(thm, ("Itemize", [("Item", [("Span", {"strong": True}, [])])]))
            ref(kids(M, kids(M, q2)[0])[0])
        t.labels = labs
    for kind in ("one reference", "two references", "references as only and last children"):
        out.append((f"references: {kind}", lambda t, k=kind: refs(t, k), 20))

    def cites(t, nt):
        p = t.add(t.root, ("Paragraph", ["T"]))
        if len(nt) == 1 and 0 < nt[0] < 3 and t.pick("another element with a label", 2, lambda i: ["none", "a section"][i]):
            t.add(t.root, ("Section", [("Paragraph", ["T"])])).attrs["label"] = t.label("label", True)
        bib = t.node("Bibliography")
        for j in range(2):
            b = t.node("Bibitem", label=t.label("bibkey", True))
            t.add(bib, b)
        first = t.pick("the bibliography comes", 2, lambda k: ["after", "before"][k])
        if first:
            t.S.attach(t.root, bib)
            t.root.attrs["_children"].items.reverse() if "_children" in t.root.attrs else None
        for k in nt:
            c = t.node("PendingCite")
            c.attrs["targetlabels"] = AList([t.label("key", True) for _ in range(k)])
            t.add(p, c)
            t.add(p, "T")
        if not first:
            t.add(t.root, bib)
    for nt in ([0], [1], [2], [1, 1]) + (([3], [2, 1], [1, 1, 1]) if tier == "thorough" else ()):
        out.append((f"citations with {nt} keys", lambda t, nt=nt: cites(t, nt), 20))

    def prev(t):
        k = t.pick("reference to the step", 3, lambda k: f"{k + 1} before")
        where = t.pick("placed in", 5, lambda i: ["the statement of the 4th step", "the 1st step of its sub-proof", "the 3rd nested step", "the 2nd step", "a paragraph outside any proof"][i])
        pr = t.add(t.root, ("Proof", []))
        steps = [t.add(pr, ("Step", ["T"])) for _ in range(4)]
        for s in steps:
            s.attrs["label"] = t.label("steplabel", truth=None if s is steps[2] else True)
        sub = [t.add(steps[3], ("Step", ["T"])) for _ in range(3)]
        p = t.node("PendingPrev", target=str(k + 1), overwrite_reftext=t.label("reftext"))
        if where == 0:
            t.S.attach(steps[3], p)
            items = steps[3].attrs["_children"].items
            items.insert(1, items.pop())
        elif where == 1:
            t.add(sub[0], p)
        elif where == 2:
            t.add(t.add(sub[2], ("Span", [])), p)
        elif where == 3:
            t.add(steps[1], p)
        else:
            q = t.add(t.root, ("Paragraph", ["T"]))
            t.add(q, p)
        t.prev = (p, k + 1, where, steps, sub)
    out.append(("references to previous steps", prev, 10))

    def steps(t, n, a, z):
        M = t.M
        pr = t.add(t.root, ("Theorem", [("Proof", [])]))
        pr = kids(M, pr)[0]
        menu = ["no children", "text", "text and math", "text and a paragraph with math block", "text and two steps", "only a step", "text and a sub-proof with steps",
                "only a sub-proof", "a construct, text and nested steps", "two levels of nested steps", "text, a step and other elements after it"]
        sub = {
            "no children": [], "text": ["T"], "text and math": ["T", ("Math", ["T"]), "T"],
            "text and a paragraph with math block": ["T", ("MathBlock", ["T"]), "T"],
            "text and two steps": ["T", ("Step", ["T"]), ("Step", ["T"])], "only a step": [("Step", ["T"])],
            "text and a sub-proof with steps": ["T", ("Subproof", [("Step", ["T"]), ("Step", ["T", ("Subproof", [("Paragraph", ["T"])])])])],
            "only a sub-proof": [("Subproof", [("Paragraph", ["T"])])],
            "a construct, text and nested steps": [("Construct", {"kind": "let"}, ["T"]), "T", ("Step", [("Construct", {"kind": "then"}, ["T"])])],
            "two levels of nested steps": ["T", ("Step", ["T", ("Step", ["T"]), ("Step", ["T"])]), ("Step", [])],
            "text, a step and other elements after it": ["T", ("Step", ["T"]), ("MathBlock", ["T"]), ("Paragraph", ["T"]), "T", ("Itemize", [("Item", ["T"])]), ("Construct", {"kind": "then"}, ["T"]), ("Step", ["T"])],
        }
        for i in range(n):
            if i == 1 and a:
                t.add(pr, ("Paragraph", ["T"]))
            m = menu if i == 0 or i < n - 1 and tier == "thorough" or n == 2 else menu[1:8:3]
            k = t.pick(f"step {i + 1} has", len(m), lambda k: m[k])
            t.add(pr, ("Step", sub[m[k]]))
        if z:
            t.add(pr, ("Paragraph", ["T"]))
    for n, a, z in ((1, 0, 0), (1, 0, 1), (2, 0, 0), (2, 1, 1), (3, 0, 0)) + (((3, 1, 0), (3, 1, 1), (2, 0, 1)) if tier == "thorough" else ()):
        out.append((f"proofs of {n} steps" + (", a paragraph after the first" if a else "") + (", a paragraph at the end" if z else ""),
                    lambda t, n=n, a=a, z=z: steps(t, n, a, z), 20 * n))

    def constructs(t):
        M = t.M
        kinds = cls(M, "Construct").lookup("kind_to_keyword")[0]
        names = [M.const(kv[0]) if isinstance(kv, tuple) else kv for kv in dict_keys(M, kinds)]
        k = t.pick("construct", len(names), lambda i: names[i])
        t.kind = names[k]
        cname = "ClaimBlock" if names[k] == "claimblock" else "Construct"
        f = {} if cname == "ClaimBlock" else {"kind": names[k]}
        t.add(t.root, ("Theorem", [("Proof", [("Step", [(cname, f, ["T", ("Construct", {"kind": "let"}, ["T"])]), "T"])])]))
    out.append(("constructs", constructs, 5))

    # nesting of classes, for depths and ids
    nest = ["Theorem", "Lemma", "Proof", "Sketch", "Step", "Subproof", "Section", "Paragraph", "Itemize", "Span", "Definition", "Item", "MathBlock"]
    from .trharness import parents_of
    for a in nest:
        def deep(t, a=a):
            M = t.M
            chain = [a]
            for lvl in range(2 if tier == "quick" else 3):
                opts = [c for c in nest if not parents_of(M, cls(M, c)) or chain[-1] in parents_of(M, cls(M, c))]
                opts = [c for c in opts if c != "Subproof" or chain[-1] == "Step"]
                if chain[-1] == "Step":
                    opts = [c for c in opts if c != "Subproof"] + ["Subproof"]
                k = t.pick(f"level {lvl + 2}", len(opts), lambda k: opts[k])
                chain.append(opts[k])
            par = t.root
            first = parents_of(M, cls(M, a))
            if first:
                par = t.add(par, "Proof" if "Proof" in first else sorted(first)[0])
            for c in chain:
                par = t.add(par, c)
            if has_children(M, par.cls):
                t.add(par, "T")
                t.add(par, ("Paragraph", ["T"])) if chain[-1] not in ("Itemize", "Subproof") else None
            t.add(t.root, ("Paragraph", ["T"]))
        out.append((f"nesting below {a}", deep, 10))
    return out


def dict_keys(M, d):
    return [M.const(k) for k in M.tolist(d)]


# ------------------------------------------------------------------ running
def transformer_class(M):
    c = M.load("rsm.transformer").env.vars.get("Transformer")
    if not isinstance(c, AClass):
        raise AnalysisError("class Transformer not found in rsm.transformer")
    return c


def obligations(M, tier, rule, select=None):
    T = transformer_class(M)
    obs = []
    for name, build, w in shapes(M, tier):
        if select and not select(name):
            continue

        def run(M, build=build, name=name):
            t = Tree(M)
            build(t)
            R = Run()
            R.M, R.t, R.root, R.label = M, t, t.root, name
            M.P.run = R
            R.before = preorder(M, R.root)
            R.snap = snapshot(M, R.root)
            R.ev0 = len(M.P.events)
            R.done = False
            tf = M.call(T, [])
            R.result = M.call(M.getattr(tf, "transform"), [R.root])
            R.done = True
            R.ev1 = len(M.P.events)
            R.after = preorder(M, R.root)
            R.numbers = {}
            if getattr(rule, "numbers", False):
                for n in R.after:
                    if n.cls.name in WITHIN or n.cls.name == "Step":
                        try:
                            R.numbers[id(n)] = M.getattr(n, "full_number")
                            R.numbers[id(n), "reftext"] = M.getattr(n, "reftext")
                        except PyRaise as e:
                            R.numbers[id(n)] = e
            return R

        def judge(M, P, outcome, val, name=name):
            P.value = val
            R = getattr(P, "run", None)
            if R is None:
                return []
            if not R.done and not getattr(rule, "partial", False):
                return total(M, P, outcome, R)
            return rule(M, P, outcome, R)
        obs.append(Obligation(f"Transformer: {name}", run, judge, weight=w))
    return obs


def warnings(P, R):
    return [e for e in P.events[R.ev0:R.ev1] if e["kind"] == "log" and isinstance(e["level"], int) and e["level"] >= 30]


def V(what, key, P=None, where=None, detail=""):
    return Violation(what, where, key=key, detail=detail)


def nm(n):
    return n.tag or n.cls.name


def fnum(M, v):
    """A number as text, or None."""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return str(v)
    if isinstance(v, AStr):
        v = M.norm(v)
        return v.s if not v.holes else None
    return None


# ------------------------------------------------------------------ rules
def total(M, P, outcome, R):
    if outcome == "diverged":
        return [V(f"the transformation of {R.label} does not end", "diverge")]
    if outcome == "raise" and not R.done:
        val = P.value
        if val.exc.cls.name == "RSMTransformerError" and getattr(R.t, "prev", None):
            p, k, where, steps, sub = R.t.prev
            have = {0: 3, 1: 0, 2: 2, 3: 1, 4: -1}[where]
            if k > have:
                return []
        w = val.loc
        return [Violation(f"the transformation fails with {raised(M, val)} on {R.label}", w, key=f"raise:{val.exc.cls.name}:{w[2] if w else '?'}")]
    if outcome == "ok" and R.result is not R.root:
        return [V("transform does not return the tree it was given", "result")]
    return []


def preserved(M, P, outcome, R):
    return total(M, P, outcome, R) + (links(M, P, outcome, R) if R.done else [])


total.partial = preserved.partial = True


def nodeids(M, P, outcome, R):
    vs = []
    for i, n in enumerate(R.after):
        got = n.attrs.get("nodeid")
        if got != i or isinstance(got, bool):
            vs.append(V(f"node {nm(n)}, the {i}-th in document order, has node id {M.show(got)}", "nodeid"))
            break
    return vs


def depth(M, P, outcome, R):
    vs = []
    for n in R.after:
        d, a = 0, n.attrs.get("_parent")
        while isinstance(a, AObj):
            d += a.cls.name in RAILED
            a = a.attrs.get("_parent")
        extra = n.cls.name == "Statement"
        got = n.attrs.get("handrail_depth")
        if got not in (d, d + extra) or isinstance(got, bool):
            vs.append(V(f"{nm(n)} has handrail depth {M.show(got)} although {d} of its ancestors have a handrail", f"depth:{n.cls.name}"))
    return vs


def numbering(M, P, outcome, R):
    vs = []
    count, appendix = {}, False
    expect, kind_of = {}, {}
    for n in R.after:
        c = n.cls.name
        if c == "Appendix":
            count[None] = {}
            appendix = True
            continue
        if c in ("Proof", "Subproof"):
            i = 0
            for s in kids(M, n):
                if s.cls.name == "Step":
                    i += 1
                    expect[id(s)] = i
            continue
        if c not in WITHIN or n.attrs.get("nonum") is True:
            continue
        count[c] = {}
        k = AS.get(c, c)
        scope = count.setdefault(WITHIN[c], {})
        scope[k] = scope.get(k, 0) + 1
        e = scope[k]
        if appendix and WITHIN[c] is None:
            if c != "Section":
                continue
            e = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[e - 1]
        expect[id(n)] = e
    full = {}

    def above(n, name):
        a = n.attrs.get("_parent")
        while isinstance(a, AObj):
            if a.cls.name == name or (name == "Step" and a.cls.name in ("Proof",)):
                return a
            a = a.attrs.get("_parent")
        return None
    for n in R.after:
        c = n.cls.name
        if c not in WITHIN and c != "Step":
            continue
        got = n.attrs.get("number")
        if id(n) in expect:
            e = expect[id(n)]
            if c == "Step" and n.attrs.get("nonum") is True:
                continue
            if fnum(M, got) != str(e):
                vs.append(V(f"{nm(n)} has number {M.show(got)} instead of {e}", f"number:{c}"))
                continue
            scope = "Step" if c == "Step" else WITHIN[c]
            a = above(n, scope) if scope else None
            f = str(e)
            if a is not None and full.get(id(a)):
                f = f"{full[id(a)]}.{e}"
            full[id(n)] = f
            g = R.numbers.get(id(n))
            if isinstance(g, PyRaise):
                vs.append(V(f"the full number of {nm(n)} cannot be computed: {raised(M, g)}", f"fullnumber:{c}"))
            elif fnum(M, g) != f:
                vs.append(V(f"{nm(n)} has full number {M.show(g)} instead of {f}", f"fullnumber:{c}"))
            else:
                want = REFTEXT[c].format(f)
                if c == "Section" and f[0].isalpha():
                    want = f"Appendix {f}"
                r = R.numbers.get((id(n), "reftext"))
                if not isinstance(r, AStr) or M.norm(r).s != want:
                    vs.append(V(f"a reference to {nm(n)} reads {M.show(r)} instead of {want!r}", f"reftext:{c}"))
        elif n.attrs.get("nonum") is True and c != "Step":
            if got not in (None, -1, 0) or R.numbers.get(id(n)) is not None:
                vs.append(V(f"the unnumbered {nm(n)} has number {M.show(got)}", f"unnumbered:{c}"))
    return vs


numbering.numbers = True


def toc(M, P, outcome, R):
    cons = [n for n in R.before if n.cls.name == "Contents"]
    left = [n for n in R.after if n.cls.name == "Contents"]
    vs = []
    if not cons:
        return []
    if left != cons[:1]:
        return [V(f"of {len(cons)} tables of contents, {[nm(x) for x in left]} are kept instead of the first", "kept")]
    if len(cons) > 1 and not warnings(P, R):
        vs.append(V("several tables of contents are reduced to one without a warning", "silent"))
    secs = [n for n in R.after if n.cls.name in ("Section", "Subsection", "Subsubsection")]

    def entries(node, lvl):
        """[(target, text, level)] in document order"""
        out = []
        for it in kids(M, node):
            if it.cls.name == "Item":
                for x in kids(M, it):
                    if x.cls.name == "Reference":
                        out.append((x.attrs.get("target"), x.attrs.get("overwrite_reftext"), lvl))
                    else:
                        out += entries(x, lvl + 1)
            elif it.cls.name == "Reference":
                out.append((it.attrs.get("target"), it.attrs.get("overwrite_reftext"), lvl))
            else:
                out += entries(it, lvl)
        return out
    got = entries(left[0], 0)
    if [id(t) for t, _, _ in got] != [id(s) for s in secs]:
        vs.append(V(f"the table of contents lists {[nm(t) if isinstance(t, AObj) else t for t, _, _ in got]} while the manuscript has {[nm(s) for s in secs]}", "entries"))
        return vs
    lvl = {"Section": 0, "Subsection": 1, "Subsubsection": 2}
    for (t, text, l) in got:
        if l != lvl[t.cls.name]:
            vs.append(V(f"{nm(t)} is listed at depth {l} of the table of contents", "depth"))
        title = t.attrs.get("title")
        title = M.norm(title).s if isinstance(title, AStr) else None
        s = M.norm(text).s if isinstance(text, AStr) else ""
        num = number_path(M, R, t)
        want = title if t.attrs.get("nonum") is True else (f"{num}. {title}" if num else None)
        if title is not None and want is not None and s != want:
            vs.append(V(f"{nm(t)} is listed as {M.show(text)} instead of its number and title", "text"))
    return vs


def number_path(M, R, n):
    f = fnum(M, n.attrs.get("number"))
    if f is None:
        return None
    want = WITHIN.get(n.cls.name)
    a = n.attrs.get("_parent")
    while want and isinstance(a, AObj) and a.cls.name != want:
        a = a.attrs.get("_parent")
    if not want or not isinstance(a, AObj) or a.attrs.get("nonum") is True:
        return f
    up = number_path(M, R, a)
    return f"{up}.{f}" if up else f


PENDING = ("PendingReference", "PendingCite", "PendingPrev")


def known_equal(M, a, b):
    """Two label strings that this path knows to be equal."""
    if isinstance(a, AStr) and isinstance(b, AStr):
        a, b = M.norm(a), M.norm(b)
        if a.s == b.s:
            return True
        x, y = hole_of(a), hole_of(b)
        if x and y:
            sx, sy = M.P.holes[x], M.P.holes[y]
            p, q = (sx, sy) if sx.uid < sy.uid else (sy, sx)
            return p.memo.get(("eqsym", q.uid))
    return None


def truthy(M, v):
    """True/False/None (not examined on this path)."""
    if isinstance(v, AStr):
        v = M.norm(v)
        if not v.s:
            return False
        h = hole_of(v)
        if h:
            return M.P.holes[h].truth
        return True
    return bool(v)


def references(M, P, outcome, R):
    vs = []
    warn = warnings(P, R)
    text_warn = [M.show(w["msg"]) for w in warn]
    left = [n for n in R.after if n.cls.name in PENDING]
    for n in left:
        vs.append(V(f"{nm(n)} is left unresolved", f"pending:{n.cls.name}"))
    # labels: the first owner of each keeps it
    owners = []
    for n in R.before:
        lab = R.snap[id(n)][1].get("label")
        t = truthy(M, lab)
        if n.cls.name in PENDING or t is False or not isinstance(lab, AStr) or not M.norm(lab).s:
            continue
        if t is None:
            vs.append(V(f"the label of {nm(n)} is not looked at", "label"))
            continue
        dup = None
        for o, l in owners:
            k = known_equal(M, l, lab)
            if k is None:
                k = False
            if k:
                dup = o
                break
        now = n.attrs.get("label")
        if dup is None:
            owners.append((n, lab))
            if not (isinstance(now, AStr) and M.norm(now).s == M.norm(lab).s):
                vs.append(V(f"{nm(n)} loses its label", "lostlabel"))
        else:
            if isinstance(now, AStr) and M.norm(now).s == M.norm(lab).s:
                vs.append(V(f"{nm(n)} keeps a label that {nm(dup)} already has", "duplabel"))
            if not warn:
                vs.append(V("a duplicate label is dropped without a warning", "dupsilent"))

    def expected(t):
        """owner | 'unknown' | None (this path did not decide)"""
        und = False
        for o, l in owners:
            k = known_equal(M, l, t)
            if k:
                return o
            if k is None:
                und = True
        return "?" if und else None

    def place_of(n):
        """What stands where the pending node stood."""
        par = R.snap[id(n)][1].get("_parent")
        before = R.snap[id(par)][2] if isinstance(par, AObj) and id(par) in R.snap else None
        if before is None:
            return None
        i = [id(x) for x in before].index(id(n))
        flat = flatten_step(M, par)
        return flat[i] if i < len(flat) and len(flat) == len(before) else None
    cites = []
    for n in R.before:
        if n.cls.name not in PENDING:
            continue
        new = place_of(n)
        if new is None:
            vs.append(V(f"nothing stands where {nm(n)} stood", f"place:{n.cls.name}"))
            continue
        A = R.snap[id(n)][1]
        if n.cls.name == "PendingReference":
            tgt = A.get("target")
            e = expected(tgt)
            if new.cls.name == "Reference":
                if new.attrs.get("target") is not e:
                    vs.append(V(f"a reference with target {M.show(tgt)} is resolved to {nm(new.attrs.get('target')) if isinstance(new.attrs.get('target'), AObj) else '?'}"
                                f" instead of the first element with that label", "target"))
                a, b = A.get("overwrite_reftext"), new.attrs.get("overwrite_reftext")
                if not (isinstance(a, AStr) and isinstance(b, AStr) and M.norm(a).s == M.norm(b).s):
                    vs.append(V("a reference loses its own text", "reftext"))
            elif new.cls.name == "Error":
                if isinstance(e, AObj):
                    vs.append(V(f"a reference to the existing label {M.show(tgt)} is reported as unknown", "spurious"))
                txt = new.attrs.get("text")
                if not isinstance(txt, AStr) or M.norm(tgt).s not in M.norm(txt).s:
                    vs.append(V("the error shown for an unknown label does not name the label", "errtext"))
                if not any(M.show(tgt).strip("'\"") in w for w in text_warn):
                    vs.append(V("a reference to an unknown label is not reported in a warning", "nowarn"))
            else:
                vs.append(V(f"a reference is replaced by {nm(new)}", "replaced"))
        elif n.cls.name == "PendingCite":
            if new.cls.name != "Cite":
                vs.append(V(f"a citation is replaced by {nm(new)}", "replaced"))
                continue
            cites.append(new)
            keys = A.get("targetlabels")
            tg = new.attrs.get("targets")
            keys, tg = keys.items, tg.items if isinstance(tg, AList) else []
            if len(keys) != len(tg):
                vs.append(V(f"a citation of {len(keys)} keys has {len(tg)} targets", "citecount"))
                continue
            for k, t in zip(keys, tg):
                e = expected(k)
                if isinstance(e, AObj):
                    if t is not e:
                        vs.append(V(f"the citation of {M.show(k)} is resolved to {nm(t)} instead of the entry with that key", "citetarget"))
                elif t.cls.name != "UnknownBibitem":
                    vs.append(V(f"the citation of {M.show(k)}, which no entry has, is resolved to {nm(t)}", "citetarget"))
                else:
                    if not any(M.show(k).strip("'\"") in w for w in text_warn):
                        vs.append(V("a citation of an unknown key is not reported in a warning", "citenowarn"))
                bl = t.attrs.get("backlinks")
                lab = new.attrs.get("label")
                n_back = sum(isinstance(x, AStr) and M.norm(x).s == M.norm(lab).s for x in bl.items) if isinstance(bl, AList) else 0
                if n_back < 1 and t.cls.name in ("Bibitem", "UnknownBibitem"):
                    vs.append(V("a cited entry does not link back to the citation", "backlink"))
        else:
            p, k, where, steps, sub = R.t.prev
            home, i = {0: (steps, 3), 1: (sub, 0), 2: (sub, 2), 3: (steps, 1), 4: (None, 0)}[where]
            want = home[i - k] if home is not None and i - k >= 0 else None
            if new.cls.name != "Reference" or new.attrs.get("target") is not want:
                vs.append(V(f"a reference {k} step(s) back is resolved to {nm(new.attrs.get('target')) if isinstance(new.attrs.get('target'), AObj) else nm(new)}", "prev"))
            else:
                a, b = A.get("overwrite_reftext"), new.attrs.get("overwrite_reftext")
                if not (isinstance(a, AStr) and isinstance(b, AStr) and M.norm(a).s == M.norm(b).s):
                    vs.append(V("a reference to a previous step loses its own text", "prevtext"))
                if truthy(M, want.attrs.get("label")) is False and not warn:
                    vs.append(V("a reference to a previous step without a label is not reported", "prevwarn"))
    seen = []
    for c in cites:
        lab = c.attrs.get("label")
        if not truthy(M, lab):
            vs.append(V("a citation has no label, so entries cannot link back to it", "citelabel"))
        elif M.norm(lab).s in seen:
            vs.append(V("two citations share a label", "citelabel"))
        seen.append(M.norm(lab).s if isinstance(lab, AStr) else None)
    for n in R.after:
        bl = n.attrs.get("backlinks")
        if isinstance(bl, AList) and n.cls.name in ("Bibitem", "UnknownBibitem"):
            want = {M.norm(c.attrs["label"]).s for c in cites if any(t is n for t in c.attrs["targets"].items)}
            have = {M.norm(x).s for x in bl.items if isinstance(x, AStr)}
            if have - want:
                vs.append(V(f"{nm(n)} links back to a citation that does not cite it", "wrongback"))
    return vs


def flatten_step(M, n):
    """Children of n, with the statement and sub-proof that a step was given taken apart again."""
    out = []
    for c in kids(M, n):
        if n.cls.name == "Step" and c.cls.name in ("Statement", "Subproof"):
            out += kids(M, c)
        else:
            out.append(c)
    return out


def steps(M, P, outcome, R):
    vs = []
    for n in R.before:
        if n.cls.name != "Step":
            continue
        before = R.snap[id(n)][2]
        now = kids(M, n)
        if not before:
            if now:
                vs.append(V("an empty step is given children", "empty"))
            continue
        cut = next((i for i, c in enumerate(before) if c.cls.name in ("Step", "Subproof")), len(before))
        if not now or now[0].cls.name != "Statement":
            vs.append(V("a step has no statement", "nostatement"))
            continue
        want = [c for c in before[:cut] if c.cls.name not in PENDING]
        have = [c for c in kids(M, now[0]) if id(c) in R.snap]
        if [id(c) for c in want] != [id(c) for c in have]:
            vs.append(V("the statement of a step does not hold what comes before its sub-proof", "statement"))
        if cut == len(before):
            if len(now) != 1:
                vs.append(V("a step without nested steps is given more than a statement", "extra"))
            continue
        if len(now) != 2 or now[1].cls.name != "Subproof":
            vs.append(V(f"a step with nested steps has children {[nm(c) for c in now]} instead of a statement and a sub-proof", "subproof"))
            continue
        if before[cut].cls.name == "Subproof":
            if now[1] is not before[cut]:
                vs.append(V("the sub-proof of a step is replaced", "replaced"))
        elif [id(c) for c in kids(M, now[1])] != [id(c) for c in before[cut:]]:
            vs.append(V("the sub-proof of a step does not hold its nested steps", "nested"))
    for n in R.after:
        if n.cls.name in ("Proof",):
            st = [c for c in kids(M, n) if c.cls.name == "Step"]
            for s in st:
                has = any(isinstance(x, AStr) and x.s == "last" for x in s.attrs["types"].items)
                if has != (s is st[-1]):
                    vs.append(V("the last step of a proof is not marked as such" if s is st[-1] else "a step that is not the last is marked as the last", "last"))
    return vs


def links(M, P, outcome, R):
    """Nothing is lost, order is kept, parent and child links agree."""
    vs = []
    after = {id(n): i for i, n in enumerate(R.after)}
    if len(after) != len(R.after):
        vs.append(V("a node occurs twice in the transformed tree", "twice"))
    cons = [n for n in R.before if n.cls.name == "Contents"]
    prev = -1
    for n in R.before:
        if n.cls.name in PENDING or n in cons[1:]:
            if id(n) in after:
                vs.append(V(f"{nm(n)} is still in the tree", "stays"))
            continue
        if id(n) not in after:
            vs.append(V(f"{nm(n)} is lost in the transformation", f"lost:{n.cls.name}"))
            continue
        if after[id(n)] < prev:
            vs.append(V(f"{nm(n)} changes its place in document order", f"order:{n.cls.name}"))
        prev = after[id(n)]
        A = R.snap[id(n)][1]
        for k in ("text", "title", "nonum", "kind", "overwrite_reftext", "start_point", "end_point", "src"):
            if k in A:
                a, b = A[k], n.attrs.get(k)
                if a is b or (isinstance(a, AStr) and isinstance(b, AStr) and M.norm(a).s == M.norm(b).s):
                    continue
                if isinstance(a, (int, float)) and a == b:
                    continue
                vs.append(V(f"the transformation changes the {k} of {nm(n)}", f"field:{k}"))
    for n in R.after:
        for c in kids(M, n):
            if c.attrs.get("_parent", c) is not n and M.getattr(c, "parent") is not n:
                vs.append(V(f"{nm(c)} is a child of {nm(n)} but its parent is {nm(c.attrs['_parent']) if isinstance(c.attrs['_parent'], AObj) else None}", "parent"))
    if M.getattr(R.root, "parent") is not None:
        vs.append(V("the manuscript is given a parent", "rootparent"))
    return vs


def classes(M, P, outcome, R):
    vs = []

    def types(n):
        t = n.attrs.get("types")
        return [M.norm(x).s for x in t.items if isinstance(x, AStr)] if isinstance(t, AList) else []
    for n in R.after:
        ts = types(n)
        if n.cls.name in ("Construct", "ClaimBlock"):
            k = n.attrs.get("kind")
            k = M.norm(k).s if isinstance(k, AStr) else None
            if k not in ts:
                vs.append(V(f"a construct of kind {k} is not marked with its kind", "kind"))
            if ("assumption" in ts) != (k not in NOT_ASSUMPTION):
                vs.append(V(f"a construct of kind {k} is {'not ' if k not in NOT_ASSUMPTION else ''}marked as an assumption", "assumption"))
        elif "assumption" in ts:
            vs.append(V(f"{nm(n)} is marked as an assumption", "assumption"))
        if n.cls.name in ("Section", "Subsection", "Subsubsection"):
            want = {"Section": "level-2", "Subsection": "level-3", "Subsubsection": "level-4"}[n.cls.name]
            lv = [x for x in ts if x.startswith("level-")]
            if lv and lv != [want]:
                vs.append(V(f"{nm(n)} is marked as {lv}", "level"))
        old = R.snap.get(id(n))
        if old and old[3]:
            missing = [x for x in old[3] if M.norm(x).s not in ts]
            if missing:
                vs.append(V(f"{nm(n)} loses a type", "losttype"))
    return vs
