"""C22 (tree edits), C29 (queries on the tree) and C24 (lint records): the node API on abstract forests."""

from __future__ import annotations

from .checklib import Obligation, Violation
from .nodeshapes import cls, has_children
from .tfharness import Tree, preorder
from .trrules import raised
from .values import *  # noqa: F401,F403
from .values import AStr, AObj, AList, ATuple, ASet, PyIter, Sym

PARENTS = {"Item": {"Itemize", "Enumerate", "Contents"}, "Caption": {"Figure", "Table"}, "Step": {"Proof", "Subproof", "Step"}}


def par(M, n):
    return M.getattr(n, "parent")


def ch(M, n):
    return M.tolist(M.getattr(n, "children"))


def allowed(M, child, parent):
    """Whether the node classes say that child may sit in parent (class of the parent, exactly)."""
    ps = child.cls.lookup("possible_parents")[0]
    names = [x.name for x in ps.d.values()] if isinstance(ps, ASet) else []
    return not names or parent.cls.name in names


class Forest:
    """Nodes in play, their links as they should be, and the calls made."""

    def __init__(self, M):
        self.M = M
        self.nodes = []
        self.kids = {}
        self.up = {}
        self.names = {}

    def make(self, cname, name):
        o = self.M.call(cls(self.M, cname), [])
        o.tag = name
        self.nodes.append(o)
        self.kids[id(o)] = []
        self.up[id(o)] = None
        self.names[id(o)] = name
        return o

    def put(self, parent, *children):
        for c in children:
            self.M.call(self.M.getattr(parent, "append"), [c])
            self.kids[id(parent)].append(c)
            self.up[id(c)] = parent
        return parent

    def freeze(self):
        return {k: list(v) for k, v in self.kids.items()}, dict(self.up)

    def nm(self, n):
        return "None" if n is None else self.names.get(id(n), getattr(n, "tag", None) or repr(n))

    def diff(self, kids, up):
        """First disagreement between the forest as it is and as it should be."""
        M = self.M
        for n in self.nodes:
            got = ch(M, n)
            want = kids[id(n)]
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                return "children", f"the children of {self.nm(n)} are [{', '.join(map(self.nm, got))}] instead of [{', '.join(map(self.nm, want))}]"
            p = par(M, n)
            if p is not up[id(n)]:
                return "parent", f"the parent of {self.nm(n)} is {self.nm(p)} instead of {self.nm(up[id(n)])}"
        return None

    def consistent(self):
        """Parent and child links agree, whatever they are."""
        M = self.M
        for n in self.nodes:
            seen = [id(c) for c in ch(M, n)]
            if len(set(seen)) != len(seen):
                return f"{self.nm(n)} lists a child twice"
            for c in ch(M, n):
                if par(M, c) is not n:
                    return f"{self.nm(c)} is a child of {self.nm(n)}, but its parent is {self.nm(par(M, c))}"
            p = par(M, n)
            if p is not None and not any(c is n for c in ch(M, p)):
                return f"the parent of {self.nm(n)} is {self.nm(p)}, which does not list it"
        return None


class Call:
    def __init__(self):
        self.what = ""
        self.exc = None
        self.ret = None


def attempt(M, c, f, args):
    """Call and record the outcome, without leaving the abstract path."""
    try:
        c.ret = M.call(f, args)
    except PyRaise as e:
        c.exc = e


def wrap(M, items, k):
    """One of the ways to hand over several nodes."""
    if k == 0:
        return AList(items)
    if k == 1:
        return ATuple(items)
    return PyIter(iter(list(items)), "generator")


WRAPS = ["a list", "a tuple", "an iterator"]


def pick(M, what, opts):
    return M.choose(len(opts), lambda i: f"{what}: {opts[i]}")


HOSTS = [("Paragraph", "Text", "Span"), ("Section", "Paragraph", "Subsection"), ("Itemize", "Item", "Item"), ("Subproof", "Step", "Step"), ("Step", "Step", "Step"),
         ("Figure", "Caption", "Text"), ("Manuscript", "Section", "Section"), ("Proof", "Step", "Step")]


def scene(M):
    """A parent with 0-3 children (the first of which may have a child of its own), a second tree, and loose nodes."""
    F = Forest(M)
    h = pick(M, "parent", [x[0] for x in HOSTS])
    hc, kc, kc2 = HOSTS[h]
    F.host = F.make(hc, "parent")
    n = M.choose(4, lambda i: f"the parent has {i} children")
    F.cs = []
    for i in range(n):
        k = F.make(kc if i % 2 == 0 else kc2, f"child{i}")
        F.put(F.host, k)
        F.cs.append(k)
        if i == 0 and has_children(M, k.cls):
            t = F.make("Text", "grandchild")
            F.put(k, t)
    F.other = F.make(hc, "other parent")
    F.foreign = F.make(kc, "child of the other parent")
    F.put(F.other, F.foreign)
    F.loose = [F.make(kc, "loose0"), F.make(kc2, "loose1"), F.make(kc, "loose2")]
    F.illegal = F.make({"Itemize": "Caption", "Subproof": "Item", "Step": "Item", "Proof": "Caption", "Figure": "Item", "Paragraph": "Step"}.get(hc, "Item"), "node that may not sit there")
    return F


def finish(F, c, kids=None, up=None, exc=None, ret="any", loosely=False):
    """Attach the expectation to the call."""
    c.F, c.kids, c.up, c.want, c.wret, c.loosely = F, kids, up, exc, ret, loosely
    return c


def moved(F, seq):
    """Expected links when the children of the parent become seq."""
    kids, up = F.freeze()
    old = kids[id(F.host)]
    for n in old:
        if not any(n is s for s in seq):
            up[id(n)] = None
    for s in seq:
        up[id(s)] = F.host
    kids[id(F.host)] = list(seq)
    return kids, up


def op_append(M, which):
    F = scene(M)
    c = Call()
    f = M.getattr(F.host, which)
    front = which == "prepend"
    opts = ["a loose node", "several loose nodes", "nothing", "a child of another parent", "one of its own children", "a node of a class that it does not admit",
            "something that is not a node", "loose nodes and then a child of another parent"]
    k = pick(M, f"{which} is given", opts)
    c.what = f"{which} of {opts[k]}"
    cs = F.cs
    if k == 0:
        attempt(M, c, f, [F.loose[0]])
        return finish(F, c, *moved(F, [F.loose[0]] + cs if front else cs + [F.loose[0]]), ret=F.host)
    if k in (1, 2):
        w = M.choose(3, lambda i: f"as {WRAPS[i]}")
        items = F.loose[:M.choose(3, lambda i: f"{i + 1} nodes") + 1] if k == 1 else []
        attempt(M, c, f, [wrap(M, items, w)])
        return finish(F, c, *moved(F, items + cs if front else cs + items), ret=F.host)
    if k == 3:
        attempt(M, c, f, [F.foreign])
        return finish(F, c, *F.freeze(), exc="RSMNodeError")
    if k == 4:
        if not cs:
            raise Infeasible()
        x = cs[M.choose(len(cs), lambda i: f"child {i}")]
        attempt(M, c, f, [x])
        if front:
            return finish(F, c, *moved(F, [x] + [y for y in cs if y is not x]), ret=F.host)
        return finish(F, c, *F.freeze(), exc="RSMNodeError")
    if k == 5:
        if allowed(M, F.illegal, F.host):
            raise Infeasible()
        attempt(M, c, f, [F.illegal])
        return finish(F, c, *F.freeze(), exc="RSMNodeError")
    if k == 6:
        attempt(M, c, f, [3])
        return finish(F, c, *F.freeze(), exc="TypeError")
    attempt(M, c, f, [AList([F.loose[0], F.foreign, F.loose[1]])])
    return finish(F, c, exc="RSMNodeError", loosely=True)


def op_remove(M):
    F = scene(M)
    c = Call()
    cs = F.cs
    how = pick(M, "call", ["parent.remove(child)", "child.remove_self()", "parent.remove(a node that is not its child)", "remove_self() of a node without parent"])
    if how in (0, 1):
        if not cs:
            raise Infeasible()
        i = M.choose(len(cs), lambda i: f"child {i}")
        x = cs[i]
        c.what = "remove" if how == 0 else "remove_self"
        attempt(M, c, M.getattr(F.host, "remove") if how == 0 else M.getattr(x, "remove_self"), [x] if how == 0 else [])
        return finish(F, c, *moved(F, [y for y in cs if y is not x]))
    if how == 2:
        c.what = "remove of a node that is not a child"
        x = [F.loose[0], F.foreign][pick(M, "node", ["without parent", "child of another parent"])]
        attempt(M, c, M.getattr(F.host, "remove"), [x])
        return finish(F, c, *F.freeze(), exc="ValueError")
    c.what = "remove_self without parent"
    attempt(M, c, M.getattr(F.loose[0], "remove_self"), [])
    return finish(F, c, *F.freeze())


def op_clear(M):
    F = scene(M)
    c = Call()
    c.what = "clear"
    attempt(M, c, M.getattr(F.host, "clear"), [])
    return finish(F, c, *moved(F, []))


def op_replace(M):
    F = scene(M)
    c = Call()
    cs = F.cs
    opts = ["one loose node", "several loose nodes", "nothing", "itself among others", "a child of another parent", "loose nodes, one of which has a parent",
            "a node of a class that the parent does not admit", "a sibling", "without having a parent"]
    k = pick(M, "replace_self with", opts)
    c.what = f"replace_self with {opts[k]}"
    if k == 8:
        attempt(M, c, M.getattr(F.loose[0], "replace_self"), [F.loose[1]])
        return finish(F, c, *F.freeze(), exc="RSMNodeError")
    if not cs:
        raise Infeasible()
    i = M.choose(len(cs), lambda i: f"child {i}")
    x = cs[i]
    f = M.getattr(x, "replace_self")
    L = F.loose

    def put(seq):
        return moved(F, cs[:i] + seq + cs[i + 1:])
    if k == 0:
        attempt(M, c, f, [L[0]])
        return finish(F, c, *put([L[0]]))
    if k in (1, 2):
        w = M.choose(3, lambda j: f"as {WRAPS[j]}")
        items = L[:M.choose(2, lambda j: f"{j + 2} nodes") + 2] if k == 1 else []
        attempt(M, c, f, [wrap(M, items, w)])
        return finish(F, c, *put(items))
    if k == 3:
        seq = [[L[0], x], [x, L[0]], [L[0], x, L[1]], [x]][pick(M, "order", ["last", "first", "in the middle", "alone"])]
        attempt(M, c, f, [AList(seq)])
        return finish(F, c, *put(seq))
    if k == 4:
        attempt(M, c, f, [F.foreign])
    elif k == 5:
        attempt(M, c, f, [AList([L[0], F.foreign])])
    elif k == 6:
        if allowed(M, F.illegal, F.host):
            raise Infeasible()
        attempt(M, c, f, [[F.illegal, AList([L[0], F.illegal])][pick(M, "given", ["alone", "after a loose node"])]])
    else:
        if len(cs) < 2:
            raise Infeasible()
        attempt(M, c, f, [cs[i - 1]])
    return finish(F, c, *F.freeze(), exc="RSMNodeError")


def op_parent(M):
    """Assigning the parent directly: only the classes that the node admits are accepted."""
    F = Forest(M)
    c = Call()
    names = sorted(PARENTS)
    k = names[pick(M, "node", names)]
    hosts = ["Itemize", "Enumerate", "Contents", "Figure", "Table", "Proof", "Subproof", "Step", "Paragraph", "Section", "Manuscript", "Statement"]
    h = hosts[pick(M, "parent", hosts)]
    x, p = F.make(k, "node"), F.make(h, "parent")
    c.what = "assigning the parent"
    try:
        M.setattr(x, "parent", p)
    except PyRaise as e:
        c.exc = e
    kids, up = F.freeze()
    if h in PARENTS[k]:
        up[id(x)] = p
        return finish(F, c, kids, up)
    return finish(F, c, kids, up, exc="RSMNodeError")


def op_mixed(M):
    """Two edits in a row: the second one sees the tree that the first one left."""
    F = Forest(M)
    F.host = F.make("Paragraph", "parent")
    F.cs = [F.make("Span", f"child{i}") for i in range(2)]
    F.put(F.host, *F.cs)
    F.loose = [F.make("Span", "loose0"), F.make("Text", "loose1")]
    c = Call()
    seq = list(F.cs)
    c.what = ""
    for step in range(2):
        pool = [("append", F.loose[step]), ("prepend", F.loose[step]), ("remove", seq[0] if seq else None), ("remove_self", seq[-1] if seq else None),
                ("replace_self", seq[0] if seq else None), ("prepend", seq[-1] if seq else None), ("clear", None)]
        k = pick(M, f"edit {step + 1}", [f"{o}({F.nm(a)})" for o, a in pool])
        o, a = pool[k]
        if a is None and o != "clear":
            raise Infeasible()
        c.what += ("" if step == 0 else ", then ") + o
        if o == "append":
            attempt(M, c, M.getattr(F.host, "append"), [a])
            seq = seq + [a]
        elif o == "prepend":
            attempt(M, c, M.getattr(F.host, "prepend"), [a])
            seq = [a] + [y for y in seq if y is not a]
        elif o == "remove":
            attempt(M, c, M.getattr(F.host, "remove"), [a])
            seq = seq[1:]
        elif o == "remove_self":
            attempt(M, c, M.getattr(a, "remove_self"), [])
            seq = seq[:-1]
        elif o == "replace_self":
            attempt(M, c, M.getattr(a, "replace_self"), [F.loose[step]])
            seq = [F.loose[step]] + seq[1:]
        else:
            attempt(M, c, M.getattr(F.host, "clear"), [])
            seq = []
        if c.exc:
            break
    kids, up = F.freeze()
    for n in F.cs + F.loose:
        up[id(n)] = F.host if any(n is s for s in seq) else None
    kids[id(F.host)] = seq
    return finish(F, c, kids, up)


def judge_edit(M, P, out, c):
    if out == "diverged":
        return [Violation("a tree edit does not end", key="diverged")]
    if out == "raise":
        return [Violation(f"a query of the tree raises {raised(M, c)}", c.loc, key=f"raise:{c.exc.cls.name}")]
    if out != "ok":
        return []
    F = c.F
    op = c.what.split(" of ")[0].split(" with ")[0]
    if c.exc is not None and c.want is None:
        return [Violation(f"{c.what} raises {raised(M, c.exc)}", c.exc.loc, key=f"{op}:raises:{c.exc.exc.cls.name}")]
    if c.want and c.exc is None:
        return [Violation(f"{c.what} is accepted; {c.want} was expected", key=f"{op}:accepted:{c.what}")]
    if c.want and not any(k.name == c.want for k in c.exc.exc.cls.mro):
        return [Violation(f"{c.what} raises {raised(M, c.exc)} instead of {c.want}", c.exc.loc, key=f"{op}:wrong-exception:{c.what}")]
    bad = None if op == "assigning the parent" else F.consistent()
    if bad:
        return [Violation(f"after {c.what}, {bad}", where_of(M, op), key=f"{op}:inconsistent")]
    if not c.loosely:
        d = F.diff(c.kids, c.up)
        if d:
            return [Violation(f"after {c.what}{' (refused)' if c.exc else ''}, {d[1]}", where_of(M, op), key=f"{op}:{d[0]}")]
    if c.exc is None and c.wret != "any" and c.ret is not c.wret:
        return [Violation(f"{c.what} does not return the node itself", where_of(M, op), key=f"{op}:return")]
    return []


def where_of(M, op):
    for cn in ("NodeWithChildren", "Node"):
        f, _ = cls(M, cn).lookup(op)
        if f is not None and hasattr(f, "node"):
            return (f.module.path, f.node.lineno, f.qualname)
    return None


def edits(M, tier):
    obs = [Obligation("append", lambda M: op_append(M, "append"), judge_edit, 200000, 3),
           Obligation("prepend", lambda M: op_append(M, "prepend"), judge_edit, 200000, 3),
           Obligation("remove and remove_self", op_remove, judge_edit, 200000, 2),
           Obligation("clear", op_clear, judge_edit, 200000, 1),
           Obligation("replace_self", op_replace, judge_edit, 200000, 3),
           Obligation("assigning the parent", op_parent, judge_edit, 200000, 1),
           Obligation("two edits in a row", op_mixed, judge_edit, 200000, 2)]
    return obs


# ================================================================== C29: queries
TREES = [
    ("Manuscript", [("Section", ["Paragraph", ("Subsection", ["Theorem", "Lemma"]), "Paragraph"]), ("Section", [("Theorem", [("Proof", ["Step", "Step"])])])]),
    ("Section", [("Paragraph", ["Text", "Span", "Error", "Text", "Keyword"]), "Note", ("Paragraph", [("Span", [("Keyword", ["Text"])])])]),
    ("Itemize", [("Item", ["Text", ("Enumerate", ["Item", ("Item", ["Text"])])]), "Item", ("Item", [("Itemize", [("Item", [])])])]),
    ("Proof", [("Step", ["Statement", ("Subproof", [("Step", ["Statement"]), ("Step", [])])]), ("Step", [])]),
]


def grow(M, F, spec, path="root"):
    cn, sub = spec if isinstance(spec, tuple) else (spec, [])
    o = F.make(cn, f"{cn}@{path}")
    for i, s in enumerate(sub):
        F.put(o, grow(M, F, s, f"{path}.{i}"))
    return o


def pre(F, n):
    out = [n]
    for c in F.kids[id(n)]:
        out += pre(F, c)
    return out


class Query:
    pass


def ask(M, F, f, args, kwargs=None, seq=False):
    q = Query()
    q.F, q.exc, q.got = F, None, None
    try:
        q.got = M.call(f, args, kwargs or {})
        if seq:
            q.got = M.tolist(q.got)
    except PyRaise as e:
        q.exc = e
    return q


def a_tree(M):
    F = Forest(M)
    i = M.choose(len(TREES), lambda i: f"tree {TREES[i][0]} {i}")
    F.root = grow(M, F, TREES[i])
    return F


def a_node(M, F):
    return F.nodes[M.choose(len(F.nodes), lambda i: f"node {F.nm(F.nodes[i])}")]


CLS = ["Node", "NodeWithChildren", "Heading", "Section", "Subsection", "Theorem", "Paragraph", "BaseParagraph", "Text", "Error", "Span", "Keyword", "Item", "Step", "Itemize", "Manuscript",
       "Statement", "Figure"]


def a_class(M, extra=()):
    opts = list(extra) + CLS
    k = opts[M.choose(len(opts), lambda i: f"class {opts[i]}")]
    return k, (cls(M, k) if k in CLS else None)


def q_traverse(M):
    F = a_tree(M)
    n = a_node(M, F)
    how = pick(M, "traverse", ["everything", "a class", "a condition", "a class and a condition"])
    kw, want = {}, pre(F, n)
    if how in (1, 3):
        k, c = a_class(M)
        kw["nodeclass"] = c
        want = [x for x in want if x.cls.issub(c)]
    if how in (2, 3):
        pickset = {id(x) for i, x in enumerate(F.nodes) if i % 3 == 1}
        calls = []
        kw["condition"] = ABuiltin("condition", lambda MM, a, k: (calls.append(a[0]), id(a[0]) in pickset)[1])
        if how == 2:
            want = [x for x in want if id(x) in pickset]
    q = ask(M, F, M.getattr(n, "traverse"), [], kw, seq=True)
    q.what, q.want, q.op = f"traverse({', '.join(kw)}) of {F.nm(n)}", want, "traverse"
    return q


def q_typed(M):
    F = a_tree(M)
    n = a_node(M, F)
    last = M.choose(2, lambda i: ["first_of_type", "last_of_type"][i]) == 1
    k, c = a_class(M, ("(Text, Span)", "(Theorem, Step)"))
    cs = (c,) if c is not None else tuple(cls(M, x) for x in k.strip("()").split(", "))
    idx = M.choose(2, lambda i: ["without index", "with index"][i]) == 1
    kids = F.kids[id(n)]
    hits = [i for i, x in enumerate(kids) if any(x.cls.issub(y) for y in cs)]
    h = None if not hits else hits[-1 if last else 0]
    arg = c if c is not None else ATuple(cs)
    op = "last_of_type" if last else "first_of_type"
    q = ask(M, F, M.getattr(n, op), [arg], {"return_idx": True} if idx else {})
    node = kids[h] if h is not None else None
    q.op, q.what, q.want = op, f"{op}({k}{', return_idx=True' if idx else ''}) of {F.nm(n)}", ((node, h) if idx else node)
    return q


def q_sibling(M):
    """Every sequence of up to four children of four classes, two of which derive from the other two."""
    F = Forest(M)
    kinds = ["Text", "Error", "Span", "Keyword"]
    F.root = F.make("Paragraph", "parent")
    m = M.choose(4, lambda i: f"{i + 1} siblings") + 1
    for i in range(m):
        k = kinds[M.choose(4, lambda j, i=i: f"sibling {i} is {kinds[j]}")]
        F.put(F.root, F.make(k, f"{k}{i}"))
    i = M.choose(m, lambda i: f"asked of sibling {i}")
    n = F.kids[id(F.root)][i]
    opts = [None, "self", "Text", "Span", "Keyword"]
    o = opts[M.choose(len(opts), lambda j: f"class {opts[j]}")]
    fwd = M.choose(2, lambda j: ["prev_sibling", "next_sibling"][j]) == 1
    kids = F.kids[id(F.root)]
    rest = kids[i + 1:] if fwd else kids[:i][::-1]
    c = cls(M, o) if o in CLS else n.cls if o == "self" else cls(M, "Node")
    want = next((x for x in rest if x.cls.issub(c)), None)
    op = "next_sibling" if fwd else "prev_sibling"
    q = ask(M, F, M.getattr(n, op), [] if o is None else [M.lift("self") if o == "self" else c])
    q.op, q.what, q.want = op, f"{op}({o or ''}) of {F.nm(n)}", want
    return q


def q_sibling_root(M):
    F = Forest(M)
    n = F.make("Span", "lonely")
    op = ["prev_sibling", "next_sibling"][M.choose(2, lambda j: ["prev_sibling", "next_sibling"][j])]
    q = ask(M, F, M.getattr(n, op), [])
    q.op, q.what, q.want = op, f"{op}() of a node without parent", None
    return q


def q_ancestor(M):
    F = a_tree(M)
    n = a_node(M, F)
    k, c = a_class(M, ("(Text, Span)", "(Section, Proof)"))
    cs = (c,) if c is not None else tuple(cls(M, x) for x in k.strip("()").split(", "))
    x = F.up[id(n)]
    while x is not None and not any(x.cls is y for y in cs):
        x = F.up[id(x)]
    q = ask(M, F, M.getattr(n, "first_ancestor_of_type"), [c if c is not None else ATuple(cs)])
    q.op, q.what, q.want = "first_ancestor_of_type", f"first_ancestor_of_type({k}) of {F.nm(n)}", x
    return q


def q_nodeid(M):
    """Node ids as the transformer gives them, or any others, some shared."""
    F = a_tree(M)
    shared = M.choose(2, lambda i: ["distinct node ids", "shared node ids"][i])
    ids = {}
    for i, x in enumerate(F.nodes):
        ids[id(x)] = (i * 7) % 5 if shared else i + 3
        M.setattr(x, "nodeid", ids[id(x)])
    n = a_node(M, F)
    k = [3, 4, 0, 2, 7, 99][M.choose(6, lambda i: f"id {[3, 4, 0, 2, 7, 99][i]}")]
    want = next((x for x in pre(F, n) if ids[id(x)] == k), None)
    q = ask(M, F, M.getattr(n, "get_child_by_id"), [k])
    q.op, q.what, q.want = "get_child_by_id", f"get_child_by_id({k}) of {F.nm(n)}", want
    return q


def q_sexp(M):
    F = a_tree(M)
    n = a_node(M, F)
    w = [None, 4, 1][M.choose(3, lambda i: f"tab width {['default', 4, 1][i]}")]

    def show(x, d):
        return "\n" + " " * (d * (w or 2)) + "(" + x.cls.name + "".join(show(c, d + 1) for c in F.kids[id(x)]) + ")"
    q = ask(M, F, M.getattr(n, "sexp"), [], {"tab_width": w} if w else {})
    q.op, q.what, q.want = "sexp", f"sexp() of {F.nm(n)}", show(n, 0)[1:]
    if isinstance(q.got, AStr):
        q.got = M.norm(q.got).s if not q.got.holes else q.got
    return q


def q_metakeys(M):
    from .nodeshapes import node_classes
    F = Forest(M)
    cs = node_classes(M)
    c = cs[M.choose(len(cs), lambda i: f"class {cs[i].name}")]
    want = set()
    for b in c.mro:
        ks = b.ns.get("newmetakeys")
        if isinstance(ks, ASet):
            want |= {x.s for x in ks.d.values()}
    q = ask(M, F, M.getattr(c, "metakeys"), [])
    q.op, q.what = "metakeys", f"metakeys() of {c.name}"
    q.want = sorted(want)
    q.got = sorted(x.s for x in q.got.d.values()) if isinstance(q.got, ASet) else q.got
    return q


def judge_query(M, P, out, q):
    if out == "diverged":
        return [Violation("a tree query does not end", key="diverged")]
    if out == "raise":
        return [Violation(f"a tree operation raises {raised(M, q)}", q.loc, key=f"raise:{q.exc.cls.name}")]
    if out != "ok":
        return []
    F = q.F
    w = where_of(M, q.op)
    if q.exc is not None:
        return [Violation(f"{q.what} raises {raised(M, q.exc)}", q.exc.loc, key=f"{q.op}:raises")]
    got, want = q.got, q.want
    if isinstance(want, tuple):
        g = got.items if isinstance(got, ATuple) else None
        ok = g is not None and len(g) == 2 and g[0] is want[0] and g[1] == want[1]
        show = lambda t: f"({F.nm(t[0])}, {t[1]})" if t else repr(got)
        if not ok:
            return [Violation(f"{q.what} returns {show(g)} instead of {show(want)}", w, key=f"{q.op}:result")]
    elif isinstance(want, list) and want and isinstance(want[0], AObj) or isinstance(want, list) and isinstance(got, list) and q.op == "traverse":
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return [Violation(f"{q.what} yields [{', '.join(map(F.nm, got))}] instead of [{', '.join(map(F.nm, want))}]", w, key=f"{q.op}:result")]
    elif isinstance(want, (str, list)):
        if got != want:
            return [Violation(f"{q.what} returns {got!r} instead of {want!r}", w, key=f"{q.op}:result")]
    elif got is not want:
        return [Violation(f"{q.what} returns {F.nm(got)} instead of {F.nm(want)}", w, key=f"{q.op}:result")]
    kids, up = F.freeze()
    d = F.diff(kids, up)
    if d:
        return [Violation(f"{q.what} changes the tree: {d[1]}", w, key=f"{q.op}:changes")]
    return []


def queries(M, tier):
    return [Obligation(n, f, judge_query, 200000, wt) for n, f, wt in (
        ("traverse", q_traverse, 3), ("first_of_type and last_of_type", q_typed, 3), ("siblings", q_sibling, 3), ("siblings of a root", q_sibling_root, 1),
        ("first_ancestor_of_type", q_ancestor, 2), ("get_child_by_id", q_nodeid, 1), ("sexp", q_sexp, 1), ("metakeys", q_metakeys, 1))]


# ================================================================== C24: lint records
LINT_TREES = [
    [],
    ["Section"],
    [("Section", [("Subsection", [("Subsubsection", [])]), ("Paragraph", ["T", "MathBlock", "T"])])],
    ["MathBlock", ("Paragraph", ["MathBlock"])],
    [("Section", ["MathBlock", ("Paragraph", [("Span", ["MathBlock"]), "MathBlock"])]), "Section"],
    [("Theorem", ["MathBlock", ("Proof", [("Step", ["T", "MathBlock", ("Step", [("Paragraph", ["MathBlock"])])])])])],
    [("Itemize", [("Item", ["MathBlock"]), ("Item", [("Paragraph", ["MathBlock"])])]), ("Abstract", [("Paragraph", ["T"])]), ("Subsection", [])],
    [("Section", {"nonum": True}, [("Subsection", {"nonum": True}, ["MathBlock"])]), ("Note", ["MathBlock"]), ("Figure", [("Caption", ["MathBlock"])])],
    [("Paragraph", [("Draft", ["MathBlock"]), ("Construct", ["MathBlock"]), ("ClaimBlock", ["MathBlock"]), ("Note", ["MathBlock"])]), "MathBlock", "MathBlock"],
    ["Appendix", "Section", ("Bibliography", ["Bibitem"]), ("Table", [("Caption", ["MathBlock"])]), ("Enumerate", [("Item", [("Section", [])])])],
]


def lint_obligation(trees):
    i, spec = trees

    def run(M):
        t = Tree(M)
        root = t.root
        title = M.strsym("title of the manuscript")
        M.setattr(root, "title", title)
        t.add_all(spec)
        pts = {}
        for k, n in enumerate(preorder(M, root)):
            a = [M.sym(f"{n.tag}.{w}", "int") for w in ("start row", "start column", "end row", "end column")]
            pts[id(n)] = a
            n.attrs["start_point"] = ATuple(a[:2])
            n.attrs["end_point"] = ATuple(a[2:])
            if n.cls.issub(cls(M, "Section")):
                n.attrs["label"] = M.strsym(f"label of {n.tag}")
            if n.cls.issub(cls(M, "Section")) or n.cls.name == "MathBlock":
                n.attrs["types"] = AList([])
        before = [(n, dict(n.attrs), [x for x in ch(M, n)]) for n in preorder(M, root)]
        q = Query()
        q.root, q.pts, q.before, q.title = root, pts, before, title
        L = M.load("rsm.linter").env.vars.get("Linter")
        if L is None:
            raise AnalysisError("class Linter not found in rsm.linter")
        q.reuse = M.choose(2, lambda j: ["a new linter", "a linter that was used before"][j])
        lin = M.call(L, [])
        if q.reuse:
            first = Tree(M)
            first.add_all(["Section", "MathBlock"])
            M.call(M.getattr(lin, "lint"), [first.root])
        q.start = len(M.P.events)
        q.ret = M.call(M.getattr(lin, "lint"), [root])
        return q
    return Obligation(f"lint tree {i}", run, judge_lint, 200000, 1)


def judge_lint(M, P, out, q):
    if out == "raise":
        return [Violation(f"linting raises {raised(M, q)}", q.loc, key=f"lint:raises:{q.exc.cls.name}")]
    if out == "diverged":
        return [Violation("linting does not end", key="lint:diverged")]
    if out != "ok":
        return []
    vs = []
    if q.ret is not q.root:
        vs.append(Violation("lint() does not return the tree it was given", key="lint:return"))
    for n, attrs, kd in q.before:
        if any(n.attrs.get(k) is not v for k, v in attrs.items()) or len(ch(M, n)) != len(kd) or any(a is not b for a, b in zip(ch(M, n), kd)):
            vs.append(Violation(f"linting changes {n.tag}", key="lint:changes"))
            break
    want = []
    Sec, MB, Par = cls(M, "Section"), cls(M, "MathBlock"), cls(M, "Paragraph")
    if not M.truth(q.title):
        want.append((q.root, "no title"))
    nodes_ = preorder(M, q.root)
    for n in nodes_:
        if n.cls.issub(Sec) and not M.truth(n.attrs["label"]):
            want.append((n, "no label"))
        if n.cls.issub(MB) and not par(M, n).cls.issub(Par):
            want.append((n, "not in a paragraph"))
    recs = []
    for e in P.events[q.start:]:
        if e["kind"] != "log":
            continue
        lv = e["level"]
        if isinstance(lv, int) and lv >= 25:
            recs.append(e)
    left = list(want)
    for e in recs:
        x = e["kwargs"].get("extra")
        pos = None
        if isinstance(x, ADict):
            pos = {k.s if isinstance(k, AStr) else k: v for k, v in x.d.values()}
        if e["level"] != 25:
            vs.append(Violation(f"a lint record has level {e['level']}, not LINT (25)", e["loc"], key="lint:level"))
        hit = next((w for w in left if pos and at(M, pos, q.pts[id(w[0])]) and says(M, e["msg"], w[1])), None)
        if hit is None:
            vs.append(Violation(f"the lint record {M.show(e['msg'])} at {show_pos(M, pos)} answers to no defect of the manuscript (or has the wrong position)", e["loc"], key=f"lint:spurious:{e['loc'][2]}"))
        else:
            left.remove(hit)
    for n, w in left:
        vs.append(Violation(f"no lint record for {n.tag}: {w}", key=f"lint:missing:{w}"))
    return vs


WORDS = {"no title": ["title"], "no label": ["label"], "not in a paragraph": ["mathblock", "math block"]}


def says(M, msg, w):
    if not isinstance(msg, AStr):
        return False
    t = msg.s.lower()
    return any(x in t for x in WORDS[w])


def at(M, pos, a):
    if set(pos) < {"start_row", "start_col", "end_row", "end_col"}:
        return False
    return all(plus_one(M, pos.get(k), s) for k, s in zip(("start_row", "start_col", "end_row", "end_col"), a))


def linear(M, v, depth=8):
    """A number as ({unknown: factor}, constant), or None."""
    if isinstance(v, Sym) and v.bound is not UNBOUND:
        v = M.lift(v.bound)
    if isinstance(v, (int, float)):
        return {}, v
    if not isinstance(v, Sym):
        return None
    op = v.meta.get("op")
    if op in ("add", "sub", "mult") and "left" in v.meta and depth:
        a, b = linear(M, v.meta["left"], depth - 1), linear(M, v.meta["right"], depth - 1)
        if a is not None and b is not None:
            if op == "mult":
                if a[0] and b[0]:
                    return {v.uid: 1}, 0
                k, x = (a[1], b) if not a[0] else (b[1], a)
                return {u: c * k for u, c in x[0].items() if c * k}, x[1] * k
            f = 1 if op == "add" else -1
            d = {u: a[0].get(u, 0) + f * b[0].get(u, 0) for u in {**a[0], **b[0]}}
            return {u: c for u, c in d.items() if c}, a[1] + f * b[1]
    return {v.uid: 1}, 0


def plus_one(M, v, s):
    a, b = linear(M, v), linear(M, s)
    return a is not None and b is not None and a[0] == b[0] and a[1] == b[1] + 1


def show_pos(M, pos):
    return "no position" if not pos else ", ".join(f"{k}={M.show(v)}" for k, v in pos.items())


def lint_obs(M, tier):
    return [lint_obligation(x) for x in enumerate(LINT_TREES)]


def c22(ck):
    ck.explanation = ("Abstract interpretation of append, prepend, remove, remove_self, replace_self, clear and the parent setter of rsm.nodes on forests whose nodes are pairwise equal "
                      "(so that only identity tells them apart). Rule: the links afterwards are exactly those the call promises, parent and child links agree, and a refused call changes nothing.")
    ck.assumptions = ["parents of 8 classes with 0-3 children; every choice of child, argument form (one node, list, tuple, iterator) and of the listed legal and illegal arguments; pairs of edits",
                      "no node is given twice in one call or put below itself"]
    M = ck.boot()
    ck.explore(M, edits(M, ck.tier))


def c29(ck):
    ck.explanation = ("Abstract interpretation of the query methods of rsm.nodes.Node. Rule: the result is the one that the tree's links define (document order, exact or derived class, nearest first), "
                      "and the tree is not changed.")
    ck.assumptions = ["four trees of up to 14 nodes with every node and 18 classes asked; every row of 1-4 siblings of four classes"]
    M = ck.boot()
    ck.explore(M, queries(M, ck.tier))


def c24(ck):
    ck.explanation = ("Abstract interpretation of rsm.linter on manuscript trees whose titles, labels and positions are unknown. Rule: at the LINT level, exactly one record with the one-based position "
                      "of the node for an untitled manuscript, each unlabelled section of any level and each math block outside a paragraph; the tree is returned unchanged.")
    ck.assumptions = ["ten families of trees; all combinations of present and absent title and labels"]
    M = ck.boot()
    ck.explore(M, lint_obs(M, ck.tier))


CHECKS = {"C22": c22, "C29": c29, "C24": c24}
