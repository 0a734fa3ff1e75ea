"""Abstract nodes: objects of the node classes whose optional fields are unknown."""

from __future__ import annotations

from .engine import Machine, MISSING
from .values import *  # noqa: F401,F403
from .values import AStr, Sym, Lazy, AObj, AList, ATuple, ADict, AClass

NODES = "rsm.nodes"


def node_classes(M):
    """All node classes, in definition order."""
    mod = M.load(NODES)
    root = mod.env.vars.get("Node")
    if not isinstance(root, AClass):
        raise AnalysisError("class Node not found in rsm.nodes")
    out = []
    for v in mod.env.vars.values():
        if isinstance(v, AClass) and v.issub(root) and v not in out:
            out.append(v)
    return out


def cls(M, name):
    mod = M.load(NODES)
    c = mod.env.vars.get(name)
    if not isinstance(c, AClass):
        raise AnalysisError(f"node class {name} not found in rsm.nodes")
    return c


def has_children(M, c):
    return c.issub(cls(M, "NodeWithChildren"))


def kids(M, n):
    """Children of a node, as a Python list."""
    k = n.attrs.get("_children")
    if isinstance(k, AList):
        return k.items
    return M.tolist(M.getattr(n, "children"))


class Shape:
    """Builds abstract nodes inside one analysis path."""

    def __init__(self, M, symbolic=True):
        self.M = M
        self.count = {}
        self.nodes = []
        self.symbolic = symbolic

    def name(self, base):
        n = self.count.get(base, 0)
        self.count[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def make(self, cname, symbolic=None, children=(), parent=None, **fields):
        """A node of class cname built by the real constructor, its fields made unknown."""
        M = self.M
        symbolic = self.symbolic if symbolic is None else symbolic
        c = cls(M, cname) if isinstance(cname, str) else cname
        nm = self.name(c.name)
        o = M.call(c, [])
        o.tag = nm
        self.nodes.append(o)
        self.unknown_fields(o, nm, symbolic)
        self.settle_number(o)
        for k, v in fields.items():
            o.attrs[k] = M.lift(v) if isinstance(v, (str, list, tuple, dict)) else v
        for ch in children:
            self.attach(o, ch)
        if parent is not None:
            self.attach(parent, o)
        return o

    def settle_number(self, o):
        """Unnumbered nodes have no number."""
        A, M = o.attrs, self.M
        nn, num = A.get("nonum"), A.get("number")
        if isinstance(nn, Sym) and isinstance(num, Sym):
            A["number"] = Lazy(lambda: None if M.truth(nn) else num)

    def attach(self, parent, child):
        M = self.M
        kids = parent.attrs.get("_children")
        if isinstance(kids, AList) and "_parent" in child.attrs:
            kids.items.append(child)
            child.attrs["_parent"] = parent
        else:
            M.call(M.getattr(parent, "append"), [child])

    def unknown_fields(self, o, nm, symbolic):
        M = self.M
        A = o.attrs
        nodeid = M.sym(f"{nm}.nodeid", "int")
        nodeid.memo[("distinct",)] = True
        nodeid.meta["lo"] = 0
        A["nodeid"] = nodeid
        nodeid.meta["field"] = (o, "nodeid")
        if o.cls.lookup("autonumber")[0] is True:
            n = M.sym(f"{nm}.number", "int", truth=True)
            n.meta["field"] = (o, "number")
            A["number"] = n
        if not symbolic:
            return
        for k, v in list(A.items()):
            if symbolic is not True and k not in symbolic:
                continue
            if k in ("nodeid", "_parent", "_children", "parent", "start_point", "end_point", "date"):
                continue
            if isinstance(v, Lazy):
                continue
            if k == "label" and o.cls.name == "Bibliography":
                continue  # no manuscript can label a bibliography
            f = f"{nm}.{k}"
            if k == "reftext_template":
                dflt = v

                def mk(dflt=dflt, f=f, o=o, k=k):
                    if M.choose(2, lambda p: f"{f} is {'the default' if p == 0 else 'custom'}") == 0:
                        return dflt
                    s = M.strsym(f, truth=True)
                    M.P.holes[s.s].meta["field"] = (o, k)
                    return s
                A[k] = Lazy(mk)
            elif k == "number":
                if o.cls.lookup("autonumber")[0] is not True and isinstance(v, int):
                    n = M.sym(f, "int", truth=True)
                    n.meta["field"] = (o, k)
                    A[k] = n
            elif isinstance(v, bool):
                s = M.sym(f, "bool")
                s.meta["field"] = (o, k)
                A[k] = s
            elif isinstance(v, AStr):
                if k == "kind" and o.cls.lookup("kind_to_keyword")[0] is not None:
                    continue
                s = M.strsym(f)
                M.P.holes[s.s].meta["field"] = (o, k)
                A[k] = s
            elif isinstance(v, float):
                s = M.sym(f, "float", truth=True)
                s.meta["field"] = (o, k)
                A[k] = s
            elif isinstance(v, int):
                s = M.sym(f, "int")
                s.meta["field"] = (o, k)
                if k == "handrail_depth":
                    s.meta["lo"] = 0
                A[k] = s
            elif isinstance(v, AList) and k in ("types", "keywords", "msc", "backlinks", "targetlabels"):
                def mk(f=f, o=o, k=k):
                    n = M.choose(3, lambda p: f"{f} has {p} element(s)")
                    items = []
                    for i in range(n):
                        s = M.strsym(f"{f}[{i}]", truth=True)
                        y = M.P.holes[s.s]
                        y.meta["field"] = (o, k)
                        y.meta["index"] = i
                        if k == "types":
                            y.memo[("distinct",)] = True
                            if getattr(M, "fresh_types", True):
                                y.memo[("fresh",)] = True
                        items.append(s)
                    return AList(items)
                A[k] = Lazy(mk)
            elif isinstance(v, Sym) and v.meta.get("ext"):
                def mk(f=f, o=o, k=k, v=v):
                    # the constructor makes a path of it, the parser stores the text
                    if M.choose(2, lambda p: f"{f} is a {'string' if p == 0 else v.meta['ext']}") == 0:
                        s = M.strsym(f, truth=True)
                        M.P.holes[s.s].meta["field"] = (o, k)
                        return s
                    s = M.sym(f, "obj", truth=True)
                    s.meta["field"] = (o, k)
                    s.meta["ext"] = v.meta["ext"]
                    return s
                A[k] = Lazy(mk)

    def text(self, label="text"):
        """A Text leaf with unknown, possibly empty text: stands for an arbitrary rendered child."""
        M = self.M
        t = self.make("Text", symbolic=False)
        s = M.strsym(self.name(label))
        M.P.holes[s.s].meta["field"] = (t, "text")
        t.attrs["text"] = s
        return t


def freeze_tree(M, root):
    """Mark every node reachable from root, and its lists, as immutable from here on."""
    seen = set()
    stack = [root]
    n = 0
    nodecls = cls(M, "Node")
    while stack:
        o = stack.pop()
        if id(o) in seen or not isinstance(o, AObj) or not o.cls.issub(nodecls):
            continue
        seen.add(id(o))
        o.frozen = True
        n += 1
        for k, v in list(o.attrs.items()):
            if isinstance(v, Lazy):
                fn = v.fn

                def mk(fn=fn):
                    r = fn()
                    if hasattr(r, "frozen"):
                        r.frozen = True
                    return r
                o.attrs[k] = Lazy(mk)
            elif isinstance(v, (AList, ADict)):
                v.frozen = True
                if isinstance(v, AList):
                    for x in v.items:
                        if isinstance(x, AObj):
                            stack.append(x)
            elif isinstance(v, AObj):
                stack.append(v)
    return n
