"""Abstract values of the interpreter.

Domain (product of):
  * Python scalars (None, bool, int, float, bytes) -- known exactly;
  * AStr -- a string *template*: literal characters plus holes.  A hole is one private-use
    character standing for an unknown string (a Sym); every literal character carries the
    source location that produced it;
  * Sym -- an unknown value with refinable facts (truthiness, None-ness, binding);
  * heap objects: AObj / AList / ADict / ASet / ATuple -- allocation-site instances;
  * code objects: AFunc / ABound / AClass / ABuiltin / AModule / Ext (outside the analysed code).
"""

import re

HOLE0 = 0xF0000
HOLE1 = 0xFFFFD


HOLE_RE = re.compile("[\U000F0000-\U000FFFFD]")


def is_hole(ch):
    return HOLE0 <= ord(ch) <= HOLE1


class AStr:
    __slots__ = ("s", "p", "_holes")

    def __init__(self, s, p=None, prov=0):
        self.s = s
        self.p = p if p is not None else [prov] * len(s)
        self._holes = None

    @property
    def holes(self):
        if self._holes is None:
            self._holes = not self.s.isascii() and HOLE_RE.search(self.s) is not None
        return self._holes

    def const(self):
        return None if self.holes else self.s

    def pure_hole(self):
        return len(self.s) == 1 and self.holes

    def slice(self, i, j):
        return AStr(self.s[i:j], self.p[i:j])

    def __add__(self, other):
        return AStr(self.s + other.s, self.p + other.p)

    def __repr__(self):
        return f"AStr({self.s!r})"


class PosInt(int):
    """An int that is an exact position within a string template."""


UNBOUND = object()


class Sym:
    __slots__ = (
        "name", "kind", "truth", "isnone", "bound", "neq", "attrs", "origin",
        "hole", "elems", "memo", "uid", "meta",
    )

    def __init__(self, name, kind="any", truth=None, isnone=None, origin=(), uid=0):
        self.name = name
        self.kind = kind
        self.truth = truth
        if isnone is None and kind != "any":
            isnone = False
        self.isnone = isnone
        self.bound = UNBOUND
        self.neq = []
        self.attrs = {}
        self.origin = tuple(origin)
        self.hole = None
        self.elems = None
        self.memo = {}
        self.uid = uid
        self.meta = {}

    def origins(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for o in self.origin:
            yield from o.origins(seen)

    def __repr__(self):
        return f"<{self.name}>"


class Lazy:
    """Attribute value chosen on first read."""

    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class AObj:
    __slots__ = ("cls", "attrs", "frozen", "boot", "tag", "uid", "native")

    def __init__(self, cls, uid=0):
        self.cls = cls
        self.attrs = {}
        self.frozen = False
        self.boot = False
        self.tag = None
        self.uid = uid
        self.native = None  # native payload for modelled externals

    def __repr__(self):
        return f"<{self.cls.name}#{self.uid}{':' + self.tag if self.tag else ''}>"


class AList:
    __slots__ = ("items", "frozen", "boot", "tag")

    def __init__(self, items=None, tag=None):
        self.items = list(items or [])
        self.frozen = False
        self.boot = False
        self.tag = tag

    def __repr__(self):
        return f"AList({self.items!r})"


class ATuple:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return f"ATuple({self.items!r})"


class ADict:
    __slots__ = ("d", "factory", "frozen", "boot", "tag", "unknown")

    def __init__(self, factory=None, tag=None):
        self.d = {}  # key -> (keyvalue, value)
        self.factory = factory
        self.frozen = False
        self.boot = False
        self.tag = tag
        self.unknown = False  # has entries we do not know

    def __repr__(self):
        return f"ADict({[(k, v) for k, v in self.d.values()]!r})"


class ASet:
    __slots__ = ("d", "frozen", "boot", "tag", "isfrozenset")

    def __init__(self, tag=None):
        self.d = {}  # key -> value
        self.frozen = False
        self.boot = False
        self.tag = tag
        self.isfrozenset = False

    def __repr__(self):
        return f"ASet({list(self.d.values())!r})"


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "isclass", "locals", "comp")

    def __init__(self, parent, module, isclass=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.isclass = isclass
        self.locals = None
        self.comp = False


class AFunc:
    __slots__ = (
        "name", "node", "env", "module", "defaults", "kw_defaults", "cls", "isgen",
        "qualname", "attrs", "boot",
    )

    def __init__(self, name, node, env, module):
        self.name = name
        self.node = node
        self.env = env
        self.module = module
        self.defaults = []
        self.kw_defaults = {}
        self.cls = None
        self.isgen = False
        self.qualname = name
        self.attrs = {}
        self.boot = False

    def __repr__(self):
        return f"<func {self.qualname}>"


class ABound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class ABuiltin:
    __slots__ = ("name", "fn", "self")

    def __init__(self, name, fn, self_=None):
        self.name = name
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return f"<builtin {self.name}>"


class AClass:
    __slots__ = ("name", "bases", "ns", "module", "mro", "node", "ext_bases", "nt_fields",
                 "boot", "qualname", "builtin", "frozen", "tag", "dc_fields", "annfields")

    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.qualname = name
        self.bases = bases  # AClass or Ext
        self.ns = ns
        self.module = module
        self.node = node
        self.nt_fields = None
        self.dc_fields = None
        self.boot = False
        self.frozen = False
        self.tag = None
        self.builtin = False
        self.ext_bases = [b for b in bases if not isinstance(b, AClass)]
        for b in bases:
            if isinstance(b, AClass):
                self.ext_bases = self.ext_bases + [e for e in b.ext_bases if e not in self.ext_bases]
                if b.nt_fields and not self.nt_fields:
                    self.nt_fields = b.nt_fields
                if b.dc_fields and not self.dc_fields:
                    self.dc_fields = b.dc_fields
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, AClass)]
        seqs.append([b for b in self.bases if isinstance(b, AClass)])
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            for s in seqs:
                if s and s[0] is cand:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


class AModule:
    __slots__ = ("name", "env", "path", "tree", "boot", "src")

    def __init__(self, name, path, tree, src=""):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = None
        self.boot = True
        self.src = src

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    """Something defined outside the analysed code, known by dotted name only."""

    __slots__ = ("name", "attrs")

    def __init__(self, name):
        self.name = name
        self.attrs = {}

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"<ext {self.name}>"


class AProp:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class AStatic:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class AClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ASuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PyIter:
    """Lazy builtin iterator backed by a native generator."""

    __slots__ = ("gen", "name")

    def __init__(self, gen, name="iter"):
        self.gen = gen
        self.name = name


class ASlice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class AMatch:
    """Result of a regular expression match over a template."""

    __slots__ = ("m", "src")

    def __init__(self, m, src):
        self.m, self.src = m, src


class PyRaise(Exception):
    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc
        super().__init__(repr(exc))


class Infeasible(Exception):
    pass


class Diverged(Exception):
    pass


class KillGen(BaseException):
    pass


class AnalysisError(Exception):
    """The analysis lost an anchor or met something it cannot represent."""
