"""Abstract interpreter for the Python of /repo/rsm.

It walks the syntax trees of the modules (never importing or running them) and computes over the
abstract values of values.py.  It is path-sensitive by trace partitioning: a test on an unknown
value splits the analysis, the fact learnt is stored on the unknown, and partitions are enumerated
by replaying a list of choices.  All calls into the analysed code are interpreted (full context
sensitivity), so the verdict does not depend on how the code is cut into functions.
"""

from __future__ import annotations

import ast
import builtins as pybuiltins
import os
import sys

from .values import *  # noqa: F401,F403
from .values import HOLE_RE, AStr, Sym, Lazy, AObj, AList, ATuple, ADict, ASet, Env, AFunc, ABound

sys.setrecursionlimit(200000)


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class IdInt(int):
    """An int that depends on memory layout (id(), hash())."""


def snapshot(obj, attr):
    p = getattr(obj, attr, None)
    return p.copy() if isinstance(p, (list, dict, set)) else p


import datetime as _dt  # noqa: E402
import pathlib as _pl  # noqa: E402
#: standard classes whose objects appear as field values: what attributes they have
STDLIB = {"pathlib.Path": _pl.PosixPath, "datetime.datetime": _dt.datetime}


class Path:
    """State of one partition of the analysis."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []  # (n, picked, label)
        self.events = []
        self.holes = {}
        self.nsym = 0
        self.nobj = 0
        self.nhole = 0
        self.trail = []
        self.trailed = set()
        self.fuel = 400000
        self.world = 0      # which of the orders that Python leaves open is taken (sets, ids)
        self.gaps = []
        self.memo = {}

    def conditions(self):
        return [lab for (_, _, lab) in self.choices if lab]


MISSING = object()


def _assigned_names(fn):
    """Names local to a function (assigned somewhere in its own body)."""
    names, nonlocal_ = set(), set()
    args = fn.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(a.arg)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    if isinstance(fn, ast.Lambda):
        body = [fn.body]
    else:
        body = fn.body

    def visit(n, incomp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d, incomp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonlocal_.update(n.names)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not incomp:
            names.add(n.id)
        if isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
            visit(n.value, incomp)
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
            return
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                visit(c, True)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, incomp)

    for s in body:
        visit(s, False)
    return names - nonlocal_


def _is_gen(fn):
    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef,
                          ast.GeneratorExp)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))

    return any(visit(s) for s in fn.body)


class Machine:
    def __init__(self, repo="/repo", package="rsm", skip=("conftest",)):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.provs = [("?", 0, "?")]
        self.provix = {}
        self.frames = []
        self.P = Path([])
        self.P.fuel = 10**9
        self.booting = True
        self.xcache, self.ecache, self.abscache = {}, {}, {}
        self.hooks = {}  # qualname -> native replacement
        self.ext_models = {}
        self.ext_isinstance = {}
        self.constcache = {}
        self.localsc = {}
        self.funcs_seen = set()
        self.boot_syms = []
        self.calls_count = 0
        self.nodecls = None
        self.trace_ext = None
        from . import builtins_model

        self.bm = builtins_model
        builtins_model.install(self)
        self.pkgdir = os.path.join(repo, package)
        if not os.path.isdir(self.pkgdir):
            raise AnalysisError(f"package {package} not found under {repo}")
        self.skip = skip

    # ---------------------------------------------------------------- loading
    def load(self, name):
        """Load (parse + interpret the body of) a module of the package, e.g. 'rsm.nodes'."""
        if name in self.modules:
            return self.modules[name]
        rel = name.split(".")
        path = os.path.join(self.repo, *rel)
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            raise AnalysisError(f"module {name} not found at {path}")
        with open(path, encoding="utf-8") as f:
            src = f.read()
        return self.load_source(name, path, src)

    def load_source(self, name, path, src):
        tree = ast.parse(src, path)
        mod = AModule(name, path, tree, src)
        env = Env(None, mod)
        mod.env = env
        self.modules[name] = mod
        env.vars["__name__"] = AStr(name)
        env.vars["__file__"] = AStr(path)
        env.vars["__doc__"] = None
        if path.endswith("__init__.py"):
            pass
        self.frames.append([name, path, 0])
        try:
            self.exec_block(tree.body, env)
        finally:
            self.frames.pop()
        if "." in name:
            parent, _, last = name.rpartition(".")
            if parent in self.modules:
                self.modules[parent].env.vars.setdefault(last, mod)
        return mod

    def boot(self, names):
        for n in names:
            self.load(n)
        self.finish_boot()

    def finish_boot(self):
        seen = set()
        stack = [m for m in self.modules.values()]

        def push(v):
            if isinstance(v, (AList, ATuple, ADict, ASet, AObj, AClass, AFunc, AModule, ABound,
                              AProp, AStatic, AClassM)):
                stack.append(v)

        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if hasattr(v, "boot"):
                v.boot = True
            if isinstance(v, AModule):
                for k, x in v.env.vars.items():
                    if hasattr(x, "tag") and x.tag is None and not isinstance(x, AClass):
                        x.tag = f"{v.name}.{k}"
                    push(x)
            elif isinstance(v, AClass):
                for k, x in v.ns.items():
                    if hasattr(x, "tag") and x.tag is None and not isinstance(x, AClass):
                        x.tag = f"{v.name}.{k}"
                    push(x)
                for b in v.bases:
                    push(b)
            elif isinstance(v, AFunc):
                for x in list(v.defaults) + list(v.kw_defaults.values()):
                    if hasattr(x, "tag") and x.tag is None:
                        x.tag = f"default argument of {v.qualname}"
                    push(x)
                for x in v.attrs.values():
                    push(x)
            elif isinstance(v, ABound):
                push(v.func), push(v.self)
            elif isinstance(v, AProp):
                push(v.fget), push(v.fset)
            elif isinstance(v, (AStatic, AClassM)):
                push(v.func)
            elif isinstance(v, (AList, ATuple)):
                for x in v.items:
                    push(x)
            elif isinstance(v, ADict):
                for _, x in v.d.values():
                    push(x)
            elif isinstance(v, ASet):
                for x in v.d.values():
                    push(x)
            elif isinstance(v, AObj):
                for x in v.attrs.values():
                    push(x)
        for y in self.boot_syms:
            y.meta["bound0"], y.meta["truth0"] = y.bound, y.truth
        self.booting = False

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, max_paths=4000):
        """Enumerate the partitions of fn(); yields (path, outcome, value)."""
        prefix = []
        n = 0
        while True:
            P = Path(prefix)
            self.P = P
            self.frames = []
            for s in self.boot_syms:
                s.memo, s.neq, s.attrs, s.elems, s.hole = {}, [], {}, None, None
                s.bound, s.truth = s.meta.get("bound0", UNBOUND), s.meta.get("truth0")
            try:
                val = fn()
                out = "ok"
            except PyRaise as e:
                out, val = "raise", e
            except Infeasible:
                out, val = "infeasible", None
            except (Diverged, RecursionError):
                out, val = "diverged", None
            n += 1
            yield P, out, val
            self.undo()
            ch = P.choices
            while ch and ch[-1][1] + 1 >= ch[-1][0]:
                ch.pop()
            if not ch:
                return
            if n >= max_paths:
                self.truncated = True
                return
            prefix = [c[1] for c in ch[:-1]] + [ch[-1][1] + 1]

    truncated = False

    def undo(self):
        for obj, attr, payload in reversed(self.P.trail):
            setattr(obj, attr, payload)
        self.P.trail = []

    def choose(self, n, label=None):
        P = self.P
        i = len(P.choices)
        pick = P.prefix[i] if i < len(P.prefix) else 0
        lab = label(pick) if callable(label) else label
        P.choices.append((n, pick, lab))
        return pick

    def gap(self, what):
        self.P.gaps.append((what, self.loc()))

    def event(self, kind, /, **kw):
        kw["kind"] = kind
        kw["loc"] = self.loc()
        kw["stack"] = tuple(f[0] for f in self.frames)
        self.P.events.append(kw)

    def loc(self):
        if not self.frames:
            return ("?", 0, "?")
        f = self.frames[-1]
        return (f[1], f[2], f[0])

    def prov(self):
        loc = self.loc()
        i = self.provix.get(loc)
        if i is None:
            i = self.provix[loc] = len(self.provs)
            self.provs.append(loc)
        return i

    # ---------------------------------------------------------------- symbols
    def sym(self, name, kind="any", truth=None, origin=(), **meta):
        self.P.nsym += 1
        s = Sym(name, kind, truth=truth, origin=[o for o in origin if isinstance(o, Sym)],
                uid=self.P.nsym)
        if self.booting:
            s.uid = -s.uid
            self.boot_syms.append(s)
        s.meta.update(meta)
        return s

    def strsym(self, name, truth=None, origin=(), **meta):
        return self.hole(self.sym(name, "str", truth=truth, origin=origin, **meta))

    def hole(self, sym):
        """AStr standing for str(sym)."""
        P = self.P
        if sym.hole is None or P.holes.get(sym.hole) is not sym:
            sym.hole = chr(HOLE0 + P.nhole)
            P.nhole += 1
            P.holes[sym.hole] = sym
        return AStr(sym.hole, [self.prov()])

    def hole_sym(self, ch):
        return self.P.holes[ch]

    def norm(self, a):
        """Substitute holes whose value has become known."""
        if not a.holes:
            return a
        s, p = a.s, a.p
        holes = self.P.holes
        for m in HOLE_RE.finditer(s):
            i = m.start()
            sy = holes[s[i]]
            if sy.bound is not UNBOUND:
                b = sy.bound
                bs = b if isinstance(b, str) else str(b)
                out = AStr(s[:i] + bs + s[i + 1:], p[:i] + [p[i]] * len(bs) + p[i + 1:])
                return self.norm(out)
        return a

    def holesyms(self, v):
        """Syms mentioned in a value (shallow for strings)."""
        if isinstance(v, AStr):
            return [self.P.holes[c] for c in v.s if is_hole(c)]
        if isinstance(v, Sym):
            return [v]
        if isinstance(v, (AList, ATuple)):
            out = []
            for x in v.items:
                out += self.holesyms(x)
            return out
        if isinstance(v, ADict):
            out = []
            for k, x in v.d.values():
                out += self.holesyms(k) + self.holesyms(x)
            return out
        return []

    MEMO_OPS = {"format", "add", "mult", "replace", "%", "re.sub", "html.escape", "dedent", "indent"}

    def derived(self, opname, args, kind="any", truth=None, **meta):
        mk = None
        if opname in self.MEMO_OPS and kind == "str":
            if all(isinstance(a, (AStr, Sym, ATuple, int, float, bool, type(None), Ext)) for a in args):
                mk = ("derived", opname) + tuple(self.key(a) for a in args)
                s = self.P.memo.get(mk)
                if s is not None:
                    return self.hole(s)
        org = []
        for a in args:
            org += self.holesyms(a)
        s = self.sym(opname, kind, truth=truth, origin=org, op=opname, args=list(args), **meta)
        if mk is not None:
            self.P.memo[mk] = s
        if kind == "str":
            return self.hole(s)
        return s

    def predicate(self, key, sym, label):
        """Memoised unknown boolean fact about a symbol."""
        if key in sym.memo:
            return sym.memo[key]
        r = self.choose(2, lambda p: f"{label} is {p == 0}") == 0
        sym.memo[key] = r
        return r

    def truth_sym(self, s):
        if s.bound is not UNBOUND:
            return bool(s.bound)
        if s.truth is None:
            if s.isnone:
                s.truth = False
            elif s.kind == "obj":
                s.truth = True
            else:
                s.truth = self.choose(2, lambda p: f"{s.name} is {'truthy' if p == 0 else 'falsy'}") == 0
            if s.truth:
                s.isnone = False
                if s.kind == "bool":
                    s.bound = True
            else:
                if s.kind == "bool":
                    s.bound = False
                elif s.kind == "str":
                    s.bound = ""
                elif s.kind == "int":
                    s.bound = 0
        return s.truth

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, bytes)):
            return bool(v)
        if isinstance(v, AStr):
            v = self.norm(v)
            if not v.s:
                return False
            syms = []
            for c in v.s:
                if not is_hole(c):
                    return True
                syms.append(self.P.holes[c])
            if any(s.truth for s in syms):
                return True
            for s in syms:
                if self.strtruth(s):
                    return True
            return False
        if isinstance(v, (AList, ATuple)):
            return bool(v.items)
        if isinstance(v, (ADict, ASet)):
            if isinstance(v, ADict) and v.unknown and not v.d:
                return self.choose(2, lambda p: f"unknown dict is {'non-empty' if p == 0 else 'empty'}") == 0
            return bool(v.d)
        if isinstance(v, Sym):
            return self.truth_sym(v)
        if isinstance(v, Lazy):
            raise AnalysisError("lazy leaked")
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(ABound(f, v), []))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(ABound(f, v), []))
            if v.cls.nt_fields:
                return bool(v.cls.nt_fields)
            return True
        return True

    def strtruth(self, s):
        """Truth of str(s) == non-empty."""
        if s.kind in ("str",):
            return self.truth_sym(s)
        return True

    # ---------------------------------------------------------------- conversion
    def isconst(self, v):
        try:
            self.const(v)
            return True
        except NotConst:
            return False

    def const(self, v):
        if v is None or isinstance(v, (bool, int, float, bytes)):
            return v
        if isinstance(v, AStr):
            v = self.norm(v)
            if v.holes:
                raise NotConst
            return v.s
        if isinstance(v, Sym):
            if v.bound is not UNBOUND:
                return v.bound
            if v.isnone:
                return None
            raise NotConst
        if isinstance(v, AList):
            return [self.const(x) for x in v.items]
        if isinstance(v, ATuple):
            return tuple(self.const(x) for x in v.items)
        if isinstance(v, ADict) and not v.unknown:
            return {self.const(k): self.const(x) for k, x in v.d.values()}
        if isinstance(v, ASet):
            return {self.const(x) for x in v.d.values()}
        raise NotConst

    def lift(self, v):
        if v is None or isinstance(v, (bool, int, float, bytes)):
            return v
        if isinstance(v, str):
            return AStr(v, [self.prov()] * len(v))
        if isinstance(v, list):
            return AList([self.lift(x) for x in v])
        if isinstance(v, tuple):
            return ATuple([self.lift(x) for x in v])
        if isinstance(v, dict):
            d = ADict()
            for k, x in v.items():
                self.dict_set(d, self.lift(k), self.lift(x))
            return d
        if isinstance(v, (set, frozenset)):
            d = ASet()
            for x in v:
                lx = self.lift(x)
                d.d[self.key(lx)] = lx
            return d
        return v

    def to_str(self, v):
        """str(v) as an AStr."""
        if isinstance(v, AStr):
            return self.norm(v)
        if isinstance(v, IdInt):
            self.event("nondet_str", what="id()/hash() formatted into a string")
            return self.lift(str(int(v)))
        if v is None or isinstance(v, (bool, int, float, bytes)):
            return self.lift(str(v))
        if isinstance(v, Sym):
            if v.bound is not UNBOUND:
                return self.lift(str(v.bound))
            if v.isnone is None and v.kind == "any":
                pass
            if v.isnone:
                return self.lift("None")
            return self.hole(v)
        if isinstance(v, AObj):
            for m in ("__str__", "__repr__"):
                f, c = v.cls.lookup(m)
                if f is not None:
                    r = self.call(ABound(f, v), [])
                    return r if isinstance(r, AStr) else self.to_str(r)
            if v.cls.nt_fields:
                return self.to_repr(v)
            if v.cls.issub(self.builtin_classes["BaseException"]):
                args = v.attrs.get("args")
                if isinstance(args, ATuple):
                    if not args.items:
                        return self.lift("")
                    if len(args.items) == 1:
                        return self.to_str(args.items[0])
            s = v.attrs.get("__strsym__")
            if s is None:
                s = v.attrs["__strsym__"] = self.sym(f"str({v!r})", "str", truth=True)
                s.meta["objstr"] = v
                if not v.cls.ext_bases:
                    s.meta["nondet"] = True
            return self.hole(s)
        if isinstance(v, AClass):
            return self.lift(f"<class '{v.module}.{v.name}'>")
        return self.to_repr(v)

    def to_repr(self, v):
        if isinstance(v, AStr):
            v = self.norm(v)
            if not v.holes:
                return self.lift(repr(v.s))
            return self.lift("'") + v + self.lift("'")
        if isinstance(v, (AList, ATuple)):
            o, c = ("[", "]") if isinstance(v, AList) else ("(", ")")
            out = self.lift(o)
            for i, x in enumerate(v.items):
                if i:
                    out = out + self.lift(", ")
                out = out + self.to_repr(x)
            if isinstance(v, ATuple) and len(v.items) == 1:
                out = out + self.lift(",")
            return out + self.lift(c)
        if isinstance(v, ADict):
            out = self.lift("{")
            for i, (k, x) in enumerate(v.d.values()):
                if i:
                    out = out + self.lift(", ")
                out = out + self.to_repr(k) + self.lift(": ") + self.to_repr(x)
            return out + self.lift("}")
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__repr__")
            if f is not None:
                r = self.call(ABound(f, v), [])
                return r if isinstance(r, AStr) else self.to_str(r)
            if v.cls.nt_fields:
                out = self.lift(v.cls.name + "(")
                for i, k in enumerate(v.cls.nt_fields):
                    out = out + self.lift((", " if i else "") + k + "=") + self.to_repr(self.getattr(v, k))
                return out + self.lift(")")
            return self.to_str(v)
        if isinstance(v, (AFunc, ABound, ABuiltin, AModule, Ext, ASet, PyIter, AMatch)):
            s = self.sym(f"repr({v!r})", "str", truth=True)
            return self.hole(s)
        return self.to_str(v)

    def key(self, v):
        """Hashable identity of a value used as dict key / set element."""
        if isinstance(v, bool) or v is None:
            return ("c", v)
        if isinstance(v, (int, float)):
            return ("n", v)
        if isinstance(v, bytes):
            return ("b", v)
        if isinstance(v, AStr):
            return ("s", self.norm(v).s)
        if isinstance(v, ATuple):
            return ("t", tuple(self.key(x) for x in v.items))
        if isinstance(v, Sym):
            if v.bound is not UNBOUND:
                return self.key(self.lift(v.bound))
            if v.isnone:
                return ("c", None)
            return ("y", v.uid)
        if isinstance(v, Ext):
            return ("e", v.name)
        if isinstance(v, (AList, ADict, ASet)):
            if isinstance(v, ASet) and v.isfrozenset:
                return ("f", frozenset(v.d))
            self.raise_("TypeError", f"unhashable type: '{self.type_of(v).name}'")
        if isinstance(v, AObj):
            if v.cls.nt_fields:
                return ("t", tuple(self.key(self.getattr(v, f)) for f in v.cls.nt_fields))
            f, c = v.cls.lookup("__hash__")
            if f is not None and isinstance(f, AFunc):
                r = self.call(ABound(f, v), [])
                if isinstance(r, int) and not isinstance(r, IdInt):
                    return ("n", r)
                return ("h", id(v))
            e, c = v.cls.lookup("__eq__")
            if e is not None and isinstance(e, AFunc) and f is None and "__hash__" not in c.ns:
                self.raise_("TypeError", f"unhashable type: '{v.cls.name}'")
        return ("o", id(v))

    # ---------------------------------------------------------------- errors
    def make_exc(self, name, msg=""):
        cls = self.builtin_classes[name]
        o = self.new_obj(cls)
        o.attrs["args"] = ATuple([msg if not isinstance(msg, str) else self.lift(msg)])
        return o

    def raise_(self, name, msg=""):
        raise PyRaise(self.make_exc(name, msg), self.loc())

    # ---------------------------------------------------------------- mutation
    def mut(self, obj, attr, what, key=None, old=MISSING, new=MISSING):
        """Called before obj.<attr> (its payload) is modified in place."""
        if self.booting:
            return
        if getattr(obj, "frozen", False):
            self.event("mutate_frozen", obj=obj, attr=attr, what=what, key=key, old=old, new=new, snap=snapshot(obj, attr))
        if getattr(obj, "boot", False):
            self.event("mutate_boot", obj=obj, attr=attr, what=what, key=key, old=old, new=new, snap=snapshot(obj, attr))
            self.trail(obj, attr)

    def trail(self, obj, attr):
        k = (id(obj), attr)
        if k not in self.P.trailed:
            self.P.trailed.add(k)
            payload = getattr(obj, attr)
            self.P.trail.append((obj, attr, payload.copy()))

    def new_obj(self, cls):
        self.P.nobj += 1
        o = AObj(cls, self.P.nobj)
        return o

    # ---------------------------------------------------------------- dict helpers
    def dict_find(self, d, k):
        """Key under which k is stored in d, or None.  Decides unknown equalities by splitting."""
        kk = self.key(k)
        if kk in d.d:
            return kk
        if kk[0] == "n" and ("c", True) in d.d and kk[1] == 1:
            return ("c", True)
        unknown = (kk[0] == "s" and any(is_hole(c) for c in kk[1]) if kk[0] == "s" and not kk[1].isascii() else False) or kk[0] == "y"
        for ek, ent in list(d.d.items()):
            eu = ek[0] == "y" or (ek[0] == "s" and not ek[1].isascii() and any(is_hole(c) for c in ek[1]))
            if unknown or eu:
                other = ent[0] if isinstance(ent, tuple) else ent
                if self.eq(k, other):
                    return ek
        return None

    def dict_set(self, d, k, v):
        self.mut(d, "d", "set item", key=k, new=v)
        kk = self.dict_find(d, k)
        if kk is None:
            d.d[self.key(k)] = (k, v)
        else:
            d.d[kk] = (d.d[kk][0], v)

    def dict_get(self, d, k):
        kk = self.dict_find(d, k)
        if kk is None:
            return MISSING
        return d.d[kk][1]

    def set_add(self, s, v):
        kk = self.dict_find(s, v)
        if kk is None:
            self.mut(s, "d", "add", new=v)
            s.d[self.key(v)] = v

    # ---------------------------------------------------------------- types
    def type_of(self, v):
        B = self.builtin_classes
        if v is None:
            return B["NoneType"]
        if isinstance(v, bool):
            return B["bool"]
        if isinstance(v, int):
            return B["int"]
        if isinstance(v, float):
            return B["float"]
        if isinstance(v, bytes):
            return B["bytes"]
        if isinstance(v, AStr):
            return B["str"]
        if isinstance(v, AList):
            return B["list"]
        if isinstance(v, ATuple):
            return B["tuple"]
        if isinstance(v, ADict):
            return B["defaultdict"] if v.factory is not None else B["dict"]
        if isinstance(v, ASet):
            return B["frozenset"] if v.isfrozenset else B["set"]
        if isinstance(v, AObj):
            return v.cls
        if isinstance(v, AClass):
            return B["type"]
        if isinstance(v, (AFunc, ABound, ABuiltin)):
            return B["function"]
        if isinstance(v, PyIter):
            return B["generator"]
        if isinstance(v, AModule):
            return B["module"]
        if isinstance(v, ASlice):
            return B["slice"]
        if isinstance(v, Sym):
            k = {"str": "str", "int": "int", "bool": "bool", "float": "float", "list": "list"}.get(v.kind)
            if k:
                return B[k]
            if v.bound is not UNBOUND:
                return self.type_of(self.lift(v.bound))
            return self.derived("type", [v], kind="obj")
        return B["object"]

    def isinstance_(self, v, cls):
        if isinstance(cls, ATuple):
            for c in cls.items:
                if self.isinstance_(v, c):
                    return True
            return False
        if isinstance(v, Sym) and v.kind == "any" and v.bound is UNBOUND:
            if isinstance(cls, AClass) and cls.name == "object":
                return True
            k = ("isinstance", id(cls) if not isinstance(cls, Ext) else cls.name)
            if k in v.memo:
                return v.memo[k]
            nm = getattr(cls, "name", str(cls))
            if v.isnone:
                return nm == "NoneType"
            r = self.predicate(k, v, f"isinstance({v.name}, {nm})")
            if r:
                if isinstance(cls, AClass) and cls.builtin and nm in ("str", "int", "bool", "float"):
                    v.kind = nm
                v.isnone = nm == "NoneType"
            return r
        if isinstance(cls, Ext):
            last = cls.name.rsplit(".", 1)[-1]
            if isinstance(v, AObj):
                for e in v.cls.ext_bases:
                    if e == cls:
                        return True
                if last == "Iterable":
                    return v.cls.lookup("__iter__")[0] is not None
                if last == "Callable":
                    return v.cls.lookup("__call__")[0] is not None
                return False
            if last in ("Iterable", "Sequence", "Collection", "Container"):
                if last == "Sequence":
                    return isinstance(v, (AList, ATuple, AStr))
                return isinstance(v, (AList, ATuple, ADict, ASet, AStr, PyIter))
            if last in ("Mapping", "MutableMapping"):
                return isinstance(v, ADict)
            if last in ("Callable",):
                return isinstance(v, (AFunc, ABound, ABuiltin, AClass))
            if isinstance(v, Sym):
                if v.meta.get("ext") == cls.name:
                    return True
                return self.predicate(("isinstance", cls.name), v, f"isinstance({v.name}, {last})")
            return False
        if isinstance(cls, AClass):
            t = self.type_of(v)
            if isinstance(t, AClass):
                if t.issub(cls):
                    return True
                if cls.name == "object" and cls.builtin:
                    return True
                if cls.builtin and cls.name == "tuple" and t.nt_fields:
                    return True
                if isinstance(v, Sym) and v.kind == "obj":
                    return self.predicate(("isinstance", id(cls)), v, f"isinstance({v.name}, {cls.name})")
                return False
            if isinstance(v, Sym):
                return self.predicate(("isinstance", id(cls)), v, f"isinstance({v.name}, {cls.name})")
            return False
        if isinstance(cls, Sym):
            return self.predicate(("isinstance", cls.uid, id(v)), cls, f"isinstance(_, {cls.name})")
        if isinstance(cls, (AObj, AStr, int, float, type(None), AList, ADict, AFunc, ABound)):
            self.raise_("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
        self.gap("isinstance with unknown class")
        return self.choose(2) == 0

    # ---------------------------------------------------------------- equality
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and a.bound is not UNBOUND:
            a = self.lift(a.bound)
        if isinstance(b, Sym) and b.bound is not UNBOUND:
            b = self.lift(b.bound)
        if isinstance(a, AStr) and isinstance(b, AStr):
            return self.eq_str(self.norm(a), self.norm(b))
        prim = (bool, int, float, bytes, type(None))
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if isinstance(a, AObj):
            f, c = a.cls.lookup("__eq__")
            if f is not None:
                return self.truth(self.call(ABound(f, a), [b]))
        if isinstance(b, AObj) and not isinstance(a, AObj):
            f, c = b.cls.lookup("__eq__")
            if f is not None:
                return self.truth(self.call(ABound(f, b), [a]))
        if isinstance(a, AObj) and isinstance(b, AObj) and a.cls.nt_fields and b.cls.nt_fields:
            return all(self.eq(self.getattr(a, x), self.getattr(b, y)) for x, y in zip(a.cls.nt_fields, b.cls.nt_fields))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq_sym(a, b)
        if isinstance(a, (AList, ATuple)) and type(a) is type(b):
            if len(a.items) != len(b.items):
                return False
            return all(self.eq(x, y) for x, y in zip(list(a.items), list(b.items)))
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.d) != len(b.d):
                return False
            for k, v in list(a.d.values()):
                w = self.dict_get(b, k)
                if w is MISSING or not self.eq(v, w):
                    return False
            return True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return set(a.d) == set(b.d)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, ABound) and isinstance(b, ABound):
            return a.func is b.func and a.self is b.self
        return False

    def eq_str(self, a, b):
        if a.s == b.s:
            return True
        if not a.holes and not b.holes:
            return False
        if a.pure_hole() or b.pure_hole():
            if not a.pure_hole():
                a, b = b, a
            s = self.P.holes[a.s]
            if not b.holes:
                return self.eq_sym_const(s, b.s)
            if b.pure_hole():
                return self.eq_syms(s, self.P.holes[b.s])
        # compare literal prefixes / suffixes
        i = 0
        while i < len(a.s) and i < len(b.s) and not is_hole(a.s[i]) and not is_hole(b.s[i]):
            if a.s[i] != b.s[i]:
                return False
            i += 1
        i = 1
        while i <= len(a.s) and i <= len(b.s) and not is_hole(a.s[-i]) and not is_hole(b.s[-i]):
            if a.s[-i] != b.s[-i]:
                return False
            i += 1
        h = next(self.P.holes[c] for c in a.s + b.s if is_hole(c))
        return self.predicate(("eqs", a.s, b.s), h, f"{self.show(a)} == {self.show(b)}")

    def eq_sym_const(self, s, c):
        if s.bound is not UNBOUND:
            return s.bound == c
        if any(n == c and type(n) is type(c) for n in s.neq):
            return False
        if c is None:
            return self.is_none(s)
        if s.isnone:
            return False
        if s.truth is not None and s.truth != bool(c):
            return False
        if s.kind == "str" and not isinstance(c, str):
            return False
        if s.kind in ("int", "float", "bool") and not isinstance(c, (int, float)):
            return False
        if s.kind in ("obj", "list"):
            return False
        if ("fresh",) in s.memo:
            return False
        for (k, v) in s.memo.items():
            if k[0] == "startswith" and isinstance(c, str) and v != c.startswith(k[1]):
                return False
        if self.choose(2, lambda p: f"{s.name} {'==' if p == 0 else '!='} {c!r}") == 0:
            s.bound = c
            s.truth = bool(c)
            s.isnone = False
            return True
        s.neq.append(c)
        if not c and isinstance(c, str) and s.kind == "str":
            s.truth = True
        return False

    def eq_syms(self, a, b):
        if a is b:
            return True
        if a.kind == "str" and b.kind == "str" and a.truth is not None and b.truth is not None and a.truth != b.truth:
            return False
        x, y = (a, b) if a.uid < b.uid else (b, a)
        if ("distinct",) in x.memo and ("distinct",) in y.memo:
            return False
        return self.predicate(("eqsym", y.uid), x, f"{x.name} == {y.name}")

    def eq_sym(self, a, b):
        if not isinstance(a, Sym):
            a, b = b, a
        if isinstance(b, Sym):
            return self.eq_syms(a, b)
        if isinstance(b, AStr):
            b = self.norm(b)
            if b.pure_hole():
                return self.eq_syms(a, self.P.holes[b.s])
            if not b.holes:
                return self.eq_sym_const(a, b.s)
            return self.predicate(("eqs", b.s), a, f"{a.name} == {self.show(b)}")
        if b is None or isinstance(b, (bool, int, float)):
            return self.eq_sym_const(a, b)
        if isinstance(b, (AObj, AClass, AFunc)) or isinstance(b, Ext):
            if a.kind in ("str", "int", "bool", "float"):
                return False
            return self.predicate(("eqobj", id(b)), a, f"{a.name} == {b!r}")
        if a.kind in ("str", "int", "bool", "float"):
            return False
        return self.predicate(("eqobj", id(b)), a, f"{a.name} == {b!r}")

    def is_none(self, s):
        if s.bound is not UNBOUND:
            return s.bound is None
        if s.isnone is None:
            if s.truth:
                s.isnone = False
            else:
                s.isnone = self.choose(2, lambda p: f"{s.name} is{'' if p == 0 else ' not'} None") == 0
                if s.isnone:
                    s.truth = False
        return s.isnone

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and b is None:
            return self.is_none(a)
        if isinstance(b, Sym) and a is None:
            return self.is_none(b)
        if isinstance(a, Sym) and a.bound is not UNBOUND:
            a = self.lift(a.bound)
        if isinstance(b, Sym) and b.bound is not UNBOUND:
            b = self.lift(b.bound)
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, bool):
                if s.kind in ("bool", "any"):
                    return self.eq_sym_const(s, o)
                return False
            if isinstance(o, Sym):
                return self.eq_syms(s, o)
            if s.kind in ("str", "int", "float", "bool"):
                return False
            return self.predicate(("is", id(o)), s, f"{s.name} is {o!r}")
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b and type(a) is type(b)
        if isinstance(a, AStr) and isinstance(b, AStr):
            return self.eq_str(self.norm(a), self.norm(b))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, ABound) and isinstance(b, ABound):
            return False
        return False

    def show(self, v):
        """Readable rendering of a template: holes as {name}."""
        if isinstance(v, AStr):
            return "".join("{" + self.P.holes[c].name + "}" if is_hole(c) and c in self.P.holes else c for c in v.s)
        return repr(v)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not MISSING and e.exc.cls.name == "AttributeError":
                return default
            raise

    def bind(self, v, o, cls):
        if isinstance(v, AFunc):
            return ABound(v, o)
        if isinstance(v, AProp):
            if v.fget is None:
                self.raise_("AttributeError", "unreadable attribute")
            return self.call(v.fget, [o])
        if isinstance(v, AStatic):
            return v.func
        if isinstance(v, AClassM):
            return ABound(v.func, cls)
        if isinstance(v, ABuiltin) and v.self is None and getattr(v, "name", "").startswith("method:"):
            return ABound(v, o)
        return v

    def _getattr(self, o, name):
        if isinstance(o, AObj):
            cv, c = o.cls.lookup(name)
            if isinstance(cv, AProp):
                return self.bind(cv, o, o.cls)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Lazy):
                    v = o.attrs[name] = v.fn()
                return v
            if c is not None:
                return self.bind(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = ADict()
                for k, v in o.attrs.items():
                    if isinstance(v, Lazy):
                        v = o.attrs[k] = v.fn()
                    d.d[("s", k)] = (self.lift(k), v)
                return d
            if o.cls.nt_fields and name in ("_fields", "_asdict", "_replace"):
                return self.bm.nt_method(self, o, name)
            if o.native is not None:
                r = self.bm.native_attr(self, o, name)
                if r is not None:
                    return r
            g, c = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(ABound(g, o), [self.lift(name)])
            if name in ("__init__", "__eq__", "__ne__", "__hash__", "__repr__", "__str__",
                        "__setattr__", "__getattribute__", "__init_subclass__", "__delattr__"):
                return self.bm.object_method(self, o, name)
            if o.cls.issub(self.builtin_classes["BaseException"]):
                if name in ("__cause__", "__context__", "__traceback__"):
                    return None
                if name == "args":
                    return ATuple([])
                if name == "with_traceback":
                    return ABuiltin("with_traceback", lambda M, a, k: o)
            if o.cls.ext_bases:
                s = self.sym(f"{o.cls.name}.{name}")
                s.meta["extattr"] = (o, name)
                o.attrs[name] = s
                return s
            self.raise_("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, AStr):
            m = self.bm.str_method(self, o, name)
            if m is None:
                self.raise_("AttributeError", f"'str' object has no attribute '{name}'")
            return m
        if isinstance(o, Sym):
            return self.sym_attr(o, name)
        if isinstance(o, AClass):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, AStatic):
                    return v.func
                if isinstance(v, AClassM):
                    return ABound(v.func, o)
                return v
            if name in ("__name__",):
                return self.lift(o.name)
            if name == "__qualname__":
                return self.lift(o.qualname)
            if name == "__module__":
                return self.lift(str(o.module))
            if name == "__bases__":
                return ATuple(o.bases or [self.builtin_classes["object"]])
            if name == "__mro__":
                return ATuple(list(o.mro) + [self.builtin_classes["object"]])
            if name == "mro":
                return ABuiltin("mro", lambda M, a, k: AList(list(o.mro) + [self.builtin_classes["object"]]))
            if name == "__dict__":
                d = ADict()
                for k, v in o.ns.items():
                    d.d[("s", k)] = (self.lift(k), v)
                return d
            if name == "__doc__":
                return None
            if name == "__subclasses__":
                return ABuiltin("__subclasses__", lambda M, a, k: AList(
                    [c for m in self.modules.values() for c in m.env.vars.values()
                     if isinstance(c, AClass) and o in c.bases]))
            if o.nt_fields and name in ("_fields", "_make"):
                return self.bm.nt_class_method(self, o, name)
            r = self.bm.class_attr(self, o, name)
            if r is not None:
                return r
            if name in ("__init__", "__eq__", "__repr__", "__hash__", "__str__", "__new__", "__setattr__"):
                return self.bm.object_class_method(self, o, name)
            if o.ext_bases:
                return Ext(f"{o.ext_bases[0].name if isinstance(o.ext_bases[0], Ext) else '?'}.{name}")
            self.raise_("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, AModule):
            if name in o.env.vars:
                return o.env.vars[name]
            sub = f"{o.name}.{name}"
            p = os.path.join(self.repo, *sub.split("."))
            if os.path.exists(p + ".py") or os.path.isdir(p):
                return self.load(sub)
            if name == "__dict__":
                return self.bm.module_dict(self, o)
            self.raise_("AttributeError", f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, Ext):
            full = f"{o.name}.{name}"
            if full in self.ext_models:
                return self.ext_models[full]
            if name == "__name__":
                return self.lift(o.name.rsplit(".", 1)[-1])
            if full in o.attrs:
                return o.attrs[full]
            return Ext(full)
        if isinstance(o, AFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return self.lift(o.name)
            if name == "__qualname__":
                return self.lift(o.qualname)
            if name == "__doc__":
                return None
            if name == "__dict__":
                return ADict()
            if name == "__module__":
                return self.lift(o.module.name)
            if name == "__get__":
                return ABuiltin("__get__", lambda M, a, k: ABound(o, a[0]))
            if name == "__defaults__":
                return ATuple(list(o.defaults))
            self.raise_("AttributeError", f"'function' object has no attribute '{name}'")
        if isinstance(o, ABound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, ASuper):
            return self.super_attr(o, name)
        if isinstance(o, AProp):
            if name in ("setter", "getter", "deleter"):
                def setter(M, a, k, name=name):
                    if name == "setter":
                        return AProp(o.fget, a[0], o.fdel)
                    if name == "getter":
                        return AProp(a[0], o.fset, o.fdel)
                    return AProp(o.fget, o.fset, a[0])
                return ABuiltin(name, setter)
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
        m = self.bm.container_method(self, o, name)
        if m is not None:
            return m
        if name == "__class__":
            return self.type_of(o)
        if name == "__name__" and isinstance(o, ABuiltin):
            return self.lift(o.name)
        if name == "__doc__":
            return None
        self.raise_("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def sym_attr(self, o, name):
        if o.bound is not UNBOUND:
            return self._getattr(self.lift(o.bound), name)
        if o.isnone:
            self.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if o.kind == "str":
            return self._getattr(self.hole(o), name)
        if name in o.attrs:
            return o.attrs[name]
        if name == "__class__":
            return self.type_of(o)
        if o.kind in ("int", "float", "bool"):
            m = self.bm.container_method(self, 0 if o.kind != "float" else 0.0, name)
            if m is None:
                self.raise_("AttributeError", f"'{o.kind}' object has no attribute '{name}'")
        fn = o.meta.get("getattr")
        if fn is not None:
            v = fn(self, o, name)
            if v is not None:
                o.attrs[name] = v
                return v
        ext = o.meta.get("ext")
        if ext in STDLIB and not hasattr(STDLIB[ext], name):
            self.raise_("AttributeError", f"'{ext}' object has no attribute '{name}'")
        s = self.sym(f"{o.name}.{name}", origin=[o])
        s.meta["attr_of"] = (o, name)
        o.attrs[name] = s
        return s

    def super_attr(self, o, name):
        obj = o.obj
        cls = obj if isinstance(obj, AClass) else (obj.cls if isinstance(obj, AObj) else None)
        if cls is None:
            self.gap("super() on unknown object")
            return self.sym(f"super.{name}")
        mro = cls.mro
        i = mro.index(o.cls) if o.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(obj, AClass):
                    if isinstance(v, AStatic):
                        return v.func
                    if isinstance(v, AClassM):
                        return ABound(v.func, obj)
                    if name == "__new__":
                        return v
                    return v
                return self.bind(v, obj, cls)
        if cls.nt_fields and name == "__new__":
            return self.bm.nt_class_method(self, cls, "__new__")
        ext = [e for e in cls.ext_bases]
        if name in ("__init__",):
            if isinstance(obj, AObj) and cls.issub(self.builtin_classes["BaseException"]):
                def exc_init(M, a, k):
                    obj.attrs["args"] = ATuple(a)
                    return None
                return ABuiltin("__init__", exc_init)

            def init(M, a, k):
                if ext:
                    M.event("ext_call", name=f"{getattr(ext[0], 'name', '?')}.__init__", args=a, kwargs=k, self=obj)
                elif a or k:
                    M.raise_("TypeError", f"object.__init__() takes exactly one argument (class {cls.name}; got {list(k) or len(a)})")
                return None
            return ABuiltin("__init__", init)
        if name in ("__repr__", "__eq__", "__hash__", "__str__", "__setattr__", "__init_subclass__",
                    "__new__", "__delattr__", "__getattribute__"):
            return self.bm.object_method(self, obj, name)
        if ext:
            def extm(M, a, k):
                nm = f"{getattr(ext[0], 'name', '?')}.{name}"
                M.event("ext_call", name=nm, args=a, kwargs=k, self=obj)
                return M.derived(nm, a)
            return ABuiltin(name, extm)
        if isinstance(obj, AObj) and obj.native is not None:
            r = self.bm.native_attr(self, obj, name)
            if r is not None:
                return r
        self.raise_("AttributeError", f"'super' object has no attribute '{name}'")

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            cv, c = o.cls.lookup(name)
            if isinstance(cv, AProp):
                if cv.fset is None:
                    self.raise_("AttributeError", f"property '{name}' of '{o.cls.name}' object has no setter")
                self.call(cv.fset, [o, v])
                return
            f, c = o.cls.lookup("__setattr__")
            if f is not None:
                self.call(ABound(f, o), [self.lift(name), v])
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, AClass):
            self.mut(o, "ns", "set attribute", key=name, old=o.ns.get(name, MISSING), new=v)
            o.ns[name] = v
            return
        if isinstance(o, AModule):
            self.event("mutate_boot", obj=o, what="set attribute", key=name, old=o.env.vars.get(name, MISSING), new=v)
            self.trail(o.env, "vars")
            o.env.vars[name] = v
            return
        if isinstance(o, AFunc):
            self.mut(o, "attrs", "set attribute", key=name, new=v)
            o.attrs[name] = v
            return
        if isinstance(o, (Sym, Ext)):
            self.event("ext_setattr", obj=o, name=name, value=v)
            if isinstance(o, Sym):
                o.attrs[name] = v
            return
        if isinstance(o, ABound):
            self.raise_("AttributeError", f"'method' object has no attribute '{name}'")
        self.raise_("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def raw_setattr(self, o, name, v):
        old = o.attrs.get(name, MISSING)
        if o.cls.nt_fields and name in o.cls.nt_fields and name in o.attrs:
            self.raise_("AttributeError", "can't set attribute")
        if not (old is v and v is not MISSING):
            self.mut(o, "attrs", "set attribute", key=name, old=old, new=v)
        self.event("setattr", obj=o, name=name, value=v)
        o.attrs[name] = v

    def delattr(self, o, name):
        if isinstance(o, AObj):
            if name not in o.attrs:
                self.raise_("AttributeError", name)
            self.mut(o, "attrs", "delete attribute", key=name, old=o.attrs[name])
            del o.attrs[name]
        elif isinstance(o, AClass):
            self.mut(o, "ns", "delete attribute", key=name)
            o.ns.pop(name, None)
        else:
            self.event("ext_delattr", obj=o, name=name)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.P.fuel -= 1
        if self.P.fuel < 0:
            raise Diverged()
        if isinstance(f, ABound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ABuiltin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (AStatic, AClassM)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Sym):
            return self.call_sym(f, args, kwargs)
        if isinstance(f, AObj):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(ABound(m, f), args, kwargs)
            if f.native is not None and callable(f.native.get("__call__") if isinstance(f.native, dict) else None):
                return f.native["__call__"](self, args, kwargs)
            if f.cls.ext_bases:
                self.event("ext_call", name=f"{f.cls.name}.__call__", args=args, kwargs=kwargs, self=f)
                return self.derived(f"{f.cls.name}()", args)
            self.raise_("TypeError", f"'{f.cls.name}' object is not callable")
        self.raise_("TypeError", f"'{self.type_of(f).name}' object is not callable")

    def call_ext(self, f, args, kwargs):
        m = self.ext_models.get(f.name)
        if m is not None:
            if isinstance(m, ABuiltin):
                return m.fn(self, list(args), kwargs)
            if isinstance(m, AClass):
                return self.instantiate(m, args, kwargs)
        r = self.bm.pure_call(self, f.name, args, kwargs)
        if r is not MISSING:
            return r
        last = f.name.rsplit(".", 1)[-1]
        allargs = list(args) + list(kwargs.values())
        if self.nondet and (f.name in self.nondet or any(f.name.startswith(x + ".") for x in self.nondet)):
            self.P.memo["nondet"] = k = self.P.memo.get("nondet", 0) + 1
            f = Ext(f"{f.name} (call {k})")
        res = self.derived(f.name, allargs, kind="obj" if last[:1].isupper() else "any", ext=f.name,
                           kwargs=dict(kwargs))
        res.meta["args"] = list(args)
        self.event("ext_call", name=f.name, args=list(args), kwargs=dict(kwargs), result=res, self=None)
        hook = self.ext_raises.get(f.name) if self.ext_raises else None
        if hook is not None:
            hook(self, args, kwargs, res)
        return res

    ext_raises = None
    opaque_raw = False
    nondet = ()      # external names whose result differs from call to call

    def call_sym(self, f, args, kwargs):
        if f.isnone:
            self.raise_("TypeError", "'NoneType' object is not callable")
        fn = f.meta.get("call")
        if fn is not None:
            return fn(self, args, kwargs)
        allargs = [f] + list(args) + list(kwargs.values())
        res = self.derived(f"{f.name}()", allargs)
        res.meta["call_of"] = f
        res.meta["args"] = list(args)
        res.meta["kwargs"] = dict(kwargs)
        recv = f.meta.get("attr_of")
        nm = recv[1] if recv else f.name
        self.event("sym_call", func=f, name=nm, recv=recv[0] if recv else None, args=list(args), kwargs=dict(kwargs), result=res)
        return res

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        kwargs = dict(kwargs)
        nm = f.qualname
        for i, p in enumerate(params):
            if i < len(args):
                vars_[p] = args[i]
                if p in kwargs and i >= len(a.posonlyargs):
                    self.raise_("TypeError", f"{nm}() got multiple values for argument '{p}'")
        extra = args[len(params):]
        if a.vararg:
            vars_[a.vararg.arg] = ATuple(extra)
        elif extra:
            self.raise_("TypeError", f"{nm}() takes {len(params)} positional arguments but {len(args)} were given")
        for i, p in enumerate(params):
            if p in vars_:
                continue
            if p in kwargs and i >= len(a.posonlyargs):
                vars_[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(f.defaults))
                if j >= 0:
                    vars_[p] = f.defaults[j]
                else:
                    self.raise_("TypeError", f"{nm}() missing required argument: '{p}'")
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vars_[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kw_defaults:
                vars_[p.arg] = f.kw_defaults[p.arg]
            else:
                self.raise_("TypeError", f"{nm}() missing keyword argument: '{p.arg}'")
        if a.kwarg:
            d = ADict()
            for k, v in kwargs.items():
                d.d[("s", k)] = (self.lift(k), v)
            vars_[a.kwarg.arg] = d
        elif kwargs:
            self.raise_("TypeError", f"{nm}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        return vars_

    def call_func(self, f, args, kwargs):
        q = f"{f.module.name}.{f.qualname}"
        self.funcs_seen.add(q)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not MISSING:
                return r
        if len(self.frames) > 900:
            self.raise_("RecursionError", f"maximum recursion depth exceeded in {q}")
        vars_ = self.bind_args(f, args, kwargs)
        env = Env(f.env, f.module)
        env.vars = vars_
        if f.cls is not None:
            vars_["__class__"] = f.cls
        if isinstance(f.node, ast.Lambda):
            env.locals = self.local_names(f.node)
            self.frames.append([f.qualname, f.module.path, f.node.lineno])
            try:
                return self.ev(f.node.body, env)
            finally:
                self.frames.pop()
        env.locals = self.local_names(f.node)
        if f.isgen:
            return PyIter(self.gen_body(f, env), f.qualname)
        self.frames.append([f.qualname, f.module.path, f.node.lineno])
        try:
            self.exec_block(f.node.body, env)
        except _Return as r:
            return r.value
        finally:
            self.frames.pop()
        return None

    def gen_body(self, f, env):
        frame = [f.qualname, f.module.path, f.node.lineno]
        g = self.gexec(f.node.body, env)
        while True:
            self.frames.append(frame)
            try:
                v = next(g)
            except StopIteration:
                return
            except _Return as r:
                return
            finally:
                self.frames.pop()
            yield v

    def local_names(self, node):
        r = self.localsc.get(id(node))
        if r is None:
            r = self.localsc[id(node)] = _assigned_names(node)
        return r

    def instantiate(self, cls, args, kwargs):
        if cls.builtin:
            c = self.bm.construct_builtin(self, cls, args, kwargs)
            if c is not MISSING:
                return c
        h = self.hooks.get(f"new:{cls.name}")
        if h is not None:
            r = h(self, cls, args, kwargs)
            if r is not MISSING:
                return r
        new, nc = cls.lookup("__new__")
        if new is not None and isinstance(new, (AFunc, AStatic, ABound)):
            fn = new.func if isinstance(new, AStatic) else new
            o = self.call(fn, [cls] + list(args), kwargs)
            if not (isinstance(o, AObj) and o.cls.issub(cls)):
                return o
        elif cls.nt_fields:
            init, ic = cls.lookup("__init__")
            return self.bm.nt_new(self, cls, args, kwargs)
        else:
            o = self.new_obj(cls)
            self.bm.prepare_instance(self, o, args, kwargs)
        self.event("new", cls=cls, obj=o)
        abstract = self.abscache.get(cls) if not self.booting else None
        if abstract is None:
            abstract = self.abstract_methods(cls)
            if not self.booting:
                self.abscache[cls] = abstract
        if abstract:
            self.raise_("TypeError", f"Can't instantiate abstract class {cls.name} with abstract method {sorted(abstract)[0]}")
        init, ic = cls.lookup("__init__")
        if init is not None:
            self.call(ABound(init, o) if isinstance(init, (AFunc, ABuiltin)) else init, list(args), kwargs)
        elif cls.dc_fields is not None:
            self.bm.dc_init(self, o, args, kwargs)
        elif cls.issub(self.builtin_classes["BaseException"]):
            o.attrs["args"] = ATuple(list(args))
        elif cls.ext_bases:
            self.event("ext_call", name=f"{getattr(cls.ext_bases[0], 'name', '?')}.__init__", args=list(args), kwargs=kwargs, self=o)
        elif args or kwargs:
            if not any(c.builtin for c in cls.mro):
                self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    def abstract_methods(self, cls):
        if not any(getattr(e, "name", "") in ("abc.ABC",) for e in cls.ext_bases):
            return ()
        out = set()
        for c in cls.mro:
            for k, v in c.ns.items():
                fn = v.fget if isinstance(v, AProp) else (v.func if isinstance(v, (AStatic, AClassM)) else v)
                if isinstance(fn, AFunc) and fn.attrs.get("__abstract__"):
                    cur, _ = cls.lookup(k)
                    if cur is v:
                        out.add(k)
        return out

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, AList):
            def live():
                i = 0
                while i < len(v.items):
                    yield v.items[i]
                    i += 1
            return live()
        if isinstance(v, ATuple):
            return iter(list(v.items))
        if isinstance(v, ADict):
            if v.unknown:
                self.gap("iteration over a partially unknown dict")
            return self._dict_iter(v)
        if isinstance(v, ASet):
            if len(v.d) > 1:
                strs = [x for x in v.d.values() if not isinstance(x, (bool, int, float))]
                if strs:
                    self.event("set_iter", obj=v)
                    if self.P.world:
                        return iter(list(v.d.values())[::-1])
            return iter(list(v.d.values()))
        if isinstance(v, AStr):
            v = self.norm(v)
            if not v.holes:
                return iter([v.slice(i, i + 1) for i in range(len(v.s))])
            return iter(self.sym_elems(self.derived("chars", [v])))
        if isinstance(v, PyIter):
            return v.gen
        if isinstance(v, Sym):
            if v.bound is not UNBOUND:
                return self.iterate(self.lift(v.bound))
            if v.isnone or v.kind in ("int", "bool", "float"):
                self.raise_("TypeError", "object is not iterable")
            if v.kind == "str":
                return self.iterate(self.hole(v))
            return iter(self.sym_elems(v))
        if isinstance(v, AObj):
            if v.cls.nt_fields:
                return iter([self.getattr(v, f) for f in v.cls.nt_fields])
            f, c = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(ABound(f, v), []))
            f, c = v.cls.lookup("__next__")
            if f is not None:
                return self._next_iter(v)
            f, c = v.cls.lookup("__getitem__")
            if f is not None:
                return self._getitem_iter(v)
            if v.native is not None:
                r = self.bm.native_iter(self, v)
                if r is not None:
                    return r
            if v.cls.ext_bases:
                return iter(self.sym_elems(self.sym(f"iter({v.cls.name})")))
        if isinstance(v, Ext):
            return iter(self.sym_elems(self.sym(f"iter({v.name})")))
        if isinstance(v, AMatch):
            pass
        self.raise_("TypeError", f"'{getattr(self.type_of(v), 'name', '?')}' object is not iterable")

    def _dict_iter(self, v):
        n = len(v.d)
        for k, _ in list(v.d.values()):
            if len(v.d) != n:
                self.raise_("RuntimeError", "dictionary changed size during iteration")
            yield k

    def _next_iter(self, v):
        while True:
            try:
                x = self.call(self.getattr(v, "__next__"), [])
            except PyRaise as e:
                if e.exc.cls.name == "StopIteration":
                    return
                raise
            yield x

    def _getitem_iter(self, v):
        i = 0
        while True:
            try:
                x = self.call(self.getattr(v, "__getitem__"), [i])
            except PyRaise as e:
                if e.exc.cls.name == "IndexError":
                    return
                raise
            yield x
            i += 1

    max_unknown_len = 2

    def sym_elems(self, s):
        """Materialise an unknown sequence: length 0, 1 or 2 (bounded)."""
        if s.elems is None:
            if s.truth is None:
                n = self.choose(self.max_unknown_len + 1, lambda p: f"{s.name} has {p} element(s)")
                s.truth = n > 0
            elif s.truth:
                n = 1 + self.choose(self.max_unknown_len, lambda p: f"{s.name} has {p + 1} element(s)")
            else:
                n = 0
            mk = s.meta.get("elem")
            s.elems = [mk(self, i) if mk else self.sym(f"{s.name}[{i}]", origin=[s]) for i in range(n)]
        return list(s.elems)

    def tolist(self, v):
        return list(self.iterate(v))

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        P = self.P
        P.fuel -= 1
        if P.fuel < 0:
            raise Diverged()
        if self.frames:
            self.frames[-1][2] = s.lineno
        h = self.xcache.get(type(s))
        if h is None:
            h = self.xcache[type(s)] = getattr(self, "x_" + type(s).__name__, self.x_unknown)
        h(s, env)

    def x_unknown(self, s, env):
        self.gap(f"statement {type(s).__name__}")

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        while self.truth(self.ev(s.test, env)):
            self.P.fuel -= 1
            if self.P.fuel < 0:
                raise Diverged()
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        for v in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        if env.isclass and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annfields__", []).append(s.target.id)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.assign(t, self.inplace(op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(s.value, env)))

    def inplace(self, op, cur, val):
        if isinstance(cur, AList) and op == "Add":
            new = self.tolist(val)
            self.mut(cur, "items", "extend", new=new)
            cur.items.extend(new)
            return cur
        if isinstance(cur, ASet) and op == "BitOr" and isinstance(val, ASet):
            self.mut(cur, "d", "update")
            cur.d.update(val.d)
            return cur
        if isinstance(cur, ADict) and op == "BitOr" and isinstance(val, ADict):
            for k, v in list(val.d.values()):
                self.dict_set(cur, k, v)
            return cur
        if isinstance(cur, AObj):
            f, c = cur.cls.lookup({"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__"}.get(op, "__i__"))
            if f is not None:
                return self.call(ABound(f, cur), [val])
        return self.binop(op, cur, val)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise cur[-1]
            self.raise_("RuntimeError", "No active exception to reraise")
        e = self.ev(s.exc, env)
        if isinstance(e, AClass):
            e = self.instantiate(e, [], {})
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(e, AObj):
                e.attrs["__cause__"] = c
        if isinstance(e, (Sym, Ext)):
            x = self.make_exc("Exception", "unknown exception")
            x.attrs["__ext__"] = e
            raise PyRaise(x, self.loc())
        raise PyRaise(e, self.loc())

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError", self.ev(s.msg, env) if s.msg else "")

    def exc_matches(self, e, spec):
        if isinstance(spec, ATuple):
            return any(self.exc_matches(e, x) for x in spec.items)
        if isinstance(spec, AClass):
            return e.cls.issub(spec)
        if isinstance(spec, Ext):
            if e.attrs.get("__extname__") == spec.name:
                return True
            ext = e.cls.ext_bases
            return spec in ext
        return False

    def x_Try(self, s, env):
        if not hasattr(self, "handling"):
            self.handling = []
        nframes = len(self.frames)
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                del self.frames[nframes:]
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, env)):
                        self.event("caught", exc=e.exc, by=h.lineno, exloc=e.loc)
                        if h.name:
                            self.assign_name(h.name, e.exc, env)
                        self.handling.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyRaise, _Return, _Break, _Continue)):
                if s.finalbody:
                    self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self._with(s, s.items, env)

    def _with(self, s, items, env):
        if not items:
            self.exec_block(s.body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        v, exit_ = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self._with(s, items[1:], env)
        except PyRaise as e:
            if self.truth(exit_(e)):
                return
            raise
        except (_Return, _Break, _Continue):
            exit_(None)
            raise
        else:
            exit_(None)

    def enter(self, cm):
        if isinstance(cm, AObj) and cm.cls.lookup("__enter__")[0] is not None:
            v = self.call(self.getattr(cm, "__enter__"), [])

            def exit_(e):
                if e is None:
                    return self.call(self.getattr(cm, "__exit__"), [None, None, None])
                return self.call(self.getattr(cm, "__exit__"), [e.exc.cls, e.exc, None])
            return v, exit_
        if isinstance(cm, AObj) and isinstance(cm.native, dict) and "cm_gen" in cm.native:
            g = cm.native["cm_gen"]
            v = next(g.gen)

            def exit_(e):
                if e is not None:
                    try:
                        g.gen.throw(e)
                    except StopIteration:
                        return True
                    return False
                next(g.gen, None)
                return False
            return v, exit_
        self.event("with_enter", obj=cm)

        def exit_(e):
            self.event("with_exit", obj=cm)
            return False
        if isinstance(cm, Sym):
            r = self.derived(f"enter({cm.name})", [cm])
            r.meta["enter_of"] = cm
            return r, exit_
        return cm, exit_

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.assign_name(s.name, v, env)

    def make_func(self, s, env):
        name = getattr(s, "name", "<lambda>")
        f = AFunc(name, s, env, env.module)
        qn = name
        if env.isclass:
            qn = env.vars.get("__qualname__", "") + "." + name if isinstance(env.vars.get("__qualname__"), str) else name
        elif self.frames and env.parent is not None:
            qn = self.frames[-1][0] + ".<locals>." + name
        f.qualname = qn
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kw_defaults = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f.isgen = not isinstance(s, ast.Lambda) and _is_gen(s)
        e = env
        if not env.isclass:
            while e is not None:
                if e.isclass:
                    break
                e = e.parent
        return f

    def decorate(self, d, v):
        if isinstance(d, ABuiltin):
            return d.fn(self, [v], {})
        if isinstance(d, AClass) and d.builtin:
            return self.call(d, [v])
        if isinstance(d, Ext):
            n = d.name
            if n.endswith("abstractmethod"):
                v.attrs["__abstract__"] = True
                return v
            if n in ("functools.lru_cache", "functools.cache"):
                return self.bm.cached(self, v)
            if n == "functools.cached_property":
                return self.bm.cached_property(self, v)
            if n == "contextlib.contextmanager":
                return self.bm.contextmanager(self, v)
            if n in ("dataclasses.dataclass",):
                return self.bm.dataclass(self, v)
            if n in ("functools.total_ordering", "typing.override", "typing.final", "typing.overload",
                     "typing_extensions.override", "typing.no_type_check"):
                return v
            return v
        if isinstance(d, Sym):
            ext = d.meta.get("ext", "")
            if ext in ("functools.lru_cache",):
                return self.bm.cached(self, v)
            if ext == "functools.wraps":
                return v
            if ext == "dataclasses.dataclass":
                return self.bm.dataclass(self, v)
            return v
        return self.call(d, [v])

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env, env.module, isclass=True)
        qn = s.name
        if env.isclass and isinstance(env.vars.get("__qualname__"), str):
            qn = env.vars["__qualname__"] + "." + s.name
        cenv.vars["__qualname__"] = qn
        self.exec_block(s.body, cenv)
        ns = cenv.vars
        ns.pop("__qualname__", None)
        annf = ns.pop("__annfields__", [])
        rb, nt = [], None
        for b in bases:
            if isinstance(b, Ext) and b.name in ("typing.NamedTuple",):
                nt = annf
            elif isinstance(b, Ext) and b.name.split(".")[0] in ("typing", "typing_extensions"):
                pass
            elif isinstance(b, Sym):
                rb.append(Ext(b.meta.get("ext", b.name)))
            elif isinstance(b, (AClass, Ext)):
                if isinstance(b, AClass) and b.builtin and b.name == "object":
                    continue
                rb.append(b)
            else:
                self.gap(f"class base {b!r}")
        cls = AClass(s.name, rb, ns, env.module.name, s)
        cls.qualname = qn
        cls.annfields = None
        if nt is not None:
            cls.nt_fields = list(nt)
            cls.ns["__nt_defaults__"] = ADict()
            for k in nt:
                if k in ns:
                    cls.ns["__nt_defaults__"].d[("s", k)] = (self.lift(k), ns.pop(k))
        cls.ns["__annfields__"] = ATuple([self.lift(x) for x in annf])
        for v in ns.values():
            for f in self._funcs_in(v):
                if f.cls is None and f.env is cenv:
                    f.cls = cls
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        for b in cls.mro[1:]:
            if "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                kws = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg != "metaclass"}
                self.call(f.func if isinstance(f, AClassM) else f, [cls], kws)
                break
        for k, x in list(ns.items()):
            if isinstance(x, AObj):
                f, _ = x.cls.lookup("__set_name__")
                if f is not None:
                    self.call(ABound(f, x), [cls, self.lift(k)])
        self.assign_name(s.name, v, env)

    def _funcs_in(self, v):
        if isinstance(v, AFunc):
            yield v
        elif isinstance(v, (AStatic, AClassM)):
            yield from self._funcs_in(v.func)
        elif isinstance(v, AProp):
            for x in (v.fget, v.fset, v.fdel):
                if x is not None:
                    yield from self._funcs_in(x)
        elif isinstance(v, ABuiltin) and isinstance(getattr(v, "self", None), AFunc):
            yield v.self

    def x_Import(self, s, env):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                m = self.load(a.name)
                if a.asname:
                    self.assign_name(a.asname, m, env)
                else:
                    top = a.name.split(".")[0]
                    self.assign_name(top, self.load(top), env)
            else:
                m = self.ext_models.get(a.name) or Ext(a.name if a.asname else a.name.split(".")[0])
                self.assign_name(a.asname or a.name.split(".")[0], m, env)

    def x_ImportFrom(self, s, env):
        modname = s.module or ""
        if s.level:
            base = env.module.name
            if not env.module.path.endswith("__init__.py"):
                base = base.rpartition(".")[0]
            for _ in range(s.level - 1):
                base = base.rpartition(".")[0]
            modname = base + ("." + s.module if s.module else "")
        for a in s.names:
            if modname.split(".")[0] == self.package:
                m = self.modules.get(modname)
                if m is None:
                    m = self.load(modname)
                if a.name == "*":
                    for k, v in m.env.vars.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                if a.name in m.env.vars:
                    v = m.env.vars[a.name]
                else:
                    v = self._getattr(m, a.name)
            else:
                full = f"{modname}.{a.name}"
                v = self.ext_models.get(full)
                if v is None:
                    v = Ext(full)
            self.assign_name(a.asname or a.name, v, env)

    def x_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            binds = {}
            if self.match_pat(c.pattern, v, binds, env):
                for k, x in binds.items():
                    self.assign_name(k, x, env)
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    self.exec_block(c.body, env)
                    return

    def match_pat(self, p, v, b, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, b, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, b, env):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchClass):
            if not self.isinstance_(v, self.ev(p.cls, env)):
                return False
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, k, None)
                if not self.match_pat(q, x, b, env):
                    return False
            return not p.patterns or (len(p.patterns) == 1 and self.match_pat(p.patterns[0], v, b, env))
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (AList, ATuple)):
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                i = next(i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar))
                after = len(p.patterns) - i - 1
                if len(v.items) < i + after:
                    return False
                for q, x in zip(p.patterns[:i], v.items):
                    if not self.match_pat(q, x, b, env):
                        return False
                if p.patterns[i].name:
                    b[p.patterns[i].name] = AList(v.items[i:len(v.items) - after])
                for q, x in zip(p.patterns[i + 1:], v.items[len(v.items) - after:]):
                    if not self.match_pat(q, x, b, env):
                        return False
                return True
            return len(p.patterns) == len(v.items) and all(self.match_pat(q, x, b, env) for q, x in zip(p.patterns, v.items))
        self.gap(f"match pattern {type(p).__name__}")
        return self.choose(2) == 0

    # generator bodies ------------------------------------------------------
    def has_yield(self, s):
        r = self.constcache.get(("y", id(s)))
        if r is None:
            def visit(n):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    return False
                return any(visit(c) for c in ast.iter_child_nodes(n))
            r = self.constcache[("y", id(s))] = visit(s)
        return r

    def gexec(self, stmts, env):
        for s in stmts:
            if not self.has_yield(s):
                self.exec(s, env)
                continue
            self.P.fuel -= 1
            if self.P.fuel < 0:
                raise Diverged()
            if self.frames:
                self.frames[-1][2] = s.lineno
            if isinstance(s, ast.Expr) or (isinstance(s, ast.Assign)):
                y = s.value
                if isinstance(y, ast.Yield):
                    v = self.ev(y.value, env) if y.value is not None else None
                    sent = yield v
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            self.assign(t, sent, env)
                    continue
                if isinstance(y, ast.YieldFrom):
                    yield from self.iterate(self.ev(y.value, env))
                    continue
                self.gap("yield inside an expression")
            elif isinstance(s, ast.If):
                yield from self.gexec(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
            elif isinstance(s, ast.While):
                brk = False
                while self.truth(self.ev(s.test, env)):
                    self.P.fuel -= 1
                    if self.P.fuel < 0:
                        raise Diverged()
                    try:
                        yield from self.gexec(s.body, env)
                    except _Break:
                        brk = True
                        break
                    except _Continue:
                        continue
                if not brk:
                    yield from self.gexec(s.orelse, env)
            elif isinstance(s, ast.For):
                brk = False
                for v in self.iterate(self.ev(s.iter, env)):
                    self.assign(s.target, v, env)
                    try:
                        yield from self.gexec(s.body, env)
                    except _Break:
                        brk = True
                        break
                    except _Continue:
                        continue
                if not brk:
                    yield from self.gexec(s.orelse, env)
            elif isinstance(s, ast.Try):
                try:
                    try:
                        yield from self.gexec(s.body, env)
                    except PyRaise as e:
                        for h in s.handlers:
                            if h.type is None or self.exc_matches(e.exc, self.ev(h.type, env)):
                                if h.name:
                                    self.assign_name(h.name, e.exc, env)
                                yield from self.gexec(h.body, env)
                                break
                        else:
                            raise
                    else:
                        yield from self.gexec(s.orelse, env)
                finally:
                    et = sys.exc_info()[0]
                    if et is None or issubclass(et, (PyRaise, _Return, _Break, _Continue)):
                        for x in s.finalbody:
                            self.exec(x, env)
            elif isinstance(s, ast.With):
                cms = []
                for it in s.items:
                    v, ex = self.enter(self.ev(it.context_expr, env))
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, env)
                    cms.append(ex)
                yield from self.gexec(s.body, env)
                for ex in reversed(cms):
                    ex(None)
            else:
                self.gap(f"yield in {type(s).__name__}")

    # ---------------------------------------------------------------- assignment
    def assign_name(self, name, v, env):
        if name in env.globals_:
            m = env.module.env
            if not self.booting:
                self.event("mutate_boot", obj=env.module, what="assign global", key=name, old=m.vars.get(name, MISSING), new=v)
                self.trail(m, "vars")
            m.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if not e.isclass and name in e.vars and e.parent is not None:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if env.parent is not None and getattr(env, "comp", False) is True:
                env.vars[t.id] = v
            else:
                self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Sym) and v.bound is UNBOUND and v.elems is None and not v.isnone and v.kind == "any":
                n = len(t.elts)
                key = ("unpack",)
                if v.elems is None and not stars:
                    v.elems = [self.sym(f"{v.name}[{i}]", origin=[v]) for i in range(n)]
                    v.truth = n > 0
            items = []
            it = iter(self.iterate(v))
            if stars:
                items = list(it)
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, AList(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            for x in it:
                items.append(x)
                if len(items) > len(t.elts):
                    break
            if len(items) > len(t.elts):
                self.raise_("ValueError", "too many values to unpack")
            if len(items) < len(t.elts):
                self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            self.gap(f"assignment to {type(t).__name__}")

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or not e.isclass):
                v = e.vars[name]
                return v
            if e.locals and name in e.locals and name not in e.globals_ and name not in e.nonlocals:
                if name != "__class__":
                    self.raise_("UnboundLocalError", f"local variable '{name}' referenced before assignment")
            if name in e.globals_:
                e = e.module.env
                if name in e.vars:
                    return e.vars[name]
                break
            first = first and getattr(e, "comp", False)
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", f"name '{name}' is not defined")

    # ---------------------------------------------------------------- expressions
    def ev(self, n, env):
        h = self.ecache.get(type(n))
        if h is None:
            h = self.ecache[type(n)] = getattr(self, "e_" + type(n).__name__, self.e_unknown)
        return h(n, env)

    def e_unknown(self, n, env):
        self.gap(f"expression {type(n).__name__}")
        return self.sym(f"<{type(n).__name__}>")

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, str):
            c = self.constcache.get(id(n))
            if c is None:
                loc = (env.module.path, n.lineno, self.frames[-1][0] if self.frames else "?")
                i = self.provix.get(loc)
                if i is None:
                    i = self.provix[loc] = len(self.provs)
                    self.provs.append(loc)
                c = self.constcache[id(n)] = AStr(v, [i] * len(v))
            return c
        if v is Ellipsis:
            return None
        return v

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        if self.frames:
            self.frames[-1][2] = n.lineno
        return self.getattr(o, n.attr)

    def e_Call(self, n, env):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super":
            if n.args:
                a = [self.ev(x, env) for x in n.args]
                return ASuper(a[0], a[1])
            cls = self.lookup("__class__", env)
            e = env
            while e is not None and "__class__" not in e.vars:
                e = e.parent
            fnode = e
            # first positional parameter of the enclosing method
            for k, v in e.vars.items():
                return ASuper(cls, v)
        f = self.ev(fn, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.tolist(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, ADict):
                    for kk, vv in v.d.values():
                        c = self.norm(kk).const() if isinstance(kk, AStr) else None
                        if c is None:
                            self.gap("** with unknown key")
                            continue
                        if c in kwargs:
                            self.raise_("TypeError", f"got multiple values for keyword argument '{c}'")
                        kwargs[c] = vv
                else:
                    self.gap("** of unknown mapping")
                    self.event("starstar_unknown", value=v, func=f)
            else:
                if k.arg in kwargs:
                    self.raise_("TypeError", f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = v
        if self.frames:
            self.frames[-1][2] = n.lineno
        if isinstance(f, ABuiltin) and f.name in ("globals", "locals", "vars", "dir") and not args:
            return self.bm.env_dict(self, env, f.name)
        self.calls_count += 1
        return self.call(f, args, kwargs)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.bm.binop(self, op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        op = type(n.op).__name__
        if op == "Not":
            return not self.truth(v)
        if isinstance(v, Sym):
            if v.bound is not UNBOUND:
                v = v.bound
            else:
                return self.derived("neg", [v], kind="int" if v.kind in ("int", "bool") else "any")
        if isinstance(v, (int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
        self.raise_("TypeError", f"bad operand type for unary {op}")

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            res = self.compare(type(op).__name__, left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            if isinstance(a, AObj):
                f, _ = a.cls.lookup("__ne__")
                if f is not None:
                    return self.truth(self.call(ABound(f, a), [b]))
            return not self.eq(a, b)
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return not self.contains(b, a)
        return self.bm.order(self, op, a, b)

    def contains(self, c, x):
        if isinstance(c, (AList, ATuple)):
            for y in list(c.items):
                if y is x or self.eq(y, x):
                    return True
            return False
        if isinstance(c, (ADict, ASet)):
            if self.dict_find(c, x) is not None:
                return True
            if isinstance(c, ADict) and c.unknown:
                return self.choose(2, lambda p: f"key present: {p == 0}") == 0
            return False
        if isinstance(c, AStr):
            return self.bm.str_contains(self, c, x)
        if isinstance(c, AObj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(ABound(f, c), [x]))
            if c.native is not None or c.cls.lookup("__iter__")[0] is not None or c.cls.nt_fields:
                for y in self.iterate(c):
                    if self.eq(y, x):
                        return True
                return False
        if isinstance(c, PyIter):
            for y in c.gen:
                if self.eq(y, x):
                    return True
            return False
        if isinstance(c, Sym):
            if c.bound is not UNBOUND:
                return self.contains(self.lift(c.bound), x)
            if c.kind == "str":
                return self.bm.str_contains(self, self.hole(c), x)
            if c.elems is not None:
                return any(self.eq(y, x) for y in c.elems)
            return self.predicate(("contains", self.key(x)), c, f"{self.show(x)} in {c.name}")
        if isinstance(c, Ext):
            return self.choose(2, lambda p: f"in {c.name}: {p == 0}") == 0
        self.raise_("TypeError", f"argument of type '{self.type_of(c).name}' is not iterable")

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_JoinedStr(self, n, env):
        out = AStr("", [])
        for v in n.values:
            if isinstance(v, ast.Constant):
                out = out + self.e_Constant(v, env)
            else:
                out = out + self.e_FormattedValue(v, env)
        return out

    def e_FormattedValue(self, n, env):
        x = self.ev(n.value, env)
        if n.conversion == 114:
            x = self.to_repr(x)
        elif n.conversion in (115, 97):
            x = self.to_str(x)
        if n.format_spec is not None:
            spec = self.e_JoinedStr(n.format_spec, env)
            if spec.s:
                return self.bm.format_value(self, x, spec)
        if self.frames:
            self.frames[-1][2] = n.lineno
        if isinstance(x, AObj):
            f, _ = x.cls.lookup("__format__")
            if f is not None:
                return self.to_str(self.call(ABound(f, x), [self.lift("")]))
        return self.to_str(x)

    def e_List(self, n, env):
        return AList(self.elts(n.elts, env))

    def e_Tuple(self, n, env):
        return ATuple(self.elts(n.elts, env))

    def e_Set(self, n, env):
        s = ASet()
        for x in self.elts(n.elts, env):
            self.set_add(s, x)
        return s

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.tolist(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, env)
                if isinstance(m, ADict):
                    for kk, vv in list(m.d.values()):
                        self.dict_set(d, kk, vv)
                    d.unknown = d.unknown or m.unknown
                else:
                    d.unknown = True
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(o, Ext) or (isinstance(o, AClass) and o.builtin):
            return o
        k = self.ev(n.slice, env)
        if self.frames:
            self.frames[-1][2] = n.lineno
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        return ASlice(*[self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def getitem(self, o, k):
        return self.bm.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.bm.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.bm.delitem(self, o, k)

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while getattr(e, "comp", False):
            e = e.parent
        self.assign_name(n.target.id, v, e)
        return v

    def comp_env(self, env):
        e = Env(env, env.module)
        e.comp = True
        return e

    def comp_iter(self, gens, env, i=0):
        g = gens[i]
        src = self.ev(g.iter, env if i else env.parent)
        for v in self.iterate(src):
            self.P.fuel -= 1
            if self.P.fuel < 0:
                raise Diverged()
            self.assign(g.target, v, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.ev(c, env)):
                    ok = False
                    break
            if not ok:
                continue
            if i + 1 < len(gens):
                yield from self.comp_iter(gens, env, i + 1)
            else:
                yield None

    def e_ListComp(self, n, env):
        e = self.comp_env(env)
        return AList([self.ev(n.elt, e) for _ in self.comp_iter(n.generators, e)])

    def e_SetComp(self, n, env):
        e = self.comp_env(env)
        s = ASet()
        for _ in self.comp_iter(n.generators, e):
            self.set_add(s, self.ev(n.elt, e))
        return s

    def e_DictComp(self, n, env):
        e = self.comp_env(env)
        d = ADict()
        for _ in self.comp_iter(n.generators, e):
            k = self.ev(n.key, e)
            self.dict_set(d, k, self.ev(n.value, e))
        return d

    def e_GeneratorExp(self, n, env):
        e = self.comp_env(env)

        def gen():
            for _ in self.comp_iter(n.generators, e):
                yield self.ev(n.elt, e)
        return PyIter(gen(), "genexpr")

    def e_Yield(self, n, env):
        self.gap("yield in expression position")
        return None

    e_YieldFrom = e_Yield

    def e_Await(self, n, env):
        return self.ev(n.value, env)


class NotConst(Exception):
    pass
