"""Who may touch the outside world: a call-graph rule over the source of rsm."""

from __future__ import annotations

import ast
import os

from .checklib import REPO

STAGES = ("tsparser", "transformer", "linter", "translator", "nodes", "tags", "manuscript", "rsmlogger")
# external names that reach outside the process (prefix match on dotted names)
EFFECTS = {
    "os": ("chdir chmod chown link makedirs mkdir mkfifo open popen putenv unsetenv remove removedirs rename renames replace rmdir symlink system truncate unlink write "
           "kill killpg fork forkpty execv execve execvp execl spawnl spawnv startfile abort _exit").split(),
    "sys": ["exit", "stdout", "__stdout__"],
}
MODULES = {"shutil", "subprocess", "socket", "tempfile", "urllib", "http", "requests", "ftplib", "smtplib", "ctypes", "multiprocessing", "signal", "atexit", "webbrowser",
           "sqlite3", "shelve", "dbm", "mmap", "pty", "asyncio", "socketserver", "xmlrpc", "fs", "livereload", "concurrent"}
BUILTINS = {"open", "input", "exec", "eval", "breakpoint", "exit", "quit", "print"}
# the parser prints its trees when the log level is DEBUG: that is what its documentation promises
ALLOWED = {("tsparser", "print")}
METHODS = {"write_text", "write_bytes", "unlink", "rmdir", "symlink_to", "hardlink_to"}


class Module:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.ext = {}       # local name -> dotted external name
        self.imp = {}       # local name -> ("mod", m) | ("obj", m, n)
        self.funcs = {}     # qualname -> node
        self.classes = {}   # class name -> {method: qualname}, bases


def load():
    mods = {}
    base = os.path.join(REPO, "rsm")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f != "conftest.py":
            p = os.path.join(base, f)
            with open(p, encoding="utf-8") as fh:
                mods[f[:-3]] = Module(f[:-3], ast.parse(fh.read(), p), f"rsm/{f}")
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    top = a.name.split(".")
                    if top[0] == "rsm":
                        m.imp[a.asname or top[0]] = ("mod", top[-1] if a.asname else "__init__")
                    else:
                        m.ext[a.asname or top[0]] = a.name if a.asname else top[0]
            elif isinstance(n, ast.ImportFrom):
                src = (n.module or "").split(".")
                if n.level or src[0] == "rsm":
                    sub = src if n.level else src[1:]
                    sub = [x for x in sub if x]
                    for a in n.names:
                        if not sub:
                            m.imp[a.asname or a.name] = ("mod", a.name) if a.name in mods else ("obj", "__init__", a.name)
                        else:
                            m.imp[a.asname or a.name] = ("obj", sub[-1], a.name)
                else:
                    for a in n.names:
                        m.ext[a.asname or a.name] = f"{n.module}.{a.name}"

        def go(body, prefix, cls):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + n.name
                    m.funcs[q] = n
                    if cls is not None:
                        m.classes[cls][0].setdefault(n.name, q)
                elif isinstance(n, ast.ClassDef):
                    m.classes[n.name] = ({}, [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None for b in n.bases])
                    go(n.body, prefix + n.name + ".", n.name)
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    go(n.body, prefix, cls)
        go(m.tree.body, "", None)
    return mods


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return e.id, list(reversed(parts))
    return None, list(reversed(parts))


def local_names(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def scan(mods, m, q, body, locs):
    """Direct effects and callees of a body: ([(what, line)], {(module, qualname)})."""
    eff, out = [], set()
    cls = q.split(".")[0] if q and "." in q else None

    def method(cname, mod, name, seen=()):
        c = mods[mod].classes.get(cname)
        if c is None or (mod, cname) in seen:
            return
        if name in c[0]:
            out.add((mod, c[0][name]))
            return
        for b in c[1]:
            if b is None:
                continue
            if b in mods[mod].classes:
                method(b, mod, name, seen + ((mod, cname),))
            elif b in mods[mod].imp and mods[mod].imp[b][0] == "obj" and mods[mod].imp[b][1] in mods:
                method(mods[mod].imp[b][2], mods[mod].imp[b][1], name, seen + ((mod, cname),))

    def obj(mod, name):
        t = mods.get(mod)
        if t is None:
            return
        if name in t.funcs:
            out.add((mod, name))
        elif name in t.classes:
            method(name, mod, "__init__")
            method(name, mod, "__new__")
        elif name in t.imp and t.imp[name][0] == "obj":
            obj(t.imp[name][1], t.imp[name][2])

    parents = {}
    for st in body:
        for n in ast.walk(st):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Name, ast.Attribute)):
                if isinstance(parents.get(n), ast.Attribute):
                    continue
                base, path = dotted(n)
                if isinstance(n, ast.Attribute) and n.attr in METHODS and isinstance(parents.get(n), ast.Call):
                    eff.append((f"calls .{n.attr}()", n.lineno))
                if base is None:
                    if path and isinstance(n, ast.Attribute):
                        v = n
                        while isinstance(v, ast.Attribute):
                            v = v.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls:
                            for b in mods[m].classes.get(cls, ({}, []))[1]:
                                if b and b in mods[m].classes:
                                    method(b, m, path[0])
                    continue
                if base in ("self", "cls") and cls and path:
                    # the method may be that of any class related to this one
                    for c in mods[m].classes:
                        if c == cls or cls in mods[m].classes[c][1] or c in mods[m].classes[cls][1]:
                            method(c, m, path[0])
                    continue
                if base in locs:
                    continue
                mod = mods[m]
                if base in mod.ext:
                    full = ".".join([mod.ext[base]] + path)
                    if isinstance(parents.get(n), (ast.arg, ast.AnnAssign)) and n is not getattr(parents.get(n), "value", None):
                        continue
                    top, rest = full.split(".")[0], full.split(".")[1:]
                    if top in MODULES and not any(isinstance(p, ast.ClassDef) for p in [parents.get(n)]):
                        eff.append((f"uses {full}", n.lineno))
                    elif top in EFFECTS and rest and rest[0] in EFFECTS[top]:
                        eff.append((f"uses {full}", n.lineno))
                    elif full == "builtins.open" or full == "io.open":
                        eff.append((f"uses {full}", n.lineno))
                elif base in mod.imp:
                    k = mod.imp[base]
                    if k[0] == "mod":
                        if path:
                            obj(k[1], path[0])
                    else:
                        t = mods.get(k[1])
                        if t is not None and k[2] in t.classes and path:
                            method(k[2], k[1], path[0])
                        obj(k[1], k[2])
                elif base in mod.funcs or base in mod.classes:
                    if path and base in mod.classes:
                        method(base, m, path[0])
                    obj(m, base)
                elif base in BUILTINS and not path and isinstance(parents.get(n), ast.Call) and parents[n].func is n:
                    if (m, base) not in ALLOWED:
                        eff.append((f"calls {base}()", n.lineno))
    return eff, out


def reach():
    """[(root module, chain of functions, effect, file, line)], counts."""
    mods = load()
    direct, edges = {}, {}
    for m in mods.values():
        for q, fn in m.funcs.items():
            direct[(m.name, q)], edges[(m.name, q)] = scan(mods, m.name, q, fn.body, local_names(fn))
        top = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        top = [s for s in top if not (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__")]
        clsbody = [s for c in m.tree.body if isinstance(c, ast.ClassDef) for s in c.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        direct[(m.name, "<module>")], edges[(m.name, "<module>")] = scan(mods, m.name, "", top + clsbody, set())
    found, n = [], 0
    for m in mods.values():
        roots = [(m.name, "<module>")]
        if m.name in STAGES:
            roots += [(m.name, q) for q in m.funcs]
        for r in roots:
            n += 1
            seen, stack = {r}, [(r, (r,))]
            while stack:
                f, chain = stack.pop()
                for what, line in direct.get(f, ()):
                    found.append((chain, what, mods[f[0]].path, line))
                for g in edges.get(f, ()):
                    if g not in seen:
                        seen.add(g)
                        stack.append((g, chain + (g,)))
    return found, {"functions": sum(len(m.funcs) for m in mods.values()), "roots": n, "call_edges": sum(len(x) for x in edges.values()),
                   "functions_with_effects": sum(1 for x in direct.values() if x)}, {k: v for k, v in direct.items() if v}
