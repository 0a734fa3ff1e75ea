"""C08: processing is a function of the manuscript (self-composition in two worlds)."""

from __future__ import annotations

from . import apph as A
from .apph import Run, docs, doc, fn, install, opt, spell, tryrun, where, written
from .app_checks import ASSUME
from .checklib import Obligation, Violation
from .values import AStr, AObj, ADict

# what differs from one run to the next
NONDET = {"time", "random", "secrets", "uuid", "os.environ", "os.getenv", "os.getpid", "os.urandom", "os.getlogin", "os.times", "os.stat", "os.scandir", "os.walk", "os.getcwd",
          "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "datetime.now", "platform", "locale", "getpass", "socket",
          "threading.get_ident", "tempfile", "gc", "tracemalloc", "resource", "sys.getrefcount", "numpy.random"}


def worlds(M):
    """Externals that differ from call to call are distinct unknowns; a second world takes the other order of sets and ids."""
    M.nondet = frozenset(NONDET)
    return M


def logged(M, evs):
    out = []
    for e in evs:
        if e["kind"] == "log":
            x = e["kwargs"].get("extra")
            pos = sorted((M.show(k), spell(M, v, 12)) for k, v in x.d.values()) if isinstance(x, ADict) else []
            out.append((e["level"], spell(M, e["msg"], 12) if isinstance(e["msg"], AStr) else M.show(e["msg"]), [spell(M, y, 12) for y in e["args"]], pos, e.get("site")))
    return out


def outcome(M, got):
    if got.exc is not None:
        return got.exc.exc.cls.name, {}, logged(M, got.events)
    v = got.val
    if isinstance(v, AObj) and v.cls.lookup("sexp")[0] is not None:
        v = M.call(M.getattr(v, "sexp"), [], {"meta": True})
    return (spell(M, v, 12) if isinstance(v, AStr) else M.show(v), {k: spell(M, x, 12) if isinstance(x, AStr) else M.show(x.attrs.get("path")) if isinstance(x, AObj) else M.show(x) for k, x in written(M, got.events).items()},
            logged(M, got.events))


def differ(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f"...{a[max(0, i - 60):i + 80]}...\ninstead of\n...{b[max(0, i - 60):i + 80]}..."


BETWEEN = ["nothing", "another manuscript", "a source that cannot be parsed"]


def twice(name, app):
    def run(M):
        worlds(M)
        R = Run()
        R.other = doc(M, "every construct" if name != "every construct" else "code, math and a list", first=1000) if opt(M, "in between", BETWEEN[:2]) == BETWEEN[1] else None
        d = doc(M, name)
        kw = {"source": d.source}
        if app != "lint":
            kw["handrails"] = opt(M, "handrails", [True, False])
        R.between = R.other is not None
        M.P.world = 0
        R.a = outcome(M, tryrun(M, fn(M, "rsm.app", app), [], kw))
        if R.other is not None:
            install(M, R.other.tree)
            tryrun(M, fn(M, "rsm.app", "render"), [], {"source": R.other.source, "handrails": True})
            tryrun(M, fn(M, "rsm.app", "lint"), [], {"source": R.other.source})
            install(M, None)
            tryrun(M, fn(M, "rsm.app", "render"), [], {"source": R.other.source})
            install(M, d.tree)
        M.P.world = 1
        R.b = outcome(M, tryrun(M, fn(M, "rsm.app", app), [], kw))
        return R

    def judge(M, P, out, R):
        if out != "ok":
            return []      # C21 decides whether it works
        w = where(M, "rsm.app", app)
        how = "after another manuscript" if R.between else "again"
        vs = []
        (va, fa, la), (vb, fb, lb) = R.a, R.b
        if va != vb:
            vs.append(Violation(f"rsm.{app} gives another result when it processes the same manuscript {how}", w, key=f"{app}:result", detail=differ(vb, va)))
        if set(fa) != set(fb):
            vs.append(Violation(f"rsm.{app} writes other files when it processes the same manuscript {how}: {sorted(set(fa) ^ set(fb))}", w, key=f"{app}:files"))
        for k in sorted(set(fa) & set(fb)):
            if fa[k] != fb[k]:
                vs.append(Violation(f"rsm.{app} writes other contents to {k} when it processes the same manuscript {how}", w, key=f"{app}:contents", detail=differ(fb[k], fa[k])))
                break
        if la != lb:
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            e = (la[i:i + 1] or lb[i:i + 1])[0]
            vs.append(Violation(f"rsm.{app} logs other records when it processes the same manuscript {how}: {e[1][:100]}", e[4], key=f"{app}:records"))
        return vs
    return Obligation(f"rsm.{app} on {name}, twice", run, judge, 500, 3 if name == "every construct" else 2)


def c08(ck):
    ck.explanation = ("Relational abstract interpretation (self-composition): rsm.render, rsm.lint and rsm.make are interpreted twice on the same abstract manuscript, in two worlds that differ in "
                      "everything Python leaves open (order of sets, ids, hashes, results of clocks, random numbers, environment and process state), with nothing or other manuscripts processed in "
                      "between. Rule: result, files and log records of both runs are the same terms over the same unknowns.")
    ck.assumptions = ASSUME
    M = A.boot(ck)
    ck.counts["external_names_that_differ_between_runs"] = len(NONDET)
    ck.explore(M, [twice(n, a) for a in ("render", "lint", "make") for n in docs()])


CHECKS = {"C08": c08}
