"""Common machinery of the checks: obligations, parallel exploration, verdicts, evidence."""

from __future__ import annotations

import gc
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from .engine import Machine
from .values import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RSM_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation:
    """One broken obligation; `key` identifies the construct, not the path."""

    def __init__(self, what, where=None, key=None, detail=""):
        self.what = what
        self.where = where  # (file, line, function)
        self.key = key or what
        self.detail = detail

    def asdict(self, **kw):
        d = {"what": self.what, "key": self.key, "detail": self.detail}
        if self.where:
            f, l, fn = self.where
            d["where"] = f"{os.path.relpath(f, REPO) if f.startswith('/') else f}:{l} in {fn}"
            d["function"] = fn
        d.update(kw)
        return d


class Obligation:
    """A set of abstract executions and the rule they must satisfy."""

    def __init__(self, name, run, judge, max_paths=20000, weight=1, setup=None, teardown=None):
        self.name = name
        self.run = run          # run(M) -> value, inside an exploration
        self.judge = judge      # judge(M, P, outcome, value) -> [Violation] or None
        self.max_paths = max_paths
        self.weight = weight
        self.setup = setup
        self.teardown = teardown


def discharge(M, ob, deadline=None):
    """Explore one obligation completely; returns a plain-data result."""
    res = {"name": ob.name, "paths": 0, "decided": 0, "gapped": 0, "infeasible": 0, "viol": [],
           "truncated": False, "gaps": {}, "sample": None, "error": None, "late": False}
    M.truncated = False
    M.P.fuel = 10**9
    M.funcs_seen = set()
    if ob.setup:
        ob.setup(M)
    try:
        keys = set()
        for P, out, val in M.explore(lambda: ob.run(M), ob.max_paths):
            res["paths"] += 1
            if out == "infeasible":
                res["infeasible"] += 1
                continue
            vs = ob.judge(M, P, out, val) or []
            if P.gaps:
                res["gapped"] += 1
                for g, loc in P.gaps[:3]:
                    k = f"{g} @ {loc[2]}:{loc[1]}"
                    res["gaps"][k] = res["gaps"].get(k, 0) + 1
                continue
            res["decided"] += 1
            conds = P.conditions()
            if res["sample"] is None or len(conds) > len(res["sample"]["conditions"]):
                res["sample"] = {"conditions": conds[:12], "outcome": out}
            for v in vs:
                if v.key in keys:
                    continue
                keys.add(v.key)
                if len(res["viol"]) < 12:
                    res["viol"].append(v.asdict(obligation=ob.name, path_conditions=conds))
            if deadline and time.time() > deadline:
                res["late"] = True
                break
        res["truncated"] = M.truncated
    except AnalysisError as e:
        res["error"] = f"{e}"
    finally:
        M.undo()
        if ob.teardown:
            ob.teardown(M)
    res["funcs"] = sorted(M.funcs_seen)
    return res


_G = {}


def _work(i):
    M, obs, deadline = _G["M"], _G["obs"], _G["deadline"]
    if deadline and time.time() > deadline:
        return i, {"name": obs[i].name, "skipped": True}
    try:
        return i, discharge(M, obs[i], deadline)
    except Exception as e:  # a defect of the analyser itself: no verdict for this obligation
        return i, {"name": obs[i].name, "crash": "".join(traceback.format_exception(e))[-1500:]}


class Check:
    def __init__(self, pid, tier, title=""):
        self.pid = pid
        self.tier = tier
        self.title = title
        self.t0 = time.time()
        self.results = []
        self.static = []        # violations of the syntactic rules (dicts)
        self.counts = {}
        self.samples = []
        self.explanation = ""
        self.assumptions = []
        self.errors = []
        self.analysed = set()
        self.known_seen = []

    # ------------------------------------------------------------ abstract interpretation
    def boot(self):
        M = Machine(REPO)
        M.fresh_types = self.tier != "thorough"
        M.boot(["rsm"])
        if M.P.gaps:
            self.counts["boot_gaps"] = [f"{g} @ {l[0]}:{l[1]}" for g, l in M.P.gaps][:20]
        return M

    def explore(self, M, obs, budget=None, jobs=None):
        """Discharge the obligations on all cores."""
        if budget is None:
            budget = 420 if self.tier == "quick" else 3000
        sys.setrecursionlimit(60000)
        _G["M"], _G["obs"], _G["deadline"] = M, obs, time.time() + budget
        order = sorted(range(len(obs)), key=lambda i: -obs[i].weight)
        jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(obs)))
        out = {}
        gc.collect()
        gc.freeze()
        if jobs == 1 or len(obs) < 3:
            for i in order:
                out[i] = _work(i)[1]
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(jobs, maxtasksperchild=None) as pool:
                for i, r in pool.imap_unordered(_work, order, chunksize=1):
                    out[i] = r
        rs = [out[i] for i in range(len(obs))]
        self.results += rs
        for r in rs:
            self.analysed.update(r.get("funcs", ()))
        return rs

    # ------------------------------------------------------------ syntactic rules
    def fail(self, what, where=None, key=None, detail=""):
        self.static.append(Violation(what, where, key, detail).asdict(obligation="static"))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ------------------------------------------------------------ verdict
    def finish(self):
        rs = self.results
        viol = list(self.static)
        for r in rs:
            viol += r.get("viol", [])
        known = load_known()
        fresh, listed, seen = [], [], set()
        for v in viol:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            (listed if (self.pid, v["key"]) in known else fresh).append(v)
        paths = sum(r.get("paths", 0) for r in rs)
        decided = sum(r.get("decided", 0) for r in rs)
        gapped = sum(r.get("gapped", 0) for r in rs)
        infeasible = sum(r.get("infeasible", 0) for r in rs)
        gaps = {}
        for r in rs:
            for k, n in r.get("gaps", {}).items():
                gaps[k] = gaps.get(k, 0) + n
        crashes = [(r["name"], r["crash"]) for r in rs if "crash" in r]
        errs = [(r["name"], r["error"]) for r in rs if r.get("error")]
        skipped = [r["name"] for r in rs if r.get("skipped") or r.get("late")]
        trunc = [r["name"] for r in rs if r.get("truncated")]
        samples = [dict(obligation=r["name"], **r["sample"]) for r in rs if r.get("sample")]
        samples.sort(key=lambda s: -len(s["conditions"]))
        cov = {
            "explanation": self.explanation,
            "rule": self.explanation,
            "static_obligations": sum(v for k, v in self.counts.items() if isinstance(v, int)),
            "counts": self.counts,
            "violations_listed_as_known": [v["key"] for v in listed],
        }
        if rs:
            cov.update({
                "obligations_explored": len(rs) - len(skipped),
                "obligations_total": len(rs),
                "abstract_paths": paths,
                "abstract_paths_decided": decided,
                "abstract_paths_undecided_unsupported_construct": gapped,
                "abstract_paths_infeasible": infeasible,
                "undecided_because": dict(sorted(gaps.items(), key=lambda x: -x[1])[:15]),
                "obligations_out_of_budget": skipped[:20],
                "obligations_truncated": trunc[:20],
                "analyser_errors": [f"{n}: {e}" for n, e in errs][:10] + [f"{n}: {c[-300:]}" for n, c in crashes][:5],
                "functions_analysed": sorted(self.analysed),
            })
        cov["samples"] = (self.samples + samples)[:6]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, f"{self.pid}.violation.json")
        if os.path.exists(replay):
            os.remove(replay)
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for v in listed:
            print(f"KNOWN-FINDING: property={self.pid} {known[(self.pid, v['key'])]}")
        if fresh:
            with open(replay, "w") as f:
                json.dump(fresh, f, indent=1, ensure_ascii=True)
            for v in fresh[:10]:
                print(f"  {v['what']}" + (f"  [{v['where']}]" if v.get("where") else ""))
                print(f"    obligation: {v['obligation']}")
                for c in v.get("path_conditions", [])[:10]:
                    print(f"      when {c}")
                if v.get("detail"):
                    print("    " + v["detail"].replace("\n", "\n    ")[:1500])
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        print(f"{self.pid}: held; {len(rs)} obligations, {paths} abstract paths ({decided} decided, {gapped} undecided), "
              f"static: {cov['static_obligations']}; {ev['wall_s']} s")
        for k, n in list(cov.get("undecided_because", {}).items())[:5]:
            print(f"  undecided: {n} x {k}")
        if trunc or skipped:
            print(f"  truncated: {trunc[:5]} out of budget: {len(skipped)} {skipped[:5]}")
        bad = [f"{n}: {e}" for n, e in errs] + [f"{n}: {c}" for n, c in crashes] + self.errors
        for b in bad[:5]:
            print("  error:", b)
        nothing = bool(rs) and decided == 0
        if self.errors or nothing or (rs and (len(errs) + len(crashes)) > len(rs) // 2):
            print(f"{self.pid}: no verdict")
            return 2
        return 0


def load_known():
    """Known findings: lines `finding: property=<id> key=<key> :: <what fails>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("finding: property="):
                head, _, what = line.partition(" :: ")
                pid, _, key = head[len("finding: property="):].partition(" key=")
                out[(pid, key)] = what
    return out
