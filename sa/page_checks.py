"""C30: the page has the structure that its scripts act on."""

from __future__ import annotations

import os
import re

from . import apph as A
from . import css, html, trharness
from .app_checks import ASSUME, strip_js
from .apph import Run, doc, docs, fn, tryrun
from .checklib import Obligation, REPO, Violation, discharge
from .trrules import raised  # noqa: F401

SCRIPTS = ("handrails", "icons", "keyboard", "minimap", "tooltips", "onload")
CALL = re.compile(r"(querySelectorAll|querySelector|closest|matches|find|children|\$|getElementById)\(\s*(?:(\")((?:[^\"\\\n]|\\.)*)\"|(')((?:[^'\\\n]|\\.)*)'|(`)((?:[^`\\]|\\.)*)`)\s*\)")
CONST = re.compile(r"\b(?:const|let|var)\s+([\w$]+)\s*=\s*(?:\"([^\"\n]*)\"|'([^'\n]*)'|`([^`]*)`)\s*[;\n]")
ASSIGN = re.compile(r"(?<![\w$.])([\w$]+)\s*=\s*(?:\"([^\"\n]*)\"|'([^'\n]*)'|`([^`]*)`)")
VARCALL = re.compile(r"(querySelectorAll|querySelector|closest|matches|find)\(\s*([\w$]+)\s*\)")
ADDED = re.compile(r"classList\.(?:add|toggle)\(([^)]*)\)|className\s*=\s*[\"'`]([^\"'`]*)[\"'`]|addClass\(([^)]*)\)")
LITERAL = re.compile(r"\"((?:[^\"\\\n]|\\.)*)\"|'((?:[^'\\\n]|\\.)*)'|`((?:[^`\\]|\\.)*)`")


class Script:
    """What a script says about the page: selectors, ids, classes it adds, and its string literals."""

    def __init__(self, name):
        self.name = name
        self.path = f"rsm/static/{name}.js"
        with open(os.path.join(REPO, self.path), encoding="utf-8") as f:
            self.src = f.read()
        s = self.js = strip_js(self.src)
        consts = {}
        for m in ASSIGN.finditer(s):
            consts.setdefault(m.group(1), []).append(next((g for g in m.groups()[1:] if g is not None), ""))
        self.literals = {next(g for g in m.groups() if g is not None) for m in LITERAL.finditer(s)}
        self.added = set()
        for m in ADDED.finditer(s):
            for g in m.groups():
                if g:
                    self.added |= set(re.findall(r"[\w-]+", re.sub(r"\$\{[^}]*\}", " ", g)))
        self.queries = {}       # selector -> kind
        self.ids = set()        # patterns
        self.unknown = 0
        for m in CALL.finditer(s):
            k = m.group(1)
            t = m.group(3) if m.group(2) else m.group(5) if m.group(4) else m.group(7)
            self.note(k, t, consts, bool(m.group(6)))
        for m in VARCALL.finditer(s):
            for t in consts.get(m.group(2), ()):
                self.note(m.group(1), t, consts, True)
            if m.group(2) not in consts:
                self.unknown += 1

    def note(self, kind, t, consts, template):
        if template:
            t = re.sub(r"\$\{\s*([\w$]+)\s*\}", lambda m: consts[m.group(1)][0] if len(consts.get(m.group(1), ())) == 1 else m.group(0), t)
        t = t.strip()
        if kind == "getElementById":
            self.ids.add(t)
            return
        if "${" in t:
            m = re.fullmatch(r"#([\w-]*\$\{[^}]*\}[\w-]*)", t)
            if m:
                self.ids.add(m.group(1))
            else:
                self.unknown += 1
            return
        if t.startswith("<"):
            return
        try:
            self.queries[t] = css.parse(t)
        except (css.Bad, ValueError, IndexError):
            self.unknown += 1


def idpattern(t):
    return re.compile("".join(".+" if p.startswith("${") else re.escape(p) for p in re.split(r"(\$\{[^}]*\})", t)) + r"\Z", re.S)


def loosen(alt, added):
    """A selector with the classes that scripts add themselves, the states and the scope left out."""
    out = []
    for comb, comp in alt:
        keep = []
        for p in comp:
            if p[0] == "class" and p[1] in added or p[0] in ("state", "scope"):
                continue
            if p[0] == "not" and all(any(q[0] == "class" and q[1] in added for _, c in a for q in c) for a in p[1]):
                continue
            keep.append(p)
        out.append((comb, keep or [("any",)]))
    return out


def about_page(alt):
    """Whether a selector says more than names of elements."""
    return any(p[0] in ("class", "id", "has") or p[0] == "attr" for _, c in alt for p in c)


def icons():
    s = Script("icons")
    m = re.search(r"\bicons\s*=\s*\{", s.js)
    if not m:
        return None
    body = LITERAL.sub(lambda k: '"' + next(g for g in k.groups() if g is not None) + '"' if len(k.group(0)) < 40 else '""', s.js[m.end():])
    body = body[:body.find("}")] if "}" in body else body
    return set(re.findall(r"[\"']?([\w-]+)[\"']?\s*:", body))


def within(el, kind):
    while el is not None:
        if kind in el.classes():
            return el
        el = el.parent
    return None


def kids_in(hr, zone):
    return [c for z in hr.els() if zone in z.classes() for c in z.els()]


class Hooks:
    def __init__(self):
        self.scripts = {n: Script(n) for n in SCRIPTS}
        self.hr = self.scripts["handrails"]
        self.items = [q for t, q in self.hr.queries.items() if "hr-menu-item" in t]
        self.inside = [q for t, q in self.hr.queries.items() if ":has" in t]
        self.icons = icons()
        self.tips = {x for lit in self.scripts["tooltips"].literals for x in [lit]}
        self.tips_open = bool(re.search(r"\bdefault\s*:", self.scripts["tooltips"].js))      # a fallback: every kind is shown
        self.added = set().union(*(s.added for s in self.scripts.values()))
        self.menu_sure = self.hr.unknown == 0 and self.items


PARTS = {"thead", "tbody", "tr", "td", "th", "figcaption", "caption"}      # parts of an element that is shown as a whole


def page_rules(hk, root, where=None):
    """Violations of the rules on one page, and how many elements they were applied to."""
    vs, n = [], {"menu entries": 0, "icons": 0, "references": 0, "handrails": 0}
    byid = {}
    els = list(root.walk())
    for e in els:
        if e.attrs.get("id"):
            byid.setdefault(e.attrs["id"], e)
    for e in els:
        cl = e.classes()
        if "icon" in cl and hk.icons:
            n["icons"] += 1
            if not any(c in hk.icons for c in cl):
                vs.append(Violation(f"the icon {' '.join(cl)} has no drawing in icons.js", where, key=f"icon:{' '.join(cl)}"))
        if "hr-menu-item" in cl:
            rest = [c for c in cl if c != "hr-menu-item"]
            n["menu entries"] += 1
            if "disabled" in rest or not rest:
                continue
            hr = within(e, "hr")
            what = f"the menu entry {' '.join(rest)} of a {' '.join(hr.classes()) if hr else '?'}"
            if len(rest) > 1:
                vs.append(Violation(f"{what} has several actions, so that the keyboard cannot run it", where, key=f"entry:classes:{' '.join(rest)}"))
            if hk.menu_sure and not any(css.matches(e, q) for q in hk.items):
                vs.append(Violation(f"{what} is enabled but no script attaches an action to it", where, key=f"entry:dead:{rest[0]}:{hr.tag if hr else ''}"))
            if hr is None:
                continue
            if "collapse-subproof" in rest:
                stay = "hr-label" if "hr-labeled" in hr.classes() else "statement"
                if not any(stay not in k.classes() for k in kids_in(hr, "hr-content-zone")):
                    vs.append(Violation(f"{what} is enabled but there is nothing to collapse", where, key="entry:nothing to collapse"))
            if "collapse-steps" in rest and hk.hr.unknown == 0 and hk.inside and "step" in hr.classes():
                sub = [k for k in kids_in(hr, "hr-content-zone") if "subproof" in k.classes()]
                steps = [x for s in sub for x in kids_in(s, "hr-content-zone") if "step" in x.classes()]
                if not steps:
                    vs.append(Violation(f"{what} is enabled but there are no steps for it", where, key="entry:no steps"))
        if "hr" in cl:
            n["handrails"] += 1
            if "hr-labeled" in cl and not any("hr-label" in k.classes() for k in kids_in(e, "hr-content-zone")):
                vs.append(Violation(f"the handrail {' '.join(cl)} is labelled but its content holds no label", where, key="labelled without label"))
        if e.tag == "a" and "reference" in cl and e.attrs.get("href", "").startswith("#") and len(e.attrs["href"]) > 1:
            t = byid.get(e.attrs["href"][1:])
            if t is None:
                continue
            n["references"] += 1
            if t.tag in PARTS:
                continue
            names = {t.tag.upper(), t.tag}
            if not hk.tips_open and (not names & hk.tips or t.tag == "div" and not any(c in hk.tips for c in t.classes())):
                vs.append(Violation(f"a reference to <{t.tag} class=\"{' '.join(t.classes())}\"> has an empty tooltip: tooltips.js does not know this kind of element",
                                    where, key=f"tooltip:{t.tag}:{' '.join(c for c in t.classes() if c not in ('hr', 'hr-hidden', 'hr-labeled')) if t.tag == 'div' else ''}"))
            if not within(e, "manuscriptwrapper"):
                vs.append(Violation("a reference stands outside .manuscriptwrapper, where it gets no tooltip", where, key="reference outside"))
    return vs, n


# ------------------------------------------------------------------ the rules on the output of the translators
def shape_rule(hk):
    def rule(M, P, outcome, R):
        if outcome != "ok" or R is None or R.out is None or R.tname == "Translator":
            return []
        dom, probs = html.parse(R.out.s)
        if probs:
            return []       # C01
        vs, n = page_rules(hk, dom)
        for v in vs:
            v.what += f", for {R.label}"
        return vs
    return rule


# ------------------------------------------------------------------ whole pages
def page(name, hk, seen):
    def run(M):
        d = doc(M, name)
        R = Run()
        R.app = A.opt(M, "application", ["render", "make"])
        kw = {"source": d.source, "handrails": True}
        if R.app == "render":
            kw["add_source"] = True
        R.got = tryrun(M, fn(M, "rsm.app", R.app), [], kw)
        return R

    def judge(M, P, out, R):
        if out != "ok" or R.got.exc is not None:
            return []
        if R.app == "render":
            body = R.got.val
        else:
            files = A.written(M, R.got.events)
            body = next((v for k, v in files.items() if k.endswith("index.html")), None)
        if not isinstance(body, A.AStr):
            return []
        root, _ = html.parse(M.norm(body).s)
        seen.append((f"{R.app}({name})", root))
        vs, n = page_rules(hk, root)
        for k, v in n.items():
            hk.n[k] = hk.n.get(k, 0) + v
        els = list(root.walk())
        if not any("manuscriptwrapper" in e.classes() for e in els):
            vs.append(Violation("the page has no .manuscriptwrapper, to which messages are attached", key="no manuscriptwrapper"))
        return vs
    return Obligation(f"page of {name}", run, judge, 100, 1)


def unions(ck, hk, seen):
    """Everything a script looks for is on some page."""
    els = [e for _, r in seen for e in r.walk() if e.tag != "#root"]
    ids = {e.attrs["id"] for e in els if e.attrs.get("id")}
    n = 0
    for s in hk.scripts.values():
        for t, q in sorted(s.queries.items()):
            for alt in q:
                if not about_page(alt):
                    continue
                loose = loosen(alt, hk.added)
                if not about_page(loose):
                    continue
                n += 1
                if not any(css.match(e, loose) for e in els):
                    line = s.src[:max(s.src.find(t), 0)].count("\n") + 1
                    ck.fail(f"{s.name}.js looks for {' '.join(t.split())}, which is on no page", (s.path, line, ""), f"selector:{s.name}:{' '.join(t.split())}")
        for t in sorted(s.ids):
            n += 1
            pat = idpattern(t)
            if not any(pat.match(i) for i in ids):
                line = s.src[:max(s.src.find(t), 0)].count("\n") + 1
                ck.fail(f"{s.name}.js looks for an element with id {t}, which is on no page", (s.path, line, ""), f"id:{s.name}:{t}")
    return n


def c30(ck):
    ck.explanation = ("Abstract interpretation of the translator with handrails and of rsm.render and rsm.make, cross-checked with the selectors, ids and class names in the scripts handrails.js, keyboard.js, "
                      "minimap.js, tooltips.js and icons.js. Rules: every enabled menu entry is selected by handrails.js and has one action; a collapse entry has something to collapse; labelled handrails hold "
                      "their label; every icon has a drawing; every target of a reference is of a kind that tooltips.js shows; every selector and id of a script is on some page, up to the classes that scripts add.")
    ck.assumptions = ["selectors and ids that are string constants, or templates over constants; a script that computes others is left out of the rules that need all of them"] + ASSUME
    hk = Hooks()
    hk.n = {}
    M = A.boot(ck)
    seen = []
    for nm in docs():
        r = discharge(M, page(nm, hk, seen))
        ck.results.append(r)
        ck.analysed.update(r.get("funcs", ()))
    for k, v in hk.n.items():
        ck.counts[k] = v
    if any(r.get("gapped") for r in ck.results) or not seen:
        ck.counts["selectors_not_judged"] = 1
    else:
        ck.counts["selectors_and_ids"] = unions(ck, hk, seen)
    if not hk.n.get("menu entries") or not hk.n.get("references") or not hk.n.get("icons"):
        ck.errors.append("no menu entries, references or icons were found on the pages")
    M2 = ck.boot()
    ck.explore(M2, trharness.obligations(M2, ck.tier, shape_rule(hk), translators=[t for t in trharness.translator_classes(M2) if t.name != "Translator"]))


CHECKS = {"C30": c30}
