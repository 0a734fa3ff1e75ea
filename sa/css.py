"""CSS selectors over abstract HTML trees (sa.html.El): the subset that scripts of the repository use."""

from __future__ import annotations

import re

from .values import is_hole

STATES = {"hover", "active", "focus", "checked", "disabled", "visited"}


ANY = object()      # as scope: whatever element the script has in hand


class Bad(Exception):
    pass


def split_top(s, sep):
    out, depth, cur, q = [], 0, "", None
    for c in s:
        if q:
            cur += c
            if c == q:
                q = None
            continue
        if c in "\"'":
            q = c
        if c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def parse(sel):
    """-> list of alternatives; an alternative is a list of (combinator, compound)."""
    return [parse_complex(x.strip()) for x in split_top(sel, ",") if x.strip()]


def parse_complex(s):
    out, i, comb = [], 0, " "
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s[i] in ">+~":
            comb = s[i]
            i += 1
            continue
        c, i = parse_compound(s, i)
        out.append((comb, c))
        comb = " "
    if not out:
        raise Bad(s)
    return out


NAME = re.compile(r"[\w-]+|\\.")


def parse_compound(s, i):
    c = []
    n0 = i
    while i < len(s) and not s[i].isspace() and s[i] not in ">+~,":
        ch = s[i]
        if ch == "&":
            c.append(("scope",))
            i += 1
        elif ch == "*":
            i += 1
            c.append(("any",))
        elif ch in ".#":
            m = NAME.match(s, i + 1)
            if not m:
                raise Bad(s)
            c.append(("class" if ch == "." else "id", m.group(0)))
            i = m.end()
        elif ch == "[":
            j = s.index("]", i)
            m = re.match(r"\s*([\w-]+)\s*(?:([~|^$*]?=)\s*[\"']?([^\"']*)[\"']?)?\s*$", s[i + 1:j])
            if not m:
                raise Bad(s)
            c.append(("attr", m.group(1), m.group(2), m.group(3)))
            i = j + 1
        elif ch == ":":
            m = re.compile(r":([\w-]+)").match(s, i)
            if not m:
                raise Bad(s)
            i = m.end()
            arg = None
            if i < len(s) and s[i] == "(":
                d, j = 1, i + 1
                while d:
                    d += {"(": 1, ")": -1}.get(s[j], 0)
                    j += 1
                arg = s[i + 1:j - 1]
                i = j
            n = m.group(1)
            if n in ("not", "has", "is", "where"):
                c.append((n, parse(arg)))
            elif n in STATES:
                c.append(("state", n))
            elif n in ("first-child", "last-child", "first-of-type", "last-of-type"):
                c.append((n,))
            else:
                raise Bad(s)
        else:
            m = NAME.match(s, i)
            if not m:
                raise Bad(s)
            c.append(("tag", m.group(0).lower()))
            i = m.end()
    if i == n0:
        raise Bad(s)
    return c, i


def simple(el, p, scope):
    k = p[0]
    if k == "scope":
        return scope is ANY or el is scope
    if k == "any":
        return True
    if k == "tag":
        return el.tag == p[1]
    if k == "class":
        return p[1] in el.classes()
    if k == "id":
        return el.attrs.get("id") == p[1]
    if k == "attr":
        if p[1] not in el.attrs:
            return False
        v = el.attrs[p[1]]
        if p[2] is None:
            return True
        w = p[3]
        return {"=": v == w, "~=": w in v.split(), "^=": v.startswith(w), "$=": v.endswith(w), "*=": w in v, "|=": v == w or v.startswith(w + "-")}[p[2]]
    if k == "not":
        return not any(match(el, a, scope) for a in p[1])
    if k in ("is", "where"):
        return any(match(el, a, scope) for a in p[1])
    if k == "has":
        return any(match(d, a, el) for d in el.walk() if d is not el for a in p[1])
    if k == "state":
        return False
    sib = el.parent.els() if el.parent is not None else [el]
    if k.endswith("of-type"):
        sib = [x for x in sib if x.tag == el.tag]
    return sib[0 if k.startswith("first") else -1] is el


def match(el, alt, scope=None, i=None):
    i = len(alt) - 1 if i is None else i
    comb, comp = alt[i]
    if not all(simple(el, p, scope) for p in comp):
        return False
    if i == 0:
        return True
    if comb == ">":
        return el.parent is not None and match(el.parent, alt, scope, i - 1)
    if comb == " ":
        a = el.parent
        while a is not None:
            if match(a, alt, scope, i - 1):
                return True
            a = a.parent
        return False
    sib = el.parent.els()
    j = sib.index(el)
    if comb == "+":
        return j > 0 and match(sib[j - 1], alt, scope, i - 1)
    return any(match(x, alt, scope, i - 1) for x in sib[:j])


def matches(el, sel, scope=None):
    return any(match(el, a, scope) for a in (parse(sel) if isinstance(sel, str) else sel))


def select(root, sel, scope=None):
    p = parse(sel) if isinstance(sel, str) else sel
    return [e for e in root.walk() if e is not root and any(match(e, a, scope if scope is not None else root) for a in p)]
