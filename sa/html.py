"""Tokeniser and tree builder for HTML templates (strings with holes)."""

from __future__ import annotations

import re

from .values import is_hole

TAG = re.compile(r"<(/?)([a-zA-Z][A-Za-z0-9-]*)((?:[^<>\"]|\"[^\"]*\")*)>|<!(?:--.*?--|[^>]*)>", re.S)
ATTR = re.compile(r"([^\s=\"]+)(?:=(?:\"([^\"]*)\"|([^\s\"]+)))?", re.S)
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}


class El:
    __slots__ = ("tag", "attrs", "children", "pos", "parent", "end")

    def __init__(self, tag, attrs, pos, parent):
        self.tag = tag
        self.attrs = attrs
        self.children = []
        self.pos = pos
        self.parent = parent
        self.end = None

    def classes(self):
        return (self.attrs.get("class") or "").split()

    def walk(self):
        yield self
        for c in self.children:
            if isinstance(c, El):
                yield from c.walk()

    def els(self):
        return [c for c in self.children if isinstance(c, El)]

    def text(self):
        return "".join(c if isinstance(c, str) else c.text() for c in self.children)


class Problem:
    def __init__(self, what, pos):
        self.what = what
        self.pos = pos


def parse(s):
    """Returns (root element, [Problem])."""
    root = El("#root", {}, 0, None)
    cur = root
    probs = []
    i = 0
    for m in TAG.finditer(s):
        if m.start() > i:
            txt(cur, s[i:m.start()], i, probs)
        i = m.end()
        if m.group(2) is None:
            continue
        close, tag, rest = m.group(1), m.group(2).lower(), m.group(3)
        if close:
            if cur.tag == tag:
                cur.end = m.end()
                cur = cur.parent
                continue
            # look for an open ancestor
            a = cur
            while a is not None and a.tag != tag:
                a = a.parent
            if a is None or a is root:
                probs.append(Problem(f"</{tag}> closes nothing" + (f" (innermost open element is <{cur.tag}>)" if cur is not root else ""), m.start()))
            else:
                probs.append(Problem(f"</{tag}> while <{cur.tag}> is still open", m.start()))
                cur = a.parent
            continue
        selfclose = rest.rstrip().endswith("/")
        if selfclose:
            rest = rest.rstrip()[:-1]
        attrs = {}
        for am in ATTR.finditer(rest):
            k = am.group(1)
            v = am.group(2) if am.group(2) is not None else (am.group(3) or "")
            if k in attrs:
                probs.append(Problem(f"<{tag}> has attribute {k} twice", m.start()))
            attrs[k] = v
        if rest.count('"') % 2:
            probs.append(Problem(f"<{tag}> has an unbalanced quote in its attributes", m.start()))
        el = El(tag, attrs, m.start(), cur)
        cur.children.append(el)
        if not selfclose and tag not in VOID:
            cur = el
    if i < len(s):
        txt(cur, s[i:], i, probs)
    while cur is not root:
        probs.append(Problem(f"<{cur.tag}> is never closed", cur.pos))
        cur = cur.parent
    return root, probs


LOOSE = re.compile(r"<(?=[a-zA-Z/])")


def txt(cur, t, pos, probs):
    m = LOOSE.search(t)
    if m:
        probs.append(Problem(f"malformed tag near {t[m.start():m.start() + 20]!r}", pos + m.start()))
    cur.children.append(t)
