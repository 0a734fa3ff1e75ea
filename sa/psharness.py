"""Parser obligations: concrete syntax trees with unknown texts, and the manuscript each of them must become.

Every constructor of the little language below yields both the concrete tree (what the grammar produces) and the node
that the user is promised.  The parser is interpreted on the former and its result compared with the latter.
"""

from __future__ import annotations

import os
import re

from .checklib import Obligation, Violation
from .nodeshapes import cls, kids
from .trrules import raised
from .values import *  # noqa: F401,F403
from .values import AStr, AList, AObj, ADict, Sym, ABuiltin, AClass, ATuple, is_hole, PyRaise
from .engine import MISSING

ERRMSG = re.compile(r"\[CST error[^\]]*\]")
DELIMS = ":%$`*{#"
STUB = "_stub_ts"
NL = "NL"


def prepare(M):
    """Interpret the stub of tree_sitter, then the package on top of it."""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "tree_sitter_model.py")
    with open(p, encoding="utf-8") as f:
        mod = M.load_source(STUB, p, f.read())
    for n in ("Node", "Tree", "Language", "Parser"):
        M.ext_models[f"tree_sitter.{n}"] = mod.env.vars[n]
    M.ext_models["tree_sitter_rsm.language"] = ABuiltin("language", lambda MM, a, k: None)
    return mod


# ------------------------------------------------------------------ expectations
class E:
    """The node that a construct must become."""

    def __init__(self, cname, fields=None, flow=(), span=None, asis=False, meta=(), optional_flow=False):
        self.cname = cname
        self.fields = dict(fields or {})
        self.flow = list(flow)      # E | ("T", template) | ("WS",)
        self.span = span
        self.asis = asis
        self.meta = set(meta)       # which of the fields come from metadata


class B:
    """Builds one concrete syntax tree inside one analysis path."""

    def __init__(self, M):
        self.M = M
        self.C = {n: M.modules[STUB].env.vars[n] for n in ("Node", "Tree", "Bytes", "Point")}
        self.nid = 100
        self.count = {}
        self.noise = []        # (node, kind)
        self.gaps = []

    first = 0        # names of words count from here

    # -------------------------------------------------------- texts
    def word(self, base="word"):
        """An unknown non-empty text without white space, delimiters, quotes, commas."""
        M = self.M
        n = self.count[base] = self.count.get(base, self.first) + 1
        s = M.strsym(f"{base}{n}", truth=True)
        y = M.P.holes[s.s]
        if base == "raw" and M.opaque_raw:
            y.meta.update(noedge=True)       # verbatim text may contain anything
        else:
            y.meta.update(word=True, noedge=True, noreplace=True, plain=True)
        y.memo[("distinct",)] = True
        return s

    def tpl(self, pat, base="word"):
        """'w' is an unknown word; every other character stands for itself."""
        out = AStr("", [])
        for c in pat:
            out = out + (self.word(base) if c == "w" else self.M.lift(c))
        return out

    # -------------------------------------------------------- nodes
    def raw(self, type, named=True, text=None):
        M = self.M
        o = M.new_obj(self.C["Node"])
        self.nid += 1
        t = M.new_obj(self.C["Bytes"])
        t.attrs["_s"] = text if text is not None else M.lift("")
        o.attrs.update({
            "type": M.lift(type), "grammar_name": M.lift(type), "is_named": named, "id": self.nid, "is_missing": False,
            "is_extra": type == "comment", "is_error": type == "ERROR", "has_error": type == "ERROR", "text": t,
            "children": AList([]), "fields": AList([]), "parent": None, "start_byte": 0, "end_byte": 0,
        })
        o.tag = type
        return o

    def node(self, type, children=(), text=None, named=True, flow=False):
        """children: node | (field, node) | NL | a string (an anonymous token)."""
        o = self.raw(type, named, text)
        o.native = {"seq": []}
        seq = o.native["seq"]
        for c in children:
            if c is None:
                continue
            f = None
            if isinstance(c, tuple):
                f, c = c
            if c == NL:
                seq.append(NL)
                continue
            if isinstance(c, str):
                c = self.raw(c, False, self.M.lift(c))
                c.native = {"seq": []}
            seq.append((f, c))
        return o

    def leaf(self, type, text=None, named=True):
        return self.node(type, (), text if text is not None else self.M.lift(""), named)

    def tok(self, type):
        """A named token such as a tag."""
        return self.leaf(type, self.M.lift(f":{type}:"))

    # -------------------------------------------------------- finishing
    def positions(self, root):
        """All the gaps between children where a comment or an error may be."""
        out = []
        stack = [root]
        while stack:
            n = stack.pop()
            seq = n.native["seq"]
            if seq:
                real = [i for i, x in enumerate(seq) if x != NL]
                if n.tag != "source_file":
                    out += [(n, i) for i in real[1:]]
                    if n.tag in ("paragraph", "section") and len(real) > 0:
                        out.append((n, 0))
                else:
                    out += [(n, i) for i in real[1:]]
            for x in reversed(seq):
                if x != NL:
                    stack.append(x[1])
        return out

    def add_noise(self, kind, where, i):
        seq = where.native["seq"]
        if kind == "comment":
            seq[i:i] = [(None, self.leaf("comment", self.tpl("% w")))] + ([NL] if where.tag != "bibitem" else [])
        else:
            seq[i:i] = [(None, self.leaf("ERROR", self.tpl("w", "garbage")))]
        return seq[i][1]

    def finish(self, root, src):
        """Lay the tree out and connect it."""
        M = self.M
        pos = [0, 0]

        def go(n, parent):
            A = n.attrs
            A["parent"] = parent
            seq = n.native["seq"]
            if n.native.get("blank"):
                pos[1] += 1
            first = None
            # leading line breaks belong to no node
            for x in seq:
                if x == NL:
                    pos[0] += 1
                    pos[1] = 0
                    continue
                f, c = x
                go(c, n)
                if first is None:
                    first = c.attrs["start_point"]
                A["children"].items.append(c)
                A["fields"].items.append(M.lift(f) if f else None)
                A["end_point"] = c.attrs["end_point"]
                if c.attrs["is_error"] or c.attrs["has_error"]:
                    A["has_error"] = True
            if first is None:
                A["start_point"] = self.point(pos)
                pos[1] += 0 if n.native.get("empty") else 7
                A["end_point"] = self.point(pos)
            else:
                A["start_point"] = first
            n.native = None
        go(root, None)
        t = root.attrs["text"]
        t.attrs["_s"] = src
        tree = M.new_obj(self.C["Tree"])
        tree.attrs["root_node"] = root
        return tree

    def point(self, pos):
        return self.M.call(self.C["Point"], [pos[0], pos[1]])


# ------------------------------------------------------------------ the little language: (concrete nodes, expected flow)
CONSTRUCTS = "assume case claim define let new pick prove st suffices suppose then wlog write".split()
BLOCKS = {
    "abstract": "Abstract", "author": "Author", "corollary": "Corollary", "definition": "Definition", "enumerate": "Enumerate", "example": "Example",
    "theorem": "Theorem", "figure": "Figure", "itemize": "Itemize", "lemma": "Lemma", "subproof": "Subproof", "proof": "Proof", "proposition": "Proposition",
    "remark": "Remark", "sketch": "Sketch", "step": "Step",
}
INLINES = {"span": "Span", "draft": "Draft", "note": "Note"}
METATEXT = "title label icon lang name email affiliation goal reftext".split()
METABOOL = "emphas isclaim nonum strong".split()
METALIST = "keywords msc types".split()
METAANY = "date path scale".split()
METAKIND = {**{k: "text" for k in METATEXT}, **{k: "bool" for k in METABOOL}, **{k: "list" for k in METALIST}, **{k: "any" for k in METAANY}}
FIELD = {"reftext": "reftext_template"}
COMMONMETA = ["label", "types", "nonum", "reftext"]
SPECIFIC = {
    "Span": ["strong", "emphas"], "Author": ["name", "affiliation", "email"], "Abstract": ["keywords", "msc"], "Section": ["title"], "Subsection": ["title"],
    "Subsubsection": ["title"], "Manuscript": ["title", "date"], "MathBlock": ["isclaim"], "Code": ["lang"], "CodeBlock": ["lang"], "Figure": ["path", "scale"],
    "Note": ["title"], "Paragraph": ["title"], "Item": ["title"], "Caption": ["title"], "Step": ["title"],
}
for _t in ("Theorem", "Lemma", "Corollary", "Definition", "Example", "Proposition", "Remark"):
    SPECIFIC[_t] = ["title"]


def escape(M, t):
    out, i = AStr("", []), 0
    while i < len(t.s):
        if t.s[i] == "\\" and i + 1 < len(t.s) and t.s[i + 1] in DELIMS:
            i += 1
        out = out + t.slice(i, i + 1)
        i += 1
    return out


def pair(b, key, fields):
    """One metadata pair; the field it must reach is added to `fields`."""
    M = b.M
    kind = METAKIND[key]
    k = b.node(f"metakey_{kind}", [b.tok(key)])
    f = FIELD.get(key, key)
    if kind == "bool":
        fields[f] = True
        return b.node("pair", [k])
    if kind == "list":
        n = M.choose(3, lambda i: f":{key}: has " + ["one value", "two values in braces", "three values in braces"][i]) + 1
        items = [b.tpl(" w" if i else ("w" if n > 1 else " w"), f"{key}-value") for i in range(n)]
        fields[f] = [M.bm.strip_template(M, x, None, True, True, "strip") for x in items]
        nodes = []
        for i, x in enumerate(items):
            if i:
                nodes.append(",")
            nodes.append(b.leaf("metaval_list_item", x))
        if n > 1:
            nodes = ["{"] + nodes + ["}"]
        return b.node("pair", [k, b.node("metaval_list", nodes)])
    v = b.tpl(" w w" if key == "title" else " w", f"{key}-value")
    fields[f] = M.bm.strip_template(M, v, None, True, True, "strip")
    return b.node("pair", [k, b.node(f"metaval_{kind}", ["text"], text=v)])


def blockmeta(b, keys, fields):
    if not keys:
        return None
    ch = []
    for k in keys:
        ch += [NL, pair(b, k, fields)]
    return ("meta", b.node("blockmeta", ch))


def inlinemeta(b, keys, fields):
    if not keys:
        return None
    ch = ["{"]
    for i, k in enumerate(keys):
        if i:
            ch.append(",")
        ch.append(pair(b, k, fields))
    return ("meta", b.node("inlinemeta", ch + ["}"]))


def text(b, pat, base="word"):
    t = b.tpl(pat, base)
    n = b.leaf("text", t)
    if not t.s:
        n.native["empty"] = True
    return [n], [("T", escape(b.M, t))]


def cat(*parts):
    """Concatenate (nodes, flow) pairs; NL is a line break."""
    ns, fl = [], []
    for p in parts:
        if p == NL:
            ns.append(NL)
            fl.append(("WS",))
        elif p == "GAP":
            fl.append(("WS",))
            ns.append("GAP")
        else:
            ns += p[0]
            fl += p[1]
    return ns, fl


def para(b, *parts, meta=()):
    ns, fl = cat(*parts)
    fields = {}
    head = []
    if meta is not None and (meta or meta == ["tag"]):
        head = [("tag", b.leaf(":paragraph:", b.M.lift(":paragraph:"), named=False)), inlinemeta(b, [k for k in meta if k != "tag"], fields)]
    n = b.node("paragraph", [NL] + head + [x for x in ns if x != "GAP"] + ["paragraph_end", NL])
    return [n], [E("Paragraph", fields, fl, n, meta=fields)]


def itempara(b, which, *parts, meta=()):
    ns, fl = cat(*parts)
    fields = {}
    item = b.node(which, [f":{which}:", inlinemeta(b, meta, fields)] + [x for x in ns if x != "GAP"] + ["paragraph_end"])
    n = b.node("paragraph", [NL, item, NL])
    return [n], [E(which.capitalize(), fields, fl, item, meta=fields)]


def block(b, tag, *parts, meta=()):
    ns, fl = cat(*parts)
    fields = {}
    n = b.node("block", [NL, ("tag", b.tok(tag)), blockmeta(b, meta, fields)] + ns + [NL, "::"])
    return [n], [E(BLOCKS[tag], fields, fl, n, meta=fields)]


def inline(b, tag, *parts, meta=()):
    ns, fl = cat(*parts)
    fields = {}
    n = b.node("inline", [("tag", b.tok(tag)), inlinemeta(b, meta, fields)] + ns + ["::"])
    return [n], [E(INLINES[tag], fields, fl, n, meta=fields)]


def construct(b, kind, *parts):
    ns, fl = cat(*parts)
    n = b.node("construct", [("tag", b.tok(kind))] + ns + ["::"])
    return [n], [E("Construct", {"kind": b.M.lift(kind)}, fl, n)]


def qed(b):
    n = b.node("specialconstruct", [("tag", b.tok("qed"))])
    return [n], [E("Construct", {"kind": b.M.lift("qed")}, [], n)]


def span2(b, which, *parts):
    ns, fl = cat(*parts)
    d = {"spanstrong": "*", "spanemphas": "/"}[which]
    n = b.node("specialinline", [("tag", b.leaf(which, b.M.lift(d)))] + ns + [d])
    return [n], [E("Span", {which[4:]: True}, fl, n)]


def asis(b, pat):
    t = b.tpl(pat, "raw")
    return b.leaf("asis_text", t), t


def math(b, pat="w", meta=()):
    a, t = asis(b, pat)
    fields = {}
    n = b.node("specialinline", [("tag", b.leaf("math", b.M.lift("$"))), inlinemeta(b, meta, fields), a, b.leaf("math", b.M.lift("$"), named=False)])
    return [n], [E("Math", fields, [("R", t)], n, meta=fields)]


def code(b, pat="w", meta=()):
    a, t = asis(b, pat)
    fields = {}
    n = b.node("specialinline", [("tag", b.leaf("code", b.M.lift("`"))), inlinemeta(b, meta, fields), a, b.leaf("code", b.M.lift("`"), named=False)])
    return [n], [E("Code", fields, [E("SourceCode", {"lang": fields.get("lang", b.M.lift("")), "text": t}, [], None)], n, meta=fields)]


def mathblock(b, pat="w", meta=()):
    a, t = asis(b, pat)
    fields = {}
    n = b.node("mathblock", ["$$", blockmeta(b, meta, fields), a, "$$"])
    e = E("MathBlock", fields, [("R", t)], n, meta=fields)
    if fields.get("isclaim"):
        e = E("ClaimBlock", {}, [e], n)
    return [n], [e]


def codeblock(b, pat="w", meta=(), kind="codeblock"):
    a, t = asis(b, pat)
    fields = {}
    n = b.node("specialblock", [NL, ("tag", b.tok(kind)), blockmeta(b, meta, fields), a, "::"])
    if kind == "algorithm":
        return [n], [E("Algorithm", fields, [("R", t)], n, meta=fields)]
    return [n], [E("CodeBlock", fields, [E("SourceCode", {"lang": fields.get("lang", b.M.lift("")), "text": t}, [], None)], n, meta=fields)]


def toc(b):
    n = b.node("specialblock", [NL, b.leaf("toc", b.M.lift(":toc:"))])
    return [n], [E("Contents", {}, [], n)]


def ref(b, which="ref", reftext=False):
    t = b.tpl("w", "target")
    ch = [("tag", b.tok(which)), ("target", b.leaf("text", t))]
    cname = {"ref": "PendingReference", "url": "URL", "previous": "PendingPrev"}[which]
    f = {"target": t}
    if reftext:
        r = b.tpl("w", "reftext")
        ch += [",", ("reftext", b.leaf("text", r))]
        f["overwrite_reftext"] = r
    n = b.node("specialinline", ch + ["::"])
    return [n], [E(cname, f, [], n)]


def prev(b, k):
    n = b.node("specialinline", [b.leaf("prev" + ("" if k == 1 else str(k)), b.M.lift(":prev:"))])
    return [n], [E("PendingPrev", {"target": k}, [], n)]


def cite(b, k):
    ws = [b.word("key") for _ in range(k)]
    t = AStr("", [])
    for i, w in enumerate(ws):
        t = t + (b.M.lift([",", ", ", " ,"][i % 3]) if i else AStr("", [])) + w
    n = b.node("specialinline", [("tag", b.tok("cite")), ("targetlabels", b.leaf("text", t)), "::"])
    return [n], [E("PendingCite", {"targetlabels": ws}, [], n)]


SECTIONS = {"section": "Section", "subsection": "Subsection", "subsubsection": "Subsubsection"}


def section(b, which, *parts, hash=True, meta=(), title="w w"):
    ns, fl = cat(*parts)
    fields = {}
    if hash:
        t = b.tpl(title, "title")
        head = [("title", b.leaf("text", t))]
        mt = blockmeta(b, meta, fields)
        fields["title"] = escape(b.M, t)
    else:
        head = [("tag", b.leaf(f":{which}:", b.M.lift(f":{which}:"), named=False))]
        mt = blockmeta(b, meta, fields)
        if "title" in fields:
            fields["title"] = escape(b.M, fields["title"])
    n = b.node(which, [NL] + head + [mt] + ns + (["::"] if not hash else []))
    return [n], [E(SECTIONS[which], fields, fl, n, meta=[k for k in fields if k != "title" or not hash])]


def appendix(b):
    n = b.node("appendix", [NL, b.leaf(":appendix:", b.M.lift(":appendix:"), named=False)])
    return [n], [E("Appendix", {}, [], n)]


def table(b, head=None, body=None, caption=None, meta=()):
    fields = {}
    ch = [NL, ("tag", b.leaf(":table:", b.M.lift(":table:"), named=False)), blockmeta(b, meta, fields)]
    fl = []
    for which, f, rows in (("thead", "head", head), ("tbody", "body", body)):
        if rows is None:
            continue
        rn, rf = [], []
        for short, cells in rows:
            tn, tf = [], []
            if short:
                tn.append(("tag", b.leaf(":tr:", b.M.lift(":tr:"), named=False)))
                for i, c in enumerate(cells):
                    if i:
                        tn.append(":")
                    td = b.node("tdcontent", [x for x in c[0] if x != "GAP"])
                    tn.append(td)
                    tf.append(E("TableDatum", {}, c[1], td))
                r = b.node("trshort", tn + ["::"])
            else:
                tn.append(("tag", b.leaf(":tr:", b.M.lift(":tr:"), named=False)))
                for c in cells:
                    tdc = b.node("tdcontent", [x for x in c[0] if x != "GAP"])
                    tn += [NL, b.node("td", [b.leaf(":td:", b.M.lift(":td:"), named=False), tdc, "::"])]
                    tf.append(E("TableDatum", {}, c[1], tdc))
                r = b.node("tr", tn + [NL, "::"])
            rn += [NL, r]
            rf.append(E("TableRow", {}, tf, r))
        n = b.node(which, [("tag", b.leaf(f":{which}:", b.M.lift(f":{which}:"), named=False))] + rn + [NL, "::"])
        ch += [NL, (f, n)]
        fl.append(E({"thead": "TableHead", "tbody": "TableBody"}[which], {}, rf, n))
    if caption is not None:
        c = b.node("caption", [":caption:"] + [x for x in caption[0] if x != "GAP"] + ["paragraph_end"])
        ch += [NL, ("caption", c)]
        fl.append(E("Caption", {}, caption[1], c))
    t = b.node("table", ch + [NL, "::"])
    n = b.node("specialblock", [t])
    return [n], [E("Table", fields, fl, t, meta=fields)]


def bibliography(b):
    n = b.node("specialblock", [NL, ("tag", b.leaf("bibliography", b.M.lift(":bibliography:"))), "::"])
    return [n], [E("Bibliography", {}, [], None)]


BIBKEYS = ["title", "year", "author", "journal", "doi", "publisher", "volume"]


def bibtex(b, entries, bibE):
    M = b.M
    ch = [":bibtex:"]
    for keys in entries:
        kind, label = b.tpl("w", "kind"), b.tpl("w", "bibkey")
        f = {"kind": kind, "label": label}
        it = ["@", ("kind", b.leaf("kind", kind)), "{", ("label", b.leaf("label", label)), ","]
        for k in keys:
            v = b.tpl("w w", k)
            f[k] = v
            it += [NL, b.node("bibitempair", [("key", b.leaf("key", M.lift(k))), "=", "{", ("value", b.leaf("value", v)), "}"]), ","]
        n = b.node("bibitem", it + [NL, "}"])
        ch += [NL, n]
        bibE.flow.append(E("Bibitem", f, [], None))
    return b.node("bibtex", ch + [NL, "::"])


def document(b, *parts, title=True, meta=(), bib=None):
    M = b.M
    ns, fl = cat(*parts)
    fields = {}
    ch = [("tag", b.leaf(":rsm:", M.lift(":rsm:"), named=False))]
    if title:
        t = b.tpl("w w" if title is True else title, "title")
        ch.append(NL)
        ch.append(("title", b.leaf("text", t)))
    mt = blockmeta(b, meta, fields)
    if title:
        fields["title"] = escape(M, t)
    elif "title" in fields:
        fields["title"] = escape(M, fields["title"])
    root = b.node("source_file", ch + [mt] + [x for x in ns if x != "GAP"] + [NL, "::"] + ([NL, bib] if bib else []))
    return root, E("Manuscript", fields, fl, root, meta=[k for k in fields if k != "title" or not title])


# ------------------------------------------------------------------ the families of documents
def T(b, p=" w "):
    return text(b, p)


def inline_makers(b):
    """Every inline construct, simplest form."""
    out = [(f":{k}:", lambda k=k: inline(b, k, text(b, " w "))) for k in INLINES]
    out += [("*strong*", lambda: span2(b, "spanstrong", text(b, "w"))), ("/emphasis/", lambda: span2(b, "spanemphas", text(b, "w")))]
    out += [("$math$", lambda: math(b)), ("`code`", lambda: code(b))]
    out += [(":ref:", lambda: ref(b)), (":ref: with text", lambda: ref(b, "ref", True)), (":url:", lambda: ref(b, "url")), (":url: with text", lambda: ref(b, "url", True)),
            (":previous:", lambda: ref(b, "previous")), (":previous: with text", lambda: ref(b, "previous", True))]
    out += [(f":prev{k if k > 1 else ''}:", lambda k=k: prev(b, k)) for k in (1, 2, 3)]
    out += [(f":cite: with {k} key(s)", lambda k=k: cite(b, k)) for k in (1, 2, 3)]
    out += [(f":{k}: construct", lambda k=k: construct(b, k, text(b, " w "))) for k in CONSTRUCTS]
    out += [(":qed:", lambda: qed(b))]
    return out


def pick(b, what, alts):
    return alts[b.M.choose(len(alts), lambda i: f"{what}: {alts[i] if not isinstance(alts[i], tuple) else alts[i][0]}")]


def cell(b, pat="w"):
    return text(b, pat)


def families(M, tier):
    """(name, builder(b) -> (root, E), weight)"""
    out = []

    def fam(name, w=1):
        def deco(f):
            out.append((name, f, w))
            return f
        return deco

    N = len(inline_makers(B(M)))
    for k in range(N):
        def one(b, k=k):
            i = b.M.choose(4, lambda i: ["surrounded by spaces", "glued to its neighbours", "at the start of a line", "alone in its paragraph"][i])
            x = inline_makers(b)[k][1]()
            if i == 0:
                p = para(b, text(b, "w "), x, text(b, " w"))
            elif i == 1:
                p = para(b, text(b, "w"), x, text(b, "w"))
            elif i == 2:
                p = para(b, text(b, "w"), NL, x, NL, text(b, "w"))
            else:
                p = para(b, x)
            return document(b, p)
        out.append((f"{inline_makers(B(M))[k][0]} in a paragraph", one, 2))

    names = [n for n, _ in inline_makers(B(M))]
    rep = [i for i, n in enumerate(names) if n in (":span:", ":draft:", "*strong*", "$math$", "`code`", ":ref:", ":url:", ":prev2:", ":cite: with 1 key(s)", ":let: construct", ":note:", ":qed:", ":previous:")]
    for k in rep:
        def two(b, k=k):
            j = rep[b.M.choose(len(rep), lambda i: f"followed by {names[rep[i]]}")]
            how = b.M.choose(3, lambda i: ["on the next line", "glued to it", "after a blank"][i])
            x = inline_makers(b)[k][1]()
            y = inline_makers(b)[j][1]()
            if how == 0:
                return document(b, para(b, text(b, "w "), x, NL, y))
            if how == 1:
                return document(b, para(b, x, y, text(b, " w")))
            y[0][0].native["blank"] = True
            return document(b, para(b, x, ([], [("WS",)]), y, text(b, " w")))
        out.append((f"{names[k]} next to another inline construct", two, 4))

    pats = ["w", "w ", " w", " w ", "  w  ", "w w"]

    @fam("lines of a paragraph", 6)
    def lines(b):
        n = 2 + b.M.choose(3 if tier == "thorough" else 2, lambda i: f"{i + 2} lines")
        parts = []
        for i in range(n):
            if i:
                parts.append(NL)
            parts.append(text(b, pick(b, f"line {i + 1}", pats[1:5] if n > 2 else pats)))
        return document(b, para(b, *parts))

    @fam("lines of a paragraph among inline constructs", 6)
    def mixed_lines(b):
        n = 1 + b.M.choose(4 if tier == "thorough" else 3, lambda i: f"{i + 1} lines")
        first = pick(b, "the first line", ["w", "w ", " w"])
        last = pick(b, "the last line", ["w", "w ", " w"])
        before = b.M.choose(4, lambda i: ["nothing before", "an inline construct before the first line", "an inline construct on the line before", "math before the first line"][i])
        after = b.M.choose(4, lambda i: ["nothing after", "an inline construct after the last line", "an inline construct on the next line", "math after the last line"][i])
        mk = lambda k: math(b) if k == 3 else span2(b, "spanstrong", text(b, "w"))
        parts = []
        if before:
            parts += [mk(before)] + ([NL] if before == 2 else [])
        for i in range(n):
            parts += ([NL] if i else []) + [text(b, first if i == 0 else last if i == n - 1 else " w ")]
        if after:
            parts += ([NL] if after == 2 else []) + [mk(after)]
        host = b.M.choose(2, lambda i: ["in a paragraph", "in a list item"][i])
        return document(b, para(b, *parts) if host == 0 else block(b, "itemize", itempara(b, "item", *parts)))

    @fam("empty and blank lines", 2)
    def blank(b):
        a, c = pick(b, "first", ["w", "w ", ""]), pick(b, "last", ["w", " w", ""])
        m = pick(b, "between", ["", " ", "  "])
        return document(b, para(b, text(b, a), NL, text(b, m), span2(b, "spanstrong", text(b, "w")), text(b, m), NL, text(b, c)))

    @fam("escaped delimiters in text", 3)
    def escapes(b):
        d = pick(b, "delimiter", list(DELIMS))
        where = pick(b, "in", ["a paragraph", "a span", "a title", "a list item", "a table datum", "a section's :title:", "the manuscript's title", "a construct"])
        p = f"w\\{d}w w\\\\{d}"[: 4 + len(d)] + pick(b, "and", ["", f" \\{d}", f"\\{d}\\{d}w"])
        if where == "a paragraph":
            return document(b, para(b, text(b, p)))
        if where == "a span":
            return document(b, para(b, text(b, "w "), inline(b, "span", text(b, p))))
        if where == "a title":
            return document(b, section(b, "section", title=p))
        if where == "a list item":
            return document(b, block(b, "itemize", itempara(b, "item", text(b, " " + p))))
        if where == "a table datum":
            return document(b, table(b, body=[(False, [text(b, p)])]))
        if where == "the manuscript's title":
            return document(b, title=p)
        if where == "a construct":
            return document(b, para(b, construct(b, "let", text(b, p))))
        b.titlepat = p
        return document(b, section(b, "section", hash=False, meta=["title"]))

    @fam("other backslashes in text", 1)
    def backslashes(b):
        return document(b, para(b, text(b, "w\\qw \\w \\\\w")))

    @fam("verbatim text is untouched", 3)
    def verbatim(b):
        pat = pick(b, "text", ["w\\:w", " w\\$w\n  w*w ", "\n w\\\\alpha{w}\n", "w\\%\\`\\*\\{\\#", "w  w\t"])
        k = pick(b, "in", ["math", "code", "mathblock", "codeblock", "algorithm"])
        if k == "math":
            return document(b, para(b, text(b, "w "), math(b, pat), text(b, " w")))
        if k == "code":
            return document(b, para(b, text(b, "w "), code(b, pat), text(b, " w")))
        if k == "mathblock":
            return document(b, para(b, text(b, "w "), NL, mathblock(b, pat), NL, text(b, "w")))
        return document(b, codeblock(b, pat, kind=k))

    for tag in BLOCKS:
        def blk(b, tag=tag):
            c = b.M.choose(4, lambda i: ["empty", "a paragraph", "two paragraphs", "a block inside"][i])
            wrap = (lambda x: document(b, block(b, "proof", x))) if tag in ("step", "subproof") else (lambda x: document(b, para(b, text(b, "w")), x, para(b, text(b, "w"))))
            if tag == "author":
                c = 0
            inner = [(), (lambda: para(b, text(b, "w")),), (lambda: para(b, text(b, "w"), span2(b, "spanemphas", text(b, "w"))), lambda: para(b, text(b, " w"))),
                     (lambda: para(b, text(b, "w")), lambda: block(b, {"proof": "step", "step": "subproof", "subproof": "step"}.get(tag, "remark"), para(b, text(b, "w"))), lambda: para(b, text(b, "w")))][c]
            if tag in ("enumerate", "itemize"):
                inner = [(), (lambda: itempara(b, "item", text(b, " w")),), (lambda: itempara(b, "item", text(b, " w")), lambda: itempara(b, "item", text(b, " w "), math(b), NL, text(b, "w"))),
                         (lambda: itempara(b, "item", text(b, " w")), lambda: block(b, "enumerate", itempara(b, "item", text(b, " w"))))][c]
                if c == 3:  # lists cannot hold lists directly: an item holds nothing but text
                    inner = inner[:1]
            if tag == "figure" and c:
                inner = (lambda: itempara(b, "caption", text(b, " w")),)
            return wrap(block(b, tag, *[f() for f in inner]))
        out.append((f":{tag}: block", blk, 2))

    metas = {}
    for tag, cn in BLOCKS.items():
        metas[f":{tag}:"] = (cn, lambda b, ks, tag=tag: document(b, block(b, "proof", block(b, tag, meta=ks))) if tag in ("step", "subproof") else document(b, block(b, tag, meta=ks)))
    for tag, cn in INLINES.items():
        metas[f":{tag}:"] = (cn, lambda b, ks, tag=tag: document(b, para(b, text(b, "w "), inline(b, tag, text(b, " w "), meta=ks), text(b, " w"))))
    metas[":math:"] = ("Math", lambda b, ks: document(b, para(b, text(b, "w "), math(b, meta=ks), text(b, " w"))))
    metas[":code:"] = ("Code", lambda b, ks: document(b, para(b, text(b, "w "), code(b, meta=ks), text(b, " w"))))
    metas[":mathblock:"] = ("MathBlock", lambda b, ks: document(b, para(b, text(b, "w"), NL, mathblock(b, meta=ks), NL, text(b, "w"))))
    metas[":codeblock:"] = ("CodeBlock", lambda b, ks: document(b, codeblock(b, meta=ks)))
    metas[":algorithm:"] = ("Algorithm", lambda b, ks: document(b, codeblock(b, meta=ks, kind="algorithm")))
    metas[":table:"] = ("Table", lambda b, ks: document(b, table(b, body=[(True, [cell(b)])], meta=ks)))
    metas[":paragraph:"] = ("Paragraph", lambda b, ks: document(b, para(b, text(b, "w"), meta=ks)))
    metas[":item:"] = ("Item", lambda b, ks: document(b, block(b, "itemize", itempara(b, "item", text(b, " w"), meta=ks))))
    metas[":caption:"] = ("Caption", lambda b, ks: document(b, block(b, "figure", itempara(b, "caption", text(b, " w"), meta=ks))))
    for s, cn in SECTIONS.items():
        metas[f":{s}:"] = (cn, lambda b, ks, s=s: document(b, nest(b, s, lambda: section(b, s, para(b, text(b, "w")), hash=False, meta=ks))))
        metas[f"{'#' * len(s.split('sub'))} {s}"] = (cn, lambda b, ks, s=s: document(b, nest(b, s, lambda: section(b, s, para(b, text(b, "w")), meta=[k for k in ks if k != "title"]))))
    metas[":rsm:"] = ("Manuscript", lambda b, ks: document(b, para(b, text(b, "w")), title=False, meta=ks))
    for nm, (cn, f) in metas.items():
        def meta(b, cn=cn, f=f):
            ks = COMMONMETA + SPECIFIC.get(cn, [])
            opts = [[k] for k in ks] + [["label", "reftext"], ["nonum", "label", "types"], ks]
            return f(b, pick(b, "keys", [" ".join(o) for o in opts]).split())
        out.append((f"metadata of {nm}", meta, 4))

    def nest(b, s, f):
        if s == "section":
            return f()
        if s == "subsection":
            return section(b, "section", f())
        return section(b, "section", section(b, "subsection", f()))

    @fam("nested sections and appendix", 4)
    def sections(b):
        h = b.M.choose(2, lambda i: f"sections written with {'# titles' if i == 0 else 'tags'}") == 0
        m = [] if h else ["title"]
        return document(b, para(b, text(b, "w")),
                        section(b, "section", para(b, text(b, "w")), section(b, "subsection", para(b, text(b, "w")), section(b, "subsubsection", para(b, text(b, "w")), hash=h, meta=m),
                                section(b, "subsubsection", hash=h, meta=m), hash=h, meta=m), section(b, "subsection", hash=h, meta=m), hash=h, meta=m),
                        appendix(b), section(b, "section", para(b, text(b, "w")), hash=h, meta=m))

    @fam("manuscript head", 1)
    def head(b):
        k = b.M.choose(3, lambda i: ["a # title", "a :title: key", "no title"][i])
        if k == 0:
            return document(b, para(b, text(b, "w")), meta=pick(b, "keys", ["label", "date", "date label"]).split())
        return document(b, toc(b), para(b, text(b, "w")), title=False, meta=["title", "date"] if k == 1 else [])

    @fam("tables", 6)
    def tables(b):
        h = b.M.choose(3, lambda i: ["no head", "a head", "a short head"][i])
        bo = b.M.choose(4, lambda i: ["no body", "one row", "two rows, one short", "an empty row"][i])
        ca = b.M.choose(2, lambda i: ["no caption", "a caption"][i])
        mk = lambda: cat(text(b, "w "), span2(b, "spanstrong", text(b, "w")))
        head = [None, [(False, [cell(b), cell(b)])], [(True, [cell(b), mk()])]][h]
        body = [None, [(False, [cell(b), mk()])], [(True, [cell(b), mk(), cell(b)]), (False, [mk(), cell(b, " w ")])], [(False, []), (True, [cell(b)])]][bo]
        return document(b, para(b, text(b, "w")), table(b, head, body, cat(text(b, " w "), math(b), text(b, " w")) if ca else None), para(b, text(b, "w")))

    @fam("bibliography", 4)
    def bib(b):
        bl = bibliography(b)
        es = [[], [["title", "year"]], [["author", "title"], []], [BIBKEYS, ["doi"], ["year"]]][b.M.choose(4, lambda i: f"{[0, 1, 2, 3][i]} entries")]
        bt = bibtex(b, es, bl[1][0])
        after = b.M.choose(2, lambda i: ["bibliography last", "a paragraph after the bibliography"][i])
        return document(b, para(b, text(b, "w "), cite(b, 2)), bl, *([para(b, text(b, "w"))] if after else []), bib=bt)

    @fam("table of contents, qed and deep nesting", 2)
    def deep(b):
        return document(b, toc(b), block(b, "theorem", para(b, text(b, "w"), NL, construct(b, "let", text(b, " w "), math(b), text(b, " w "))),
                        ), block(b, "proof", block(b, "step", para(b, construct(b, "prove", text(b, " w "), inline(b, "span", span2(b, "spanemphas", text(b, "w")), text(b, " w")))),
                                 block(b, "subproof", block(b, "step", para(b, text(b, "w ")), block(b, "subproof", block(b, "step", para(b, qed(b)))))))))

    @fam("math blocks in paragraphs", 2)
    def mbs(b):
        k = b.M.choose(3, lambda i: ["text before", "text after", "between texts"][i])
        parts = []
        if k != 1:
            parts += [text(b, pick(b, "before", ["w", "w "])), NL]
        parts += [mathblock(b, "w")]
        if k != 0:
            parts += [NL, text(b, pick(b, "after", ["w", " w"]))]
        return document(b, para(b, *parts))

    @fam("inline constructs inside inline constructs", 5)
    def innest(b):
        outer = pick(b, "outer", ["span", "draft", "note", "strong", "construct"])
        j = b.M.choose(len(rep), lambda i: f"inner {names[rep[i]]}")
        x = inline_makers(b)[rep[j]][1]()
        pos = b.M.choose(3, lambda i: ["alone", "first", "last"][i])
        seq = [[x], [x, text(b, " w ")], [text(b, " w "), x]][pos]
        if outer in INLINES:
            o = inline(b, outer, *seq)
        elif outer == "strong":
            o = span2(b, "spanstrong", *seq)
        else:
            o = construct(b, "let", *seq)
        return document(b, para(b, text(b, "w "), o, text(b, " w")))
    return out


# ------------------------------------------------------------------ comparison
def collapse(s):
    out = []
    for c in s:
        if not is_hole(c) and c.isspace():
            if out and out[-1] == " ":
                continue
            out.append(" ")
        else:
            out.append(c)
    return "".join(out)


def known_holes(M, s, out):
    """Unknowns of the template that are the author's own words; the others were derived by some operation."""
    bad = []
    for h in M.holesyms(s):
        if h.meta.get("op") is not None or not h.meta.get("word"):
            bad.append(h)
    return bad


def entries(M, items, get):
    """Merge texts: [kind, payload, whitespace before]"""
    out, ws = [], False
    for it in items:
        k, v = get(it)
        if k == "WS":
            ws = True
        elif k == "T":
            s = collapse(v.s)
            if not s.strip():
                ws = ws or bool(s)
                continue
            lead = ws or s[0] == " "
            core = s.strip()
            if out and out[-1][0] == "T":
                out[-1][1] += (" " if lead else "") + core
            else:
                out.append(["T", core, lead])
            ws = s[-1] == " "
        else:
            out.append([k, v, ws])
            ws = False
    return out


class Compare:
    def __init__(self, M, noise, errors):
        self.M = M
        self.noise = noise
        self.out = []           # (category, what, key)
        self.undecided = []
        self.errors = errors

    def bad(self, cat, what, key):
        self.out.append((cat, what, key))

    def same(self, a, b):
        M = self.M
        if isinstance(b, list):
            return isinstance(a, (AList, ATuple)) and len(a.items) == len(b) and all(self.same(x, y) for x, y in zip(a.items, b))
        if isinstance(a, AStr) and isinstance(b, AStr):
            x, y = M.norm(a), M.norm(b)
            if x.s == y.s:
                return True
            if known_holes(M, x, None):
                self.undecided.append(M.show(x))
                return None
            return False
        if isinstance(b, AStr) or isinstance(a, AStr):
            return False
        if isinstance(a, Sym):
            if isinstance(b, Sym) and (a is b or a.meta.get("ext") and a.meta.get("ext") == b.meta.get("ext")):
                return True
            self.undecided.append(a.name)
            return None
        if isinstance(a, (AList, ATuple)) and isinstance(b, (AList, ATuple)):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (AObj, ADict)) or isinstance(b, (AObj, ADict)):
            if isinstance(a, AObj) and isinstance(b, AObj) and a.cls is b.cls and not (set(a.attrs) ^ set(b.attrs)):
                return all(self.same(a.attrs[k], b.attrs[k]) for k in a.attrs)
            return a is b
        return type(a) is type(b) and a == b

    def clean(self, v):
        """The text sans the messages about syntax errors that were merged into it."""
        v = self.M.norm(v)
        if self.errors:
            while (m := ERRMSG.search(v.s)):
                v = v.slice(0, m.start()) + v.slice(m.end(), len(v.s))
        return v

    def trim(self, v):
        """White space at the two ends of a text is not significant."""
        if isinstance(v, AStr):
            v = self.clean(v)
        return self.M.bm.strip_template(self.M, v, None, True, True, "strip") if isinstance(v, AStr) else v

    def node(self, n, e, path):
        M = self.M
        where = path
        if not isinstance(n, AObj) or n.cls.name != e.cname:
            self.bad("C16", f"{where}: a {e.cname} is promised, the result is {n.cls.name if isinstance(n, AObj) else n!r}", f"class {e.cname}")
            return
        fresh = M.call(n.cls, [])
        for k, v in e.fields.items():
            if k not in n.attrs:
                self.bad("C26" if k in e.meta else "C16", f"{where}: field {k} of the {e.cname} is not set", f"field {k} of {e.cname}")
            elif self.same(self.trim(n.attrs[k]), self.trim(v)) is False:
                got = n.attrs[k]
                cat = "C26" if k in e.meta else "C18" if k == "text" else "C16"
                if k == "title" and k not in e.meta:
                    cat = "C18"
                self.bad(cat, f"{where}: field {k} of the {e.cname} is {self.shows(got)}, the source says {self.shows(v)}", f"field {k} of {e.cname}")
        for k, v in n.attrs.items():
            if k in e.fields or k in ("nodeid", "_parent", "_children", "start_point", "end_point", "src"):
                continue
            if k not in fresh.attrs:
                self.bad("C26", f"{where}: the {e.cname} has a field {k} that nobody gave it", f"extra field {k} of {e.cname}")
            elif self.same(v, fresh.attrs[k]) is False and k not in ("text", "asis", "source"):
                self.bad("C26", f"{where}: field {k} of the {e.cname} is {M.show(v)} although the source does not set it", f"field {k} of {e.cname} unset")
        if e.span is not None:
            for k in ("start_point", "end_point"):
                if k not in n.attrs or self.same(n.attrs[k], e.span.attrs[k]) is False:
                    self.bad("C26", f"{where}: {k} of the {e.cname} is not that of its source", f"{k} of {e.cname}")
        if "_children" not in n.attrs:
            if e.flow:
                self.bad("C16", f"{where}: the {e.cname} cannot hold its content", f"content of {e.cname}")
            return
        ch = list(kids(M, n))
        for c in ch:
            if not isinstance(c, AObj) or c.attrs.get("_parent") is not n:
                self.bad("C16", f"{where}: a child of the {e.cname} does not know its parent", f"parent in {e.cname}")
        if e.cname in ("Construct", "ClaimBlock") and ch and ch[0].cls.name == "Keyword":
            kw = kids(M, ch[0])
            want = M.getattr(n, "keyword")
            if len(kw) != 1 or kw[0].cls.name != "Text" or self.same(kw[0].attrs.get("text"), want) is False:
                self.bad("C16", f"{where}: the keyword of the construct is wrong", "keyword")
            ch = ch[1:]
        elif e.cname in ("Construct", "ClaimBlock"):
            self.bad("C16", f"{where}: the construct has lost its keyword", "keyword")
        self.flow(ch, e, where)

    def flow(self, ch, e, where):
        M = self.M
        raw = [x for x in e.flow if isinstance(x, tuple) and x[0] == "R"]
        if raw:
            txt = [c for c in ch if c.cls.name == "Text"]
            if self.errors:
                ch = [c for c in ch if c.cls.name != "Error"]
            if len(ch) != 1 or len(txt) != 1:
                self.bad("C18", f"{where}: the {e.cname} does not consist of exactly its verbatim text", f"verbatim text of {e.cname}")
                return
            r = self.same(self.trim(txt[0].attrs.get("text")), self.trim(raw[0][1]))
            if r is False:
                self.bad("C18", f"{where}: the verbatim text of the {e.cname} is {M.show(txt[0].attrs['text'])}, the source says {M.show(raw[0][1])}", f"verbatim text of {e.cname}")
            if txt[0].attrs.get("asis") is not True:
                self.bad("C18", f"{where}: the text of the {e.cname} is not marked as verbatim", f"asis of {e.cname}")
            return

        def got(c):
            if isinstance(c, AObj) and (c.cls.name == "Text" or self.errors and c.cls.name == "Error"):
                t = c.attrs.get("text")
                t = self.clean(t) if isinstance(t, AStr) else None
                if t is None or known_holes(M, t, None):
                    self.undecided.append(M.show(c.attrs.get("text")))
                    return "T", t if t is not None else M.lift("")
                return "T", t
            return "N", c

        def want(x):
            if isinstance(x, E):
                return "N", x
            return x[0], x[1] if len(x) > 1 else None
        A = entries(M, ch, got)
        W = entries(M, e.flow, want)
        if self.undecided:
            return
        loose = self.noise is not None
        shape = lambda L: [x[0] if x[0] == "T" else (x[1].cname if isinstance(x[1], E) else x[1].cls.name) for x in L]
        if shape(A) != shape(W):
            cat = "C18" if [s for s in shape(A) if s != "T"] == [s for s in shape(W) if s != "T"] else "C16"
            self.bad(cat, f"{where}: the content of the {e.cname} is {shape(A)}, the source says {shape(W)}", f"content of {e.cname}")
            return
        for i, (a, w) in enumerate(zip(A, W)):
            if a[0] == "T":
                x, y = a[1], w[1]
                if loose:
                    x, y = x.replace(" ", ""), y.replace(" ", "")
                if x != y:
                    self.bad("C18", f"{where}: the text of the {e.cname} is {self.showt(a[1])}, the source says {self.showt(w[1])}", f"text of {e.cname}")
            else:
                self.node(a[1], w[1], f"{where} > {w[1].cname}" + (f"[{i}]" if i else ""))
            if i and a[2] is not None and not loose:
                sep = {x[1].cname if x[0] == "N" else "T" for x in (W[i - 1], w)}
                if sep & {"MathBlock", "ClaimBlock", "Paragraph", "Bibliography", "Note"} or e.cname in ("Manuscript",):
                    continue
                inl = sep <= {"Span", "Construct", "Math"}  # always set apart
                if w[2] and not a[2]:
                    self.bad("C18", f"{where}: the white space between {shape(W)[i - 1]} and {shape(W)[i]} is lost", f"white space between {'/'.join(sorted(sep))}")
                elif a[2] and not w[2] and not inl:
                    self.bad("C18", f"{where}: white space appears between {shape(W)[i - 1]} and {shape(W)[i]}", f"white space between {'/'.join(sorted(sep))}")

    def shows(self, v):
        if isinstance(v, (AList, ATuple)):
            v = v.items
        return str([self.M.show(x) for x in v]) if isinstance(v, list) else self.M.show(v)

    def showt(self, s):
        return self.M.show(AStr(s))


def parse(M, tree):
    mod = M.modules["rsm.tsparser"]
    pc = M.modules[STUB].env.vars["Parser"]
    pc.ns["tree"] = tree
    for lg in getattr(M, "loggers", {}).values():
        lg.native["getEffectiveLevel"] = ABuiltin("getEffectiveLevel", lambda MM, a, k: 20)
    p = M.call(mod.env.vars["TSParser"], [])
    return M.call(M.getattr(p, "parse"), [M.strsym("the source")])


def obligations(M, tier, cats, noises=(None,), select=None):
    obs = []
    for name, build, w in families(M, tier):
        if select and not select(name):
            continue
        for noise in noises:
            def run(M, build=build, noise=noise, name=name):
                b = B(M)
                root, exp = build(b)
                err = None
                if noise:
                    pos = b.positions(root)
                    i = M.choose(len(pos), lambda i: f"{noise} in {pos[i][0].tag}, before its child {pos[i][1]}")
                    err = b.add_noise(noise, *pos[i])
                tree = b.finish(root, M.strsym("source text"))
                M.P.spec = (exp, err, noise)
                return parse(M, tree)

            def judge(M, P, outcome, val, noise=noise):
                exp, err, _ = P.spec
                vs = []
                if outcome == "raise":
                    what = raised(M, val)
                    cat = "C17" if noise == "ERROR" else "C16"
                    vs.append((cat, f"the parser fails: {what}", f"parser fails: {what.split(':')[0]}", val.loc))
                elif outcome != "ok":
                    vs.append(("C16", f"the parser does not finish ({outcome})", "parser diverges", None))
                else:
                    c = Compare(M, noise, noise == "ERROR")
                    c.node(val, exp, "Manuscript")
                    if c.undecided:
                        M.gap(f"cannot evaluate text {c.undecided[0]}")
                    for cat, what, key in c.out:
                        vs.append(("C17" if noise == "ERROR" else cat, what, key, None))
                    if noise == "ERROR":
                        p = err.attrs["start_point"]
                        row, col = p.attrs["row"], p.attrs["column"]
                        ok = False
                        for ev in P.events:
                            if ev["kind"] == "log" and isinstance(ev.get("level"), int) and ev["level"] >= 30:
                                ok = ok or mentions(M, ev, row, col, err.attrs["end_point"])
                        if not ok:
                            vs.append(("C17", f"a syntax error inside {err.attrs['parent'].tag} is not reported with its position", f"error in {err.attrs['parent'].tag} unreported", None))
                return [Violation(w_, loc, k) for cat, w_, k, loc in vs if cat in cats]
            obs.append(Obligation(name + (f", with a {noise}" if noise else ""), run, judge, weight=w * (3 if noise else 1)))
    return obs


def mentions(M, ev, row, col, end):
    ex = ev["kwargs"].get("extra")
    if isinstance(ex, ADict):
        d = {M.const(k): v for k, v in ex.d.values()}
        if d.get("start_row") == row and d.get("start_col") == col:
            return d.get("end_row", end.attrs["row"]) == end.attrs["row"] and d.get("end_col", end.attrs["column"]) == end.attrs["column"]
    msg = ev.get("msg")
    if msg is None:
        msg = ev["kwargs"].get("msg")
    if isinstance(msg, AStr):
        nums = re.findall(r"\d+", msg.s)
        return str(row) in nums and str(col) in nums
    return False
