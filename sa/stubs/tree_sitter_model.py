"""Model of the tree_sitter binding, interpreted (never executed) by the analyser.

It has the read-only interface of tree_sitter.Node; the nodes themselves are built by the obligations.
"""
from collections import namedtuple

Point = namedtuple("Point", ["row", "column"])


class Bytes:
    """The bytes of a source text; decoding them gives the text back."""

    def __init__(self, s):
        self._s = s

    def decode(self, encoding="utf-8", errors="strict"):
        return self._s

    def __len__(self):
        return len(self._s)

    def strip(self):
        return Bytes(self._s.strip())

    def split(self, sep):
        return [Bytes(x) for x in self._s.split(sep.decode())]


class Node:
    def __init__(self, type, named, ident, text):
        self.type = type
        self.grammar_name = type
        self.is_named = named
        self.id = ident
        self.is_missing = False
        self.is_extra = type == "comment"
        self.is_error = type == "ERROR"
        self.has_error = type == "ERROR"
        self.text = Bytes(text)
        self.children = []
        self.fields = []
        self.parent = None
        self.start_point = Point(0, 0)
        self.end_point = Point(0, 0)
        self.start_byte = 0
        self.end_byte = 0

    @property
    def named_children(self):
        return [c for c in self.children if c.is_named]

    @property
    def child_count(self):
        return len(self.children)

    @property
    def named_child_count(self):
        return len(self.named_children)

    def child(self, i):
        return self.children[i] if 0 <= i < len(self.children) else None

    def named_child(self, i):
        named = self.named_children
        return named[i] if 0 <= i < len(named) else None

    def child_by_field_name(self, name):
        for c, f in zip(self.children, self.fields):
            if f == name:
                return c
        return None

    def children_by_field_name(self, name):
        return [c for c, f in zip(self.children, self.fields) if f == name]

    def field_name_for_child(self, i):
        return self.fields[i] if 0 <= i < len(self.fields) else None

    def _sibling(self, step, named):
        if self.parent is None:
            return None
        sibs = self.parent.children
        i = 0
        while sibs[i] is not self:
            i += 1
        i += step
        while 0 <= i < len(sibs):
            if not named or sibs[i].is_named:
                return sibs[i]
            i += step
        return None

    @property
    def next_sibling(self):
        return self._sibling(1, False)

    @property
    def prev_sibling(self):
        return self._sibling(-1, False)

    @property
    def next_named_sibling(self):
        return self._sibling(1, True)

    @property
    def prev_named_sibling(self):
        return self._sibling(-1, True)


class Tree:
    def __init__(self, root):
        self.root_node = root


class Language:
    def __init__(self, ptr=None, name=None):
        self.name = name


class Parser:
    """Parsing gives the concrete syntax tree that the obligation has built."""

    tree = None
    seen = []

    def __init__(self, language=None):
        self.language = language

    def parse(self, source, old_tree=None, encoding=None):
        Parser.seen.append(source)
        return Parser.tree
