"""C16-C18, C26: from the concrete syntax tree to the manuscript."""

from __future__ import annotations

from .engine import Machine
from . import psharness as H

COMMON = ("Abstract interpretation of the source of rsm.tsparser, rsm.nodes and rsm.util on families of concrete syntax trees that follow the grammar, whose words are unknown "
          "strings; each tree is built together with the manuscript that it promises. ")
ASSUME = [
    "concrete trees follow the productions of the installed tree-sitter-rsm grammar (listed in sa/psharness.py); the C parser itself is not analysed",
    "a word is any non-empty text without white space, delimiters, commas or quotes; white space, delimiters and escapes around words are explicit in the families",
    "comments and error nodes come one per tree, at every gap between two nodes",
]


def boot(ck):
    from .checklib import REPO
    M = Machine(REPO)
    H.prepare(M)
    M.boot(["rsm"])
    if M.P.gaps:
        ck.counts["boot_gaps"] = [f"{g} @ {l[0]}:{l[1]}" for g, l in M.P.gaps][:20]
    return M


def make(cats, noises, text):
    def check(ck):
        ck.explanation = COMMON + "Rule: " + text
        ck.assumptions = list(ASSUME)
        M = boot(ck)
        ck.explore(M, H.obligations(M, ck.tier, cats, noises))
    return check


CHECKS = {
    "C16": make({"C16"}, (None, "comment"), "every construct becomes the node it stands for, with its kind, target, text of the link, keys and entries, in source order, under its container; "
                "a comment at any gap changes nothing."),
    "C17": make({"C17"}, ("ERROR",), "an error node at any gap of the tree is reported at WARNING level or above with its position, no exception leaves the parser, and the rest of the manuscript is kept."),
    "C18": make({"C18"}, (None, "comment"), "each text of the source appears exactly once, in order, changed only in its white space and by removing the backslash of an escaped delimiter; verbatim text is "
                "unchanged; texts and inline constructs apart in the source stay apart."),
    "C26": make({"C26"}, (None, "comment"), "every metadata key reaches its field with its trimmed value, every node records the position of its source, fields not set keep their defaults."),
}
