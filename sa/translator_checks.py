"""C01-C07: properties of the translation step."""

from __future__ import annotations

from . import trextra, trharness, trrules

COMMON = ("Abstract interpretation of the source of rsm.translator and rsm.nodes (trace partitioning over the syntax tree; "
          "strings are templates with holes for unknown text). Each obligation is one output mode applied to one family of "
          "manuscript trees whose labels, titles, types, numbers, flags and texts are unknown; every branch on an unknown is split. ")
ASSUME = [
    "user text, labels, titles and math contain no markup of their own (the program passes them on verbatim)",
    "sequences of children are covered up to the lengths of the shapes listed by the obligations; every class, every legal parent/child pair",
    "external libraries (pygments, ujson, tree-sitter) return well-formed values of their documented type",
]


def simple(rule, text, freeze=False):
    def check(ck):
        ck.explanation = COMMON + "Rule: " + text
        ck.assumptions = list(ASSUME)
        M = ck.boot()
        ck.explore(M, trharness.obligations(M, ck.tier, rule, freeze=freeze))
    return check


def c04(ck):
    ck.explanation = COMMON + ("Rule: every text leaf appears exactly once, in document order, in the part of the output a reader sees, and so does "
                               "every content field (titles, author data, abstract keywords and MSC, bibliography fields, figure path and scale); "
                               "span flags yield exactly their tags; both output modes show the same text.")
    ck.assumptions = list(ASSUME)
    M = ck.boot()
    ck.explore(M, trharness.obligations(M, ck.tier, trrules.content) + trextra.agree_obligations(M, ck.tier))


def c07(ck):
    ck.explanation = COMMON + ("Rule: the output template of a translator that already translated another manuscript, or failed on one, equals that of a fresh "
                               "translator character by character and hole by hole; no object created when the modules are loaded is changed.")
    ck.assumptions = list(ASSUME)
    M = ck.boot()
    ck.explore(M, trextra.reuse_obligations(M, ck.tier))


CHECKS = {
    "C07": c07,
    "C01": simple(trrules.balance, "the output template parses as markup in which every element is closed in order, attributes are quoted and unique, and no <p> directly contains a math block."),
    "C02": simple(trrules.handrails, "every handrail has exactly the six zones in order, zones occur only in handrails, nothing stands outside the zones, headings stand in handrails of their own, "
                                     "labelled handrails have one label, menu entries are complete, 'copy link' is enabled exactly when there is an anchor, and every class that has a handrail gets one."),
    "C03": simple(trrules.identifiers, "ids are unique and non-empty, every label is output as an id, every node is output by at most one element, every internal link names the label of its target, "
                                       "citations and bibliography entries link to each other."),
    "C04": c04,
    "C05": simple(trrules.total, "translation returns text on every path: no exception, no endless loop."),
    "C06": simple(trrules.readonly, "no attribute or list of any node reachable from the manuscript is changed (all nodes are frozen before the translation; changes that are undone by its end do not count).", freeze=True),
}
