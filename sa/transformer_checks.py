"""C11-C15, C25, C27, C28: properties of the transformation step."""

from __future__ import annotations

from . import tfharness as H

COMMON = ("Abstract interpretation of the source of rsm.transformer and rsm.nodes on families of manuscript trees whose labels, targets, titles and texts are "
          "unknown strings (every comparison of unknowns is split both ways). ")
ASSUME = [
    "trees obey the grammar's nesting (subsections in sections, a sub-proof is the last child of its step)",
    "tree sizes are those of the listed families: every pair of the 16 kinds of top-level element and selected triples, up to two sections with any number (0-2) of "
    "sub- and subsubsections, up to three steps, two levels of nesting",
]


def simple(rule, text, select=None):
    def check(ck):
        ck.explanation = COMMON + "Rule: " + text
        ck.assumptions = list(ASSUME)
        M = ck.boot()
        ck.explore(M, H.obligations(M, ck.tier, rule, select if ck.tier == "quick" else None))
    return check


def sel(*words):
    return lambda n: any(w in n for w in words)


CHECKS = {
    "C11": simple(H.references, "every pending reference, citation and step reference is replaced, in its place, by a link to the first element with that label (the k-th previous step), "
                                "or by a visible error with a warning that names the label; the first owner of a label keeps it, later ones lose it with a warning; citations have distinct labels and the cited entries link back to exactly them.",
                  sel("references", "citations", "nesting below Theorem")),
    "C12": simple(H.numbering, "numbers, full numbers and reference texts equal those of an independent numbering table (which kinds share a counter, where it restarts, letters in the appendix, unnumbered elements skipped).",
                  sel("manuscript starting", "table of contents first", "proofs", "nesting")),
    "C13": simple(H.nodeids, "the node id of every node is its position in document order.", sel("manuscript starting", "0 sections", "1 sections", "references", "citations", "proofs", "nesting", "constructs")),
    "C14": simple(H.depth, "the handrail depth of every node is the number of its ancestors that have a handrail (the statement of a step counts one more).", sel("proofs", "nesting", "manuscript starting", "constructs")),
    "C15": simple(H.toc, "the first table of contents is kept and lists every section, subsection and subsubsection exactly once, in document order, at its depth, with its number and title; further ones are removed with a warning.",
                  sel("table of contents", "tables of contents", "manuscript starting")),
    "C25": simple(H.steps, "a step with content holds one statement with everything before its first nested step, followed, if there are nested steps, by one sub-proof with exactly them; the last step of each proof, and only it, is marked.",
                  sel("proofs", "previous steps", "manuscript starting with Theorem", "nesting below", "constructs")),
    "C27": simple(H.classes, "constructs carry their kind and, unless they are claims, the assumption mark; section marks name their own level; no node loses a type it had.", sel("constructs", "proofs", "manuscript starting", "table of contents first")),
    "C28": simple(H.preserved,
                  "the transformation ends normally; no node is lost, doubled or moved, no text, title or position changes, and parent and child links agree.", None),
}
