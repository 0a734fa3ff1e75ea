#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the one list below (run by hand when the list changes)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import REGISTRY  # noqa: E402

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))


AI = "static analysis: abstract interpretation of the Python source (trace partitioning, string-template domain)"
AIN = ("Bounded-shape static argument: all field values, labels, texts and flags of the analysed manuscripts are unknowns, every class and every "
       "legal parent/child pair is covered; child sequences and nesting are covered up to the lengths of the listed shapes. Trusts the analyser's model of "
       "Python and of the external libraries; paths through unsupported constructs are reported as undecided, never as violations.")
TR = ["rsm/translator.py", "rsm/nodes.py"]

prop("C01", "Output markup is always well formed",
     "For every manuscript tree and both output modes, the HTML that translation produces has every element closed in the right order, "
     "no stray closing tags and no repeated attribute, and no display-math block stands directly inside a paragraph element.",
     ["inputs", "programs"], "every manuscript tree built from the node classes, any labels, titles, types, numbers and flags, both output modes",
     "The tests compare the output of a few dozen fixed manuscripts; tags are opened and closed by deferred commands in different methods, so a combination of node, parent, label and flag that no fixture contains can unbalance them.",
     TR, [("edit command stack: each visit pushes the closing text that leave pops", "rsm/translator.py: Translator.push_visit/push_leave, EditCommand classes"),
          ("tag factory", "rsm/translator.py: _make_tag")], ["the string returned by Translator.translate and HandrailsTranslator.translate"], AI, AIN)

prop("C02", "Every handrail is complete",
     "In the output with handrails, each handrail consists of its collapse, menu, border, spacer, content and info zones, once each and in that order, "
     "with its content inside the content zone; proofs, steps, theorems, paragraphs, math blocks and author blocks always get one, headings stand in a handrail of their own, "
     "a labelled handrail holds exactly one label, and its 'copy link' entry is enabled exactly when the element has an anchor to link to.",
     ["inputs", "programs"], "every manuscript tree, any labels, types, flags and depths",
     "Fixtures show some nodes in some positions; zones are assembled by index into command batches that other methods build, so an unusual combination silently puts them in the wrong place.",
     TR, [("handrail wrappers", "rsm/translator.py: HandrailsTranslator._replace_batch_with_handrails, _wrap_item_with_handrails"),
          ("menu", "rsm/translator.py: HandrailsTranslator._hr_menu_zone")], ["output of HandrailsTranslator.translate"], AI, AIN)

prop("C03", "Identifiers are unique and every internal link has its target",
     "In the output of any manuscript tree, no two elements share an id or a node id, no id is empty, every label is the id of an element, "
     "and every internal link (reference, table of contents, citation, back link) points to the label of the node it refers to.",
     ["inputs", "programs"], "every manuscript tree whose labels are distinct, any reference, citation or table of contents in it",
     "Tests check single references; a label of a node class or a link kind that they do not use can be lost or doubled unnoticed.",
     TR, [("ids", "rsm/translator.py: AppendNodeTag, AppendOpenTag"), ("links", "rsm/translator.py: visit_reference, visit_cite, visit_bibitem, visit_contents")],
     ["id, data-nodeid and href attributes of the output"], AI, AIN)

prop("C04", "All content of the manuscript reaches the output",
     "Every piece of text in a manuscript tree is output exactly once and in document order, and so is each content field (titles, author name, affiliation and email, "
     "abstract keywords and MSC, bibliography author, title, year, journal or publisher and DOI, figure path and scale, span formatting); "
     "the output with handrails shows the same text as the plain output.",
     ["inputs", "programs"], "every manuscript tree, any field contents, both output modes",
     "Loss of content shows only for the combination of fields that loses it; tests fix one combination per node.",
     TR, [("visit methods append the content", "rsm/translator.py: visit_*"), ("overrides keep what the base emits", "rsm/translator.py: HandrailsTranslator.visit_*")],
     ["text of the output"], AI, AIN)

prop("C05", "Translation never fails",
     "Translating any transformed manuscript tree, in either output mode, ends normally with a string: no exception and no endless loop, whatever fields are empty, unknown or missing.",
     ["inputs", "programs"], "every manuscript tree with resolved references, any combination of present and absent fields",
     "Each test manuscript sets most fields; the failing case is the absent one.",
     TR, [("visit/leave dispatch", "rsm/translator.py: Translator.translate, get_action_method")], ["outcome of translate"], AI, AIN)

prop("C06", "Translation does not modify the manuscript",
     "Translating a manuscript tree leaves every node of it as it was: same parents, children, labels, types, numbers and other fields, so the same tree can be translated again or in the other mode.",
     ["inputs", "histories"], "every manuscript tree, both output modes",
     "Tests translate each tree once and look at the output only.",
     TR, [("output-only classes are added by the transformer, not by the translators", "rsm/transformer.py: Transformer.add_types_for_output"),
          ("translators copy before they extend", "rsm/translator.py: _make_title_node, batches")], ["the tree after translate"],
     "static analysis: effect analysis on an abstract interpretation (all manuscript nodes frozen)", AIN)

prop("C07", "Translators can be used again",
     "A translator gives for a manuscript the same output whether it is new or has translated other manuscripts before, including one whose translation failed, and it changes no state that translators share.",
     ["histories"], "every sequence of a previous translation (finished or failed) and the next one",
     "Tests build a new translator every time, so state left over from an earlier use never shows.",
     TR, [("state reset at the start of translate", "rsm/translator.py: Translator.translate")], ["output of the second translation"],
     "static analysis: relational abstract interpretation (fresh versus used translator) and shared-state effect analysis", AIN)

AIT = "static analysis: abstract interpretation of the transformer source over unknown labels and texts"
TF = ["rsm/transformer.py", "rsm/nodes.py"]
MANU = "every manuscript tree the grammar admits, any labels (empty, equal or distinct), numbered or not"

prop("C11", "References and citations are resolved, or visibly reported",
     "After transformation, every reference, citation and reference to a previous step stands resolved in its place: it links to the first element with that label, or is a visible error "
     "naming the unknown label together with a logged warning, and it keeps its own link text. The first element with a label keeps it and later ones lose it with a warning; "
     "citations get distinct labels, and a bibliography entry links back to exactly the citations that cite it.",
     ["inputs", "programs"], MANU + ", any targets",
     "Tests use one or two fixed labels; which element wins, and what is reported, depends on equalities between labels that fixtures do not vary.",
     TF, [("label table", "rsm/transformer.py: collect_labels, _label_to_node"), ("replacement of pending nodes", "rsm/transformer.py: resolve_pending_references")],
     ["the transformed tree", "the log"], AIT, AIN)
prop("C12", "Numbers follow the structure of the manuscript",
     "Sections count from 1, subsections within their section and subsubsections within their subsection; all theorem-like environments share one counter and, like equations and figures, restart at each section; "
     "tables, algorithms and bibliography entries count through the manuscript, steps count within their proof, sections after the appendix mark get letters, and elements marked as unnumbered neither get nor use up a number. "
     "The full number joins the numbers of the enclosing elements with dots, and the default text of a reference shows it.",
     ["inputs", "programs"], MANU,
     "Tests number a few fixed manuscripts; counters interact through order and nesting, which cannot be sampled out.",
     TF, [("counters", "rsm/transformer.py: autonumber_nodes, _autonumber_steps"), ("scopes", "rsm/nodes.py: _number_within, _number_as, full_number, reftext")],
     ["number, full_number and reftext of the nodes"], AIT, AIN)
prop("C13", "Node ids are the positions in document order",
     "After transformation, the node ids of a manuscript are 0, 1, 2, ... in document order: every node has one, and none is used twice.",
     ["inputs", "programs"], MANU, "Tests look at single ids in fixed trees.",
     TF, [("numbering last", "rsm/transformer.py: transform, assign_node_ids")], ["nodeid of the nodes"], AIT, AIN)
prop("C14", "Handrail depth counts the enclosing handrails",
     "After transformation, the handrail depth of every node is the number of its ancestors that are theorem-like environments, proofs, sketches or steps; only the statement of a step counts one more.",
     ["inputs", "programs"], MANU, "Tests show shallow nestings of a few classes.",
     TF, [("depth", "rsm/transformer.py: add_handrail_depth; rsm/nodes.py: has_handrail")], ["handrail_depth of the nodes"], AIT, AIN)
prop("C15", "The table of contents lists every section once, in order",
     "A table of contents lists every section, subsection and subsubsection of the manuscript exactly once, in document order, nested to its depth, with its number (if it has one) and title, and links to it; "
     "if there are several tables of contents the first one is kept and the others are removed with a warning.",
     ["inputs", "programs"], MANU + ", any position of the table of contents",
     "The running insertion point depends on the whole sequence of section depths; tests have a few.",
     TF, [("insertion point", "rsm/transformer.py: make_toc")], ["the Contents node after transform"], AIT, AIN)
PS = ["rsm/tsparser.py", "rsm/nodes.py", "rsm/util.py"]
prop("C16", "Every construct of the language becomes the node it stands for",
     "Parsing turns every construct of the source (blocks, inline tags and their shorthands, constructs, math, code, lists, tables, figures, sections in both notations, references, links, "
     "citations, bibliography entries) into the node of its class, with its kind, target, link text, keys or entry fields, in source order and directly under the node of the enclosing construct, "
     "whatever the words in it; comments change nothing.",
     ["inputs", "programs"], "every concrete syntax tree of the grammar, any words, a comment at any place",
     "Each test parses one short snippet; the mapping depends on the surroundings of the construct (comments, metadata, position among its siblings), of which no test has more than a few.",
     PS, [("one loop over the concrete tree with a case per construct", "rsm/tsparser.py: _abstractify, CST_TYPE_TO_AST_TYPE, PUSH_THESE_TYPES")],
     ["class, fields, parent and order of the nodes returned by TSParser.parse"], AI, AIN)

prop("C17", "Syntax errors are reported and the rest of the manuscript is kept",
     "Wherever the parser generator marks a syntax error, parsing does not fail: a record of level WARNING or above states the position of the error, "
     "and everything outside the erroneous part is in the resulting manuscript as if the error were not there.",
     ["inputs", "crash points"], "an error node at any place of any concrete syntax tree of the grammar",
     "The tests contain a dozen malformed sources; an error can be at any gap between two tokens, and most handlers index into the children of a construct.",
     PS, [("errors become visible nodes, or are reported at the end", "rsm/tsparser.py: _abstractify, _warn_error, _warn_unreported_errors")],
     ["exceptions and log records of TSParser.parse, and its result"], AI, AIN)

prop("C18", "Text survives parsing",
     "Each text of the source appears in the manuscript exactly once and in order. It is changed only in the amount of its white space and by removing the backslash before an escaped delimiter (in text and titles); "
     "verbatim text (math, code, algorithms) keeps every character between its ends. Words on different lines, and text and inline constructs that are apart in the source, stay apart; those that abut stay together (except that spans, constructs and formulas next to one another are always set apart).",
     ["inputs"], "every concrete syntax tree of the grammar, any words, delimiters and white space",
     "White space is trimmed, merged and re-inserted in several places that depend on the neighbours of a text; tests cover few neighbourhoods.",
     PS, [("white space and escapes", "rsm/tsparser.py: _normalize_text and the end of _abstractify; rsm/util.py: EscapedString.escape")],
     ["texts of the nodes returned by TSParser.parse"], AI, AIN)

prop("C26", "Metadata reaches its node, and every node knows its source",
     "Every metadata key that the source gives to an element (label, types, reftext, nonum and the keys of its class, in block or inline notation, any number and order) is in the corresponding field of its node, "
     "trimmed, lists split into their items; fields not mentioned keep their defaults, and every node that stands for a construct carries the start and end position of that construct.",
     ["inputs"], "every construct that takes metadata, every key of its class, any values",
     "Tests set one or two keys on a few constructs; each kind of construct hands its metadata over on its own path.",
     PS, [("metadata", "rsm/tsparser.py: _parse_meta_into_dict, _parse_metakey_*; rsm/nodes.py: Node.ingest_dict_as_meta")],
     ["fields and start_point/end_point of the nodes returned by TSParser.parse"], AI, AIN)

prop("C25", "Proof steps are split into statement and sub-proof without loss",
     "After transformation, a step that has content holds exactly one statement with everything that came before its first nested step and, if it has nested steps, exactly one sub-proof holding them in their order; "
     "an empty step stays empty, and the last step of each proof, and no other, is marked as the last.",
     ["inputs", "programs"], "every proof, any content, number and nesting of steps", "Tests have a handful of proofs.",
     TF, [("restructuring", "rsm/transformer.py: add_necessary_subproofs, add_types_for_output")], ["the transformed tree"], AIT, AIN)
prop("C27", "Elements carry the marks that styling relies on",
     "After transformation every construct is marked with its kind, and as an assumption exactly if it is not a claim-like kind (then, suffices, claim, prove, qed), level marks of sections name their own level, "
     "and no element loses a type the author gave it.",
     ["inputs", "programs"], MANU + ", every construct kind", "Tests check a few construct kinds.",
     TF, [("marks", "rsm/transformer.py: add_keywords_to_constructs, add_types_for_output")], ["types of the nodes"], AIT, AIN)
prop("C28", "Transformation keeps the manuscript's content",
     "Transforming a manuscript ends normally and returns the same tree, in which every original node except resolved placeholders and surplus tables of contents is still present exactly once, in the same order, "
     "with the same text, title and source position, and in which parent and child links agree.",
     ["inputs", "programs"], MANU, "Tests compare selected parts of fixed trees.",
     TF, [("mutators", "rsm/nodes.py: append, clear, replace_self, remove_self"), ("passes", "rsm/transformer.py: transform")], ["the transformed tree"], AIT, AIN)

APP = ["rsm/app.py", "rsm/cli.py"]
prop("C08", "Output is a function of the manuscript alone",
     "Processing the same manuscript again gives the same result, the same files with the same contents and the same log records (apart from their time): in the same process or another one, whatever was processed before or failed, "
     "and whatever order of sets, memory addresses, hash seed, clock, random numbers or environment the run happens to have.",
     ["inputs", "histories", "programs"], "every manuscript, any manuscripts processed before it, any state of the process",
     "Tests run each snippet once in one process; a result that depends on the hash seed or on what ran before shows only by comparison of runs.",
     APP + ["rsm/transformer.py", "rsm/translator.py", "rsm/tsparser.py", "rsm/nodes.py", "rsm/builder.py"],
     [("state of the stages", "rsm/transformer.py: Transformer.transform; rsm/translator.py: Translator.translate"), ("sets", "rsm/nodes.py: Node.metakeys, sexp"), ("applications", "rsm/app.py: render, lint, make")],
     ["results, files and log records of two runs"], "static analysis: relational abstract interpretation (self-composition over everything that Python leaves open)", AIN)
prop("C09", "Effects on the outside are confined to the documented ones",
     "render and lint write no file and read none but the manuscript they are given; make writes only index.html and files directly in static/ below the current directory (Writer: below its destination), "
     "and reads only the manuscript, the package's own static files and the images of the manuscript. None of the three prints to standard output, starts processes or uses the network, "
     "and no stage (parser, transformer, linter, translators) touches the outside at all.",
     ["inputs", "programs"], "every manuscript, given as text or as a path, any option of the applications",
     "A test sees the one file it looks for; that no call anywhere writes or reads something else is a statement about all code that a run can reach.",
     APP + ["rsm/builder.py", "rsm/writer.py", "rsm/manuscript.py", "rsm/reader.py", "rsm/asset_resolver.py"], [("reading the source", "rsm/reader.py: Reader.read"), ("building in memory", "rsm/builder.py: BaseBuilder, FullBuilder"), ("the only writer", "rsm/writer.py: Writer.write")],
     ["file system", "standard output"], "static analysis: call-graph effect rule and abstract interpretation with effect tracking", AIN)
prop("C10", "Every option has its effect and no other",
     "The applications accept exactly one of source and path and refuse anything else before any work. handrails, add_source and lint switch exactly what they name; log level, format, time and line number "
     "decide which records appear and how, with one line per record, however often an application ran before. A command line means the same as the call with the documented options, prints the result unless silent, and returns 0.",
     ["inputs", "histories"], "every combination of the options, every order of runs in one process",
     "Options multiply; tests try them one at a time, in a fresh process.",
     APP + ["rsm/rsmlogger.py"], [("option handling", "rsm/app.py: ParserApp, ProcessorApp, FullBuildApp, render, lint, make; rsm/cli.py"), ("logger configuration", "rsm/rsmlogger.py: config_rsm_logger")],
     ["return values, printed output and log lines of rsm.app and rsm.cli"], "static analysis: relational abstract interpretation over all option combinations", AIN)
prop("C19", "Every log record comes out once, complete and readable",
     "Each record that a stage logs appears exactly once if its level is enabled, can be formatted in each of the four formats, and carries the whole position of its element or none; "
     "no log call makes the run fail, and the gathering handler passes on exactly the records of its levels, in order, once.",
     ["inputs", "programs"], "every manuscript, with and without syntax errors, all log levels and formats",
     "Formatting and position are supplied by each of the log calls in the package, most of which no test reaches.",
     ["rsm/rsmlogger.py", "rsm/tsparser.py", "rsm/transformer.py", "rsm/linter.py"], [("formatters", "rsm/rsmlogger.py: RSMFormatter, JSONFormatter, LintFormatter"), ("gathering", "rsm/rsmlogger.py: GatherHandler")],
     ["log lines"], AI, AIN)
prop("C20", "The built page finds every file it refers to",
     "Every local file that the page built by make refers to, and every file that a script or style sheet built with it refers to, is among the files built; "
     "every name a script imports is exported by its source; and every image of the manuscript is copied to static/ under its own name.",
     ["inputs", "programs"], "every manuscript, with and without handrails",
     "Tests look for index.html and a few files; a script or asset that is renamed in one place fails only in the browser.",
     ["rsm/builder.py", "rsm/asset_resolver.py", "rsm/static/"], [("page head and static files", "rsm/builder.py: SingleFileBuilder.make_html_header, FullBuilder.mount_static, mount_required_assets"), ("scripts", "rsm/static/onload.js and the scripts it imports")],
     ["files of the build"], "static analysis: abstract interpretation of the builder, cross-checked with the import graph of scripts and style sheets", AIN)
prop("C21", "The applications are the composition of their stages",
     "render returns exactly the translation of the parsed and transformed manuscript, lint the transformed manuscript, and make writes exactly the build of the translation; "
     "no stage is skipped, repeated or given anything but the result of the one before. A source that cannot be parsed is reported as an error, gives an empty result and writes nothing.",
     ["inputs", "programs"], "every manuscript, given as text or as a path, any option",
     "Tests compare the output of the applications on a few snippets, not with what the stages give.",
     APP + ["rsm/builder.py", "rsm/writer.py"], [("pipeline", "rsm/app.py: Pipeline.run, LinterApp, ProcessorApp, FullBuildApp")],
     ["return values and files written"], "static analysis: relational abstract interpretation (application versus its stages)", AIN)
prop("C22", "Editing a tree keeps it a tree",
     "After append, prepend, remove, remove_self, replace_self, clear or setting a parent, the nodes concerned are exactly where the call says, in order; every child names its parent and every parent lists its child once; "
     "a call that is refused (wrong kind of parent, node that has a parent, no such child) raises an RSM error and changes nothing.",
     ["inputs", "histories"], "every node class, argument form and sequence of edits",
     "Tests call each method once on a node or two; which sibling is moved when several are equal, or what a refused call leaves behind, is not looked at.",
     ["rsm/nodes.py"], [("mutators", "rsm/nodes.py: Node.append, prepend, remove, remove_self, replace_self, clear, parent")], ["parent and children of the nodes"], AI, AIN)
prop("C24", "The linter reports exactly the defects of the manuscript",
     "Linting logs, at the LINT level and with the one-based position of the element, one record for a manuscript without title, for each unlabelled section of any level and for each math block that is not in a paragraph, and no other; "
     "it returns the tree unchanged, and linting again gives the same records.",
     ["inputs", "histories"], "every manuscript tree, any labels, titles and positions",
     "Tests lint two or three fixed trees.",
     ["rsm/linter.py"], [("rules", "rsm/linter.py: Linter.lint_manuscript_title, lint_section_label, lint_mathblock_inside_paragraph")], ["log records of Linter.lint"], AI, AIN)
prop("C29", "Tree queries give what the tree says",
     "traverse visits every node (of a class, of derived classes, or satisfying the condition) once in document order; the previous and next sibling, the first ancestor and the first of a type are the nearest ones that qualify; "
     "a search by node id finds that node; the s-expression lists every node once in its place; and no query changes the tree.",
     ["inputs"], "every tree, every node and class asked for",
     "The passes of the package rely on these queries for trees that the tests of the queries never contain.",
     ["rsm/nodes.py"], [("queries", "rsm/nodes.py: Node.traverse, prev_sibling, next_sibling, first_ancestor_of_type, first_of_type, last_of_type, get_child_by_id, sexp, metakeys")],
     ["return values"], AI, AIN)

prop("C30", "The page has the structure its scripts act on",
     "On the page of every manuscript with handrails, each menu entry that is shown as enabled is one that the scripts attach an action to, and finds something to act on (a collapse entry has content to collapse, a labelled handrail has its label); "
     "every icon has a drawing; everything the scripts look for exists under the class or id they use; and every reference to a labelled element, other than a part of a table or a caption, shows that element in its tooltip.",
     ["inputs", "programs"], "every manuscript tree, all classes of reference targets, any labels, nesting of proofs and steps",
     "Page and scripts are written apart and agree only by class names; no test runs the scripts, and a name changed on one side fails silently in the browser.",
     ["rsm/translator.py", "rsm/static/handrails.js", "rsm/static/keyboard.js", "rsm/static/minimap.js", "rsm/static/tooltips.js", "rsm/static/icons.js"],
     [("zones, menus and icons", "rsm/translator.py: HandrailsTranslator._hr_menu_zone, _step_handrails, visit_contents"), ("selectors", "rsm/static/handrails.js: setup, collapseAll, getRest"), ("kinds of tooltip targets", "rsm/static/tooltips.js: createTooltips"), ("drawings", "rsm/static/icons.js: icons")],
     ["the page, and selectors, ids and class names in the scripts"], "static analysis: abstract interpretation of the translator, cross-checked with selectors extracted from the scripts",
     AIN + " Scripts are read as text: selectors that are constants or templates over constants; what a handler does once it is attached is not analysed.")

prop("C31", "The page is one document that holds the manuscript",
     "The page that make writes is one well-formed HTML document in UTF-8 with one head and one body; it contains the translation of the manuscript exactly once and unchanged, and its title is the title of the manuscript, or empty if it has none.",
     ["inputs"], "every manuscript, with and without title, sections and verbatim text, both modes",
     "Tests build one page and look for a few words in it.",
     ["rsm/builder.py"], [("the page", "rsm/builder.py: SingleFileBuilder.make_main_file, make_html_header, _extract_title")], ["index.html"], AI, AIN)

# ---------------------------------------------------------------- not applicable
prop("N01", "The rendered page looks right in a browser",
     "For every manuscript, the page shown by a browser lays out handrails, math and sections as designed.",
     ["inputs"], "every manuscript and browser", "Visual tests sample a few pages.",
     ["rsm/static/"], [("stylesheets and scripts", "rsm/static")], ["the screen"],
     na="Layout is decided by a browser's CSS and JavaScript engine at run time; no static argument over this repository's source bounds it.")
prop("N02", "Incremental output stays within memory and stack limits",
     "However deep and long a manuscript is, building it needs bounded stack.",
     ["inputs"], "manuscripts of any depth and length", "Tests are small.",
     ["rsm/nodes.py", "rsm/translator.py"], [("iterative traversal", "rsm/nodes.py: Node.traverse")], ["process memory"],
     na="Recursion depth follows the nesting depth of the input (full_number recurses over enclosing steps); the bound is a run-time quantity.")

prop("C23", "Escaped characters are not found",
     "find and index of an EscapedString give the position of the first occurrence that no backslash precedes, or none; escape removes exactly the backslashes before its escape characters.",
     ["inputs"], "every text, set of escape characters and range of positions", "Tests sample a few texts.",
     ["rsm/util.py"], [("search", "rsm/util.py: EscapedString.find, index")], ["positions returned"],
     na="The results are positions in strings of any length; the template domain of this analysis has no lengths of unknown texts, and enumerating concrete strings would be a run-time test. "
        "What manuscripts depend on (escape) is decided within C18; an endless loop found while reading (index) is repaired.")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        if p["na"] or p["id"] not in REGISTRY:
            na.append({"property": p["id"], "reason": p["na"] or "its check is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
