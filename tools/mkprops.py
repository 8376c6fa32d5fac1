"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, na=None, note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, na=na, note=note,
                  technique=technique))


T, N, X, S = "rsm/transformer.py", "rsm/nodes.py", "rsm/translator.py", "rsm/tsparser.py"

prop("C01", "References lead to the node their label names",
     "A reference renders as one link to '#label', leading to the first node in document order that carries that label (later nodes with the same label lose it, with a warning), and shows the author's own text if given and otherwise the target's default text, such as 'Theorem 1.2' or the node's own reference text. A reference to a label that no node carries renders as a visible error naming the label, with a warning, and never as a link. In the HTML every id occurs exactly once and the id of each labelled node is on the element of that node, in both renderers.",
     ["inputs", "programs"], "every manuscript with any kinds of labelled nodes, any coincidences between labels and references, any place of the reference, both renderers",
     "The tests fix a handful of label patterns; which labels coincide, which kinds collide and where the reference stands are quantified over.",
     [T, X, N, S], [("label table and duplicate handling", T + ": collect_labels"), ("replacement of pending references", T + ": resolve_pending_references"), ("link and id attributes", X + ": _make_ahref_tag_text, AppendNodeTag")],
     ["rsm.render(source, handrails=...)", "warnings of the RSM logger"])
prop("C02", "Citations and bibliography back-links agree",
     "Each key of a citation renders, in the order written, as a link to its bibliography item showing the number printed with that item; a key that no bibliography item carries renders as a visible error naming it, with a warning, and harms nothing else. Each bibliography item shows one back-link per citing occurrence, numbered 1, 2, ... in document order, and each back-link leads to exactly one element: that citation. Every given field of an item (author, title, journal or publisher, year, DOI) is printed with it, and missing fields are merely left out.",
     ["inputs", "programs"], "any number of items and citations, any keys cited in any order and place, any subset of fields, both renderers",
     "Tests cite one or two fixed keys; the pairing of keys, citations and back-links is a relation over all patterns.",
     [T, X, S], [("cite targets and back-links", T + ": resolve_pending_references"), ("rendering of items and cites", X + ": visit_cite, visit_bibitem")],
     ["rsm.render(source, handrails=...)"])
prop("C03", "Automatic numbers follow document order and are shown alike",
     "Numbered nodes get 1, 2, 3, ... in document order: sections per manuscript, subsections per section, subsubsections per subsection, all theorem-like environments on one shared counter per section, equations and figures per section, tables, algorithms and bibliography items per manuscript, steps per (sub)proof; nodes marked as not numbered show no number and take none. After ':appendix:' the sections are numbered A, B, ..., Z, AA, ... and their contents are prefixed accordingly, while counters that run per manuscript go on unchanged. Headings, captions, table of contents, references and handrails all show that same number.",
     ["inputs", "programs"], "any sequence of numbered and unnumbered nodes of all kinds, with or without an appendix, both renderers",
     "Tests number a few fixed documents; counters interact across arbitrary sequences of kinds, scopes and unnumbered nodes.",
     [T, N, X], [("counters", T + ": autonumber_nodes"), ("composed number", N + ": Node.full_number"), ("display", X)],
     ["rsm.render(source, handrails=...)"])
prop("C04", "Node ids are unique, in document order, and faithful in HTML",
     "After processing, the nodes of a manuscript carry the ids 0, 1, 2, ... in document order (every node before its descendants), and looking a node up by its id returns that very node and, for ids not in use, nothing. In the HTML each node id occurs at most once, appears in document order, and marks an element of the kind of that node; the two renderers mark the same nodes.",
     ["inputs", "programs"], "any manuscript, both renderers",
     "Tests compare the ids of fixed documents only.",
     [T, N, X], [("id assignment", T + ": assign_node_ids"), ("look-up", N + ": get_child_by_id"), ("data-nodeid", X + ": _make_tag")],
     ["data-nodeid attributes", "get_child_by_id"])
prop("C05", "Tree edits keep the manuscript a tree, and failed edits change nothing",
     "Under any sequence of append, prepend, remove, replace, remove-self and clear, each node is listed exactly once among its parent's children and in no other node's, a node without parent is listed nowhere, and the order of children is the one the operations ask for. An edit that is refused (a node that already has a parent, a parent of a type not allowed for it, a node inside itself, a list that contains any such node) raises an error and leaves every node exactly as it was.",
     ["histories"], "all sequences of edits, up to a bounded length, on any nodes",
     "Doctests show single edits; the invariant is over histories including refused edits.",
     [N], [("edit operations", N + ": append, prepend, remove, replace_self, remove_self, clear, parent setter")],
     ["parent and children of every node"])
prop("C06", "All text reaches the page once, in order, and verbatim text unchanged",
     "All text written in paragraphs, list items, table cells, captions, notes, titles and inline markup appears in the HTML exactly once and in order, with runs of white space treated as one space, words never glued together or split, and a backslash before one of the delimiters : % $ ` * { # removed. The contents of math, code and algorithms appear character for character, apart from white space at their two ends, and comments never appear.",
     ["inputs"], "any text over letters, digits, punctuation and escaped delimiters, cut by inline markup and line breaks at any place, both renderers",
     "Tests fix a few strings; what is lost or glued depends on which neighbours, line breaks and escapes meet.",
     [S, X, "rsm/util.py"], [("white space normalisation and escapes", S + ": _normalize_text"), ("escape", "rsm/util.py: EscapedString"), ("verbatim", X + ": visit_sourcecode, visit_math")],
     ["text content of the HTML"])
prop("C07", "The HTML is well nested and mirrors the manuscript",
     "For any manuscript, both renderers produce HTML in which every element that is opened is closed in the right order and no attribute is repeated or left open. Each construct's element contains exactly the elements of what the author put inside it: theorems, proofs, steps, lists, tables, figures, notes, paragraphs and displayed math nest in the HTML as in the source, wherever displayed math stands: the text of a paragraph is in `<p>` elements of its own, displayed math between them.",
     ["inputs", "programs"], "any nesting of constructs within a bounded size, both renderers",
     "Tests compare fixed documents; balance depends on combinations of deferred closing tags.",
     [X], [("deferred closing tags", X + ": AppendBatchAndDefer, leave_*"), ("paragraph splitting around math blocks", X + ": visit_mathblock, leave_mathblock")],
     ["rsm.render(source, handrails=...)"])
prop("C08", "Documented constructs always render, with everything in them",
     "Any manuscript built from the documented blocks, inlines, stamps, shortcuts and meta keys, nested as documented, renders in both renderers without an exception, without being turned into an error and without a placeholder for an unknown node. What one author writes renders whatever stands before or after it: a part that renders in one manuscript also renders, with the same visible words, next to any other part.",
     ["inputs", "programs"], "any choice and nesting of documented constructs within a bounded size, both renderers",
     "Tests exercise constructs mostly one at a time, in fixed surroundings.",
     [S, T, X, N], [("abstraction", S + ": _abstractify"), ("visitor dispatch", X + ": get_action_method")],
     ["rsm.render(source, handrails=...)"])
prop("C09", "The table of contents mirrors the sections",
     "A table of contents lists every section, subsection and subsubsection of the manuscript exactly once, in document order, nested as the sections are nested, each entry linking to its section and showing exactly the number and title of its heading. If there are several tables of contents only the first is kept, with a warning, and without one nothing is added.",
     ["inputs", "programs"], "any section tree within a bounded size, with numbered and unnumbered sections, labels and appendices, both renderers",
     "Tests use two fixed section trees; nesting depends on the whole sequence of levels.",
     [T, X], [("construction", T + ": make_toc"), ("minimap", X + ": _make_minimap")],
     ["rsm.render(source, handrails=...)"])
prop("C10", "Proof steps are grouped, numbered and linked correctly",
     "Within a step, what precedes its first sub-step or explicit subproof is its statement and the sub-steps form one subproof, in order and at any depth, whether or not the author wrote the subproof; nothing is lost or duplicated. Steps are numbered 1, 2, ... within each (sub)proof and show their full number (such as ⟨1.2⟩), and ':prev:', ':prev2:' or ':previous:n:' link to exactly the n-th step before the enclosing one in the same (sub)proof. Asking for a step that does not exist, or outside any step, is refused with an error.",
     ["inputs", "programs"], "any tree of steps within a bounded size, any distance, both renderers",
     "Tests have a few fixed proofs.",
     [T, X], [("grouping", T + ": add_necessary_subproofs"), ("previous steps", T + ": resolve_pending_references"), ("step numbers", T + ": _autonumber_steps")],
     ["rsm.render(source, handrails=...)"])
prop("C11", "The linter reports exactly the faults present, where they are",
     "The linter reports a manuscript without a title, each section without a label and each displayed math that is not directly in a paragraph, exactly once each and nothing else, with the position (row and column, counting from 1) at which that node starts in the source. It never changes the manuscript or its rendering.",
     ["inputs", "programs"], "any manuscript within a bounded size",
     "There are no tests of reported positions, and few of the linter at all.",
     ["rsm/linter.py", "rsm/app.py"], [("rules", "rsm/linter.py"), ("positions", S + ": start_point")],
     ["records of level LINT", "rsm.lint()"])
prop("C12", "Options of the API and command line take effect, independently",
     "render, make and lint honour each option (source string or path, handrails, embedding of the source in pages with handrails, linting, log level, log format, time stamps, line numbers) independently of the other options, and the command line passes on every flag with that same meaning, printing the result unless silent. An option that is left out means no handrails for render and handrails and linting for make, no embedded source for render, log messages from warnings on, in the 'rsm' format, with time stamps and line numbers. Reading from a path or from the same text as a string gives the same result; giving both or neither is refused.",
     ["inputs", "configurations"], "all combinations of options",
     "Tests use single options; crossed options interact through positional arguments and shared logger state.",
     ["rsm/app.py", "rsm/cli.py", "rsm/reader.py"], [("option plumbing", "rsm/app.py"), ("flags", "rsm/cli.py")],
     ["return values", "configuration of the RSM logger", "standard output"])
prop("C13", "A build is complete and self-contained",
     "Building a manuscript writes index.html, holding the rendered body unchanged between a header and footer, with the manuscript's title, and a static folder with every script and style file of RSM byte for byte; every file the manuscript uses as a figure is copied byte for byte to where the page looks for it. The files end up in the requested destination and nowhere else, whatever number of figures there is.",
     ["inputs", "configurations"], "any number and naming of figures within bounds, any title, both renderers, any destination",
     "Tests build one document without assets.",
     ["rsm/builder.py", "rsm/writer.py", "rsm/manuscript.py"], [("assets", "rsm/builder.py: find_required_assets, mount_*"), ("writing", "rsm/writer.py")],
     ["files written"])
prop("C14", "Log messages are formatted and filtered as configured",
     "Whatever the record (any level, logger, message, with or without position), each log format yields its documented form: 'rsm' and 'json' contain the time exactly if time stamps are on and the line exactly if line numbers are on, 'json' is valid JSON that gives back level, name and message, and 'lint' is 'src:row:col: level: message' with 1:1 if no position is known. Records below the configured level are dropped and all others emitted once, however often logging is configured; the gathering handler keeps exactly the records of the chosen levels, in order, and passes each on once when flushed.",
     ["inputs", "configurations"], "all records and configurations within bounds",
     "Tests do not cover formatters or re-configuration.",
     ["rsm/rsmlogger.py"], [("formatters", "rsm/rsmlogger.py")],
     ["output of the handlers"])
prop("C15", "Runs do not influence each other",
     "Processing a manuscript gives the same HTML, the same tree and the same warnings whether or not other manuscripts were processed before in the same process, and whether parsers, transformers and translators are new or used before, also after a run that failed. Rendering the same tree again, with the same or the other renderer in between, gives the same HTML.",
     ["histories", "inputs"], "all pairs of manuscripts within bounds and all orders of rendering",
     "Tests process each document in a fresh object and look at it once.",
     [T, X, S, N], [("state kept on objects and classes", T + ", " + X)],
     ["rsm.render", "Transformer, Translator reuse"])
prop("C16", "Meta keys set exactly what they say on exactly their node",
     "Each meta key given on a block or inline, in whatever order and layout (own lines or braces), sets that attribute of that node and of no other, with values as documented: text without surrounding white space, lists split at their commas, flags true when present. Types become classes of the node's element, the label its id; title, author data, keywords, paths, scale and language show where documented; keys not given leave the defaults.",
     ["inputs", "programs"], "any subset and order of keys of each construct, any values within bounds",
     "Tests use a few fixed combinations.",
     [S, N, X], [("parsing of meta", S + ": _parse_meta_into_dict"), ("assignment", N + ": ingest_dict_as_meta")],
     ["attributes of nodes", "HTML attributes"])
prop("C17", "Handrails add interaction, not content",
     "The page with handrails shows the same content as the plain page: the same text in the same order for every paragraph, heading, list, table, figure, caption, math, proof and reference (only the word \"link\" of a bibliography item becomes an icon), the same ids and the same link targets. Each handrail it adds has its zones in order (collapse, menu, border, spacer, content, and info where present), its copy-link entry is enabled exactly if the node has a label (the title's always is, and items of the bibliography have none), and its step or equation number is the number of that node.",
     ["inputs", "programs"], "any manuscript within bounds",
     "Tests compare each renderer with fixed output, never one with the other.",
     [X], [("wrapping", X + ": HandrailsTranslator")],
     ["rsm.render(source, handrails=True/False)"])
prop("C18", "Tree queries agree with the tree",
     "Traversal visits every node of the subtree exactly once, parents before children and siblings in order, and with a condition or class yields exactly the matching ones in that order, also while visited nodes are replaced. First and last child of a type, previous and next sibling (of a type), nearest ancestor of exactly a type, and the S-expression dump all agree with the parent and child relation, and are absent exactly when no such node exists.",
     ["inputs", "programs"], "all trees up to a bounded size, all nodes and types",
     "Doctests show single queries on single trees.",
     [N], [("queries", N + ": traverse, first_of_type, last_of_type, prev_sibling, next_sibling, first_ancestor_of_type, sexp")],
     ["return values"])
prop("C19", "The controls of the page do what their handrails say",
     "In every state a reader can bring the page into by using its controls: (1) the collapse control of a heading, labelled block or proof step, used by mouse, with ',' or with Enter on the marked menu item, hides exactly the content of that handrail (the rest of the section; all but the label or statement) or shows it again, its icon and menu text say which, and nothing else changes; (2) 'collapse all' of a proof or step, by mouse, ';' or Enter, collapses (or, once used, expands) exactly the collapsible steps directly within; (3) dots and '.' open the menu of their handrail only, leaving or '.' closes it without marks, the arrows move one mark cyclically through an open menu and do nothing elsewhere; (4) 'copy link' copies the address of the page without fragment, '#' and the id of the element (the section's for headings; the address alone for the title) and tells success or failure; (5) j and k move the focus to the next or previous place that is not hidden, wrapping around and skipping only what is within collapsed handrails, h and l to the next or previous sibling, H to the top; the page scrolls only in that direction, to centre the element or align its top; (6) the minimap stands at entry k of n of the table of contents; the floating one is shown exactly while the table of contents is out of view and marks the last section in view; (7) an external library that cannot be had does not keep the rest from being set up. No script fails in any of this.",
     ["inputs", "histories", "faults"], "all states of the collapse controls, all controls, keys and menu marks, all positions of elements on the screen, clipboard and libraries working or not, on pages with every kind of handrail",
     "There are no tests of the scripts.",
     ["rsm/static/handrails.js", "rsm/static/keyboard.js", "rsm/static/minimap.js", "rsm/static/onload.js", "rsm/static/libraries.js", "rsm/static/icons.js"],
     [("collapsing, menus, links", "rsm/static/handrails.js: toggleHandrail, collapseAll, copyLink, setup"),
      ("keys", "rsm/static/keyboard.js: setup, focusUpOrDown, focusPrevOrNext, menuUpOrDown, maybeScrollToMiddle"),
      ("minimap", "rsm/static/minimap.js"), ("setting up", "rsm/static/onload.js")],
     ["elements shown, classes, focus, clipboard and scrolling after events"],
     note="Bounded: within the bounds stated per harness (evidence: coverage.harnesses) every path of the page's scripts, parsed from rsm/static on every run, is executed by a symbolic interpreter of JavaScript on a document model of a page rendered by RSM, and each assertion is decided by the solver for all values on that path. Trusted: the interpreter and the document model in /verif/jsx (validated by replaying path models in node, on the real scripts and a second document model), the three pages. Counterexamples are reported only after replay in node, where states are brought about by the reader's own actions only.",
     technique="symbolic execution of the page's real JavaScript (interpreter over its syntax tree, regenerated on every run), path by path, with z3 deciding branches and assertions")
prop("C20", "The grammar accepts exactly the documented markup",
     "Source text that follows the documented markup parses without error nodes and any other text is located as an error at its position.",
     ["inputs"], "all source texts",
     "Tests parse fixed texts.",
     ["tree-sitter-rsm"], [("generated parser", "compiled tree-sitter grammar")], ["concrete syntax tree"],
     na="the grammar is an empty submodule here; only its compiled parser tables (C, no source in the repository) are present, so there is no code of this repository to encode; C06, C08 and C16 exercise it concretely on class representatives")

CLAIMED = None  # None: all but na


def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, nas = [], []
    for p in P:
        have = os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".py"))
        if p["na"] or not have:
            nas.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt run.py {p['id']} quick",
            "thorough_cmd": f"python3-vt run.py {p['id']} thorough",
            "technique": p["technique"] or "symbolic execution of the real Python code, path by path, with z3 deciding branches and assertions",
            "level": "model_checking",
            "level_note": p["note"] or "Bounded: within the bounds stated per harness (evidence: coverage.harnesses) every path of the real code is explored and each assertion decided by the solver for all values on that path; 'exhaustive' says whether the bounded space was finished. Trusted: the symbolic string model (validated by replaying path models on the unmodified code), the compiled grammar run on class representatives, the oracle in /verif. Counterexamples are reported only after replay on the real code.",
        })
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import tree_sitter'",
         "checks": checks, "not_applicable": nas,
         "notes": "Symbolic execution engine in symex/, one harness per property in harness/, replay of counterexamples on the real code by tools/concrete.py. No hooks in /repo are needed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)


write()
