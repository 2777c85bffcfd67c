"""The list of properties; ``python3 -m vp.spec`` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(
        spec=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


NOTE = ("Generated-input search with a fixed budget of cases: no counterexample was found in that many "
        "cases, which does not prove absence. Trusts ")


prop("C01", "Lexing any text with a bundled language is total, faithful and repeatable",
     "For every bundled language and every text, lexing comes to an end without an error and yields non-empty "
     "tokens in text order that do not overlap, each with exactly the text found at its position, and it "
     "yields the same result every time. The tree built from it and the events it was built from agree, each "
     "token in the tree is of the kind the language's rules give at that place, and the tree is well-formed: "
     "children know their parent, no context but the root is empty, and tokens that belong together as a "
     "group are marked as such.",
     ["inputs", "configurations"], "every text, every bundled language",
     "The tests lex a handful of texts per language; rules interact (contexts nest, patterns look ahead), so "
     "faults appear in combinations of text fragments nobody wrote down.",
     ["parce/lexer.py", "parce/lexicon.py", "parce/treebuilder.py", "parce/tree.py", "parce/lang/"],
     [("Lexer.events", "parce/lexer.py"), ("Lexicon.parse", "parce/lexicon.py"),
      ("build_tree", "parce/treebuilder.py"), ("make_tokens", "parce/tree.py")],
     ["parce.root(), parce.events()"],
     "fuzzing of the bundled languages with mutated snippets against structural invariants and a reference interpreter of the languages' rules",
     NOTE + "the rule definitions of the bundled languages themselves: whether a language colours its source sensibly is not decided.")

prop("C02", "Every language definition is lexed as the rule semantics prescribe",
     "For every language definition and text, the tokens and nested contexts are the ones the documented rules "
     "give: at each position the first matching rule in order wins, its action decides the tokens and its target "
     "which contexts are left and entered, text no rule matches is skipped or handled by the default action or "
     "default target, and matches for dynamic rule items are computed from the matched text and the context's "
     "argument. Contexts that stay empty leave no trace, and leaving more contexts than are open stops at the root.",
     ["programs", "inputs"], "every language definition with rules built from the rule items and every text",
     "The tests use a few toy languages; actions, targets, defaults, flags and dynamic items combine freely.",
     ["parce/lexer.py", "parce/lexicon.py", "parce/rule.py", "parce/ruleitem.py", "parce/target.py"],
     [("Lexicon.parse", "parce/lexicon.py"), ("Lexer.events", "parce/lexer.py"),
      ("Lexer.filter_actions", "parce/lexer.py"), ("Target/TargetFactory", "parce/target.py")],
     ["parce.root(), parce.events()"],
     "random language definitions and texts, differential against an independent reference lexer",
     NOTE + "the reference lexer in vp/langgen.py and Python's re module.")

prop("C03", "Updating a tree after an edit gives the tree built from scratch",
     "After every edit of a text, the updated tree is identical to a tree built from scratch of the new text: the "
     "same contexts and tokens, at the same positions, with the same groups, and the same list of lexicons left "
     "open at the end. This holds after every sequence of edits, for every language in which a change does not alter how text "
     "far before it is recognized.",
     ["histories", "inputs", "programs"], "every history of single edits, every text and language whose rules look ahead no further than the few tokens the update looks back",
     "The tests do some hundreds of edits in a few texts; the reuse of old tokens before and after the edit depends on the whole history.",
     ["parce/treebuilder.py", "parce/treebuilderutil.py", "parce/tree.py"],
     [("TreeBuilder.build_new_tree", "parce/treebuilder.py"), ("TreeBuilder.replace_tree", "parce/treebuilder.py"),
      ("get_prepared_lexer", "parce/treebuilderutil.py"), ("Token.equals", "parce/tree.py")],
     ["TreeBuilder.root", "TreeBuilder.lexicons"],
     "generated edit histories over generated and bundled languages, differential against a tree built from scratch",
     NOTE + "a full rebuild as the oracle (decided by C01 and C02); edits that change tokens more than 8 tokens before the edited place are outside the domain, because updating then knowingly looks back 10 tokens only.")

prop("C04", "The reported updated range covers everything that changed in the tree",
     "After every edit, or several edits handled together, the reported updated range lies within the text, "
     "contains the edited text, and every token that lies completely before or after that range is unchanged, apart from "
     "being moved along with the text. Each processing reports, in order, that it started, that the tree will be replaced, "
     "the updated range and that it finished; a new root lexicon updates the whole text.",
     ["histories", "schedules", "inputs"], "every history of edits, also queued or arriving while the tree is being built",
     "A range that is too small is only visible when a token outside it changes, which depends on language, text and edit.",
     ["parce/treebuilder.py", "parce/treebuilderutil.py"],
     [("TreeBuilder.process", "parce/treebuilder.py"), ("TreeBuilder.build_new_tree", "parce/treebuilder.py")],
     ["TreeBuilder.start, TreeBuilder.end", "updated event"],
     "generated edit histories, comparing the tokens before and after with the reported range",
     NOTE + "the harness's reading of the live tree.")

prop("C05", "Edits that queue up or arrive while the tree is being built are not lost",
     "When edits and changes of the root lexicon arrive at any moment, before the processing, between its stages or while a new tree "
     "is being built, the tree, its root lexicon and the list of open lexicons in the end are those of the newest text "
     "and newest root lexicon, built from scratch. Processing always comes to an end and never runs twice at the same time.",
     ["schedules", "histories", "inputs"], "every placement of edits between the steps of the processing",
     "The tests only edit when the tree is complete; the moments at which a change can arrive are not under their control.",
     ["parce/treebuilder.py", "parce/treebuilderutil.py"],
     [("Changes.add", "parce/treebuilderutil.py"), ("TreeBuilder.build_new_tree (restart)", "parce/treebuilder.py"),
      ("TreeBuilder.process", "parce/treebuilder.py")],
     ["TreeBuilder.rebuild()", "TreeBuilder.root"],
     "the harness owns the schedule: edits are injected at generated stages and lexer events, differential against a tree built from scratch",
     NOTE + "a full rebuild as the oracle; combined edits outside the domain of C03 are left out.")

prop("C07", "Transforming a text, a tree and an updated tree give the same result",
     "Transforming a text directly, transforming the tree built from it, and keeping a transformer connected to a tree "
     "that is edited all give the same result, which is the one the documentation prescribes: each context's method is called with the context's tokens "
     "and the results of its child contexts, in text order, with the lexicon's argument, while child contexts without a method are left out or, if asked for, given untransformed. "
     "The list a method gets tells its tokens from its items, compares a run of them with actions and names at any index, and groups objects by name, None for those missing. "
     "After every edit, for every tree a shared transformer serves, the result is that of the current tree, and one started, updated and finished event is reported.",
     ["programs", "inputs", "histories"], "every language, transform (methods, disabled and missing ones), text and history of edits",
     "The cached results of unchanged contexts are reused; which ones must be dropped depends on the edit and the language.",
     ["parce/transform.py"],
     [("Transformer.build", "parce/transform.py"), ("Transformer.invalidate_node", "parce/transform.py"),
      ("Transformer.transform_text", "parce/transform.py")],
     ["Transformer.transform_text()", "Transformer.transform_tree()", "Transformer.result()"],
     "generated languages, transforms and edit histories, differential between the three ways and against a reference transform",
     NOTE + "the reference transform in vp/props/c07.py and the tree (decided by C01 to C05).")

prop("C08", "A mutable string or document is the string it holds, and edits are atomic",
     "Reading and modifying a document or mutable string by index, slice, insert, append or whole text behaves exactly as on a plain string. "
     "Edits made in an edit context all refer to the original text and become visible together when the outermost context is left, are all "
     "dropped when it is left by an exception, and are refused when they overlap, after which the document remains usable. Every change is reported once, with a position, "
     "number of removed and number of added characters that exactly describe it, and increases the revision by one.",
     ["histories", "inputs", "faults"], "every history of edits, nested contexts and exceptions",
     "The tests make a few edits; contexts nest, overlap and fail in many combinations.",
     ["parce/mutablestring.py", "parce/document.py"],
     [("AbstractMutableString.__exit__", "parce/mutablestring.py"), ("AbstractMutableString.__setitem__", "parce/mutablestring.py"),
      ("AbstractDocument.text_changed", "parce/document.py")],
     ["Document.text()", "text_change event", "Document.revision()"],
     "model-based histories against a plain str with an independent merge of edits",
     NOTE + "the model in vp/props/c08.py; the outcome of two replacements starting at the same position in one context is not documented and not decided.")

prop("C09", "Undo and redo restore the text and the modified state exactly",
     "After every history of edits, undoing and redoing moves through exactly the texts the document had, one step per edit or edit context, "
     "a new edit drops the steps that could be redone, and undoing or redoing while editing is refused. The modified flag of each of those texts "
     "comes back with it, also when the flag was reset at some point in between. Whether undo and redo are available and whether the document is modified is reported whenever it changes, and only then.",
     ["histories"], "every history of edits, undo, redo, and modified flag changes",
     "The state at each step depends on the whole history.",
     ["parce/document.py"],
     [("Document.undo, redo", "parce/document.py"), ("AbstractDocument.modified", "parce/document.py")],
     ["Document.text(), modified, can_undo(), can_redo()", "undo_available, redo_available, modification_changed events"],
     "model-based histories against a list of states",
     NOTE + "the model in vp/props/c09.py.")

prop("C10", "Cursors stay at the text they point to",
     "Whatever edits are made, every cursor keeps pointing to the same text: it moves along when text is inserted or removed before it, the selection "
     "grows when text is inserted within it, and a cursor whose text is removed ends at the place of removal. Several edits applied together, and undo and redo, move a cursor as the separate edits "
     "would; a cursor with an open end always extends to the end of the text, and reading or replacing text by cursor concerns exactly the selection.",
     ["histories", "inputs"], "every history of edits and every placement of cursors",
     "The position depends on all edits and their order relative to the cursor.",
     ["parce/document.py"],
     [("Document._update_cursors", "parce/document.py"), ("Cursor", "parce/document.py")],
     ["Cursor.pos, Cursor.end, Cursor.text()"],
     "model-based histories against an independent computation of positions",
     NOTE + "the model in vp/props/c10.py; what an undo with touching changes does to a cursor between them is not decided.")

prop("C11", "Blocks and cursor movements agree with the lines of the text",
     "For every text and block separator, the blocks of a document are the lines that splitting the text gives, with matching numbers, positions and texts, "
     "whether they are found by position or number, iterated over a range, or reached by walking forward or backward, and blocks compare by position. Cursor movements and selections by "
     "block, and stripping characters off a selection, select exactly the corresponding part of the text.",
     ["inputs"], "every text, separator, position, range and block number",
     "Boundaries (empty lines, the last line, positions at a separator, negative numbers) combine in many ways.",
     ["parce/document.py"],
     [("AbstractDocument.find_block", "parce/document.py"), ("AbstractDocument.blocks", "parce/document.py"), ("Block", "parce/document.py"), ("Cursor.strip", "parce/document.py")],
     ["AbstractDocument.blocks()", "Block", "Cursor"],
     "generated texts and positions against splitting the string",
     NOTE + "str.split() and the oracle in vp/props/c11.py; positions inside a multi-character separator are not decided.")

prop("C12", "Search and replace in a document does what it does in a string",
     "Replacing text, substituting a regular expression, translating words with a mapping and trimming whitespace in a document, in its whole or in a range and with a maximum "
     "number of replacements, gives the text that the same operation gives on a plain string, leaving the text outside the range as it was. Each operation comes to an end, is reported as at "
     "most one change and is undone in one step.",
     ["inputs"], "every text, search expression, replacement, range and count",
     "Empty matches, overlapping candidates and range boundaries combine in many ways.",
     ["parce/document.py"],
     [("AbstractDocument.replace, re_sub, translate, trim", "parce/document.py")],
     ["Document.text()"],
     "generated operations, differential against str.replace(), re.sub() and a direct implementation of translate and trim",
     NOTE + "Python's str and re.")

prop("C06", "A document's tree and transformed result are up to date or reported as not ready",
     "Whatever edits, root lexicon and transformer switches are made, at any moment of the processing, from event handlers or while a background thread is at work, "
     "a tree or transformed result that a document hands out is that of its current text, root lexicon and transformer, and when it is not ready yet nothing is handed out. Waiting "
     "always ends with the up-to-date tree or result, also in a handler of a finished event, and when nothing is running anymore all is up to date, including the lexicons left open. A callback given while a result "
     "is not ready is called once, with the document or worker as argument, otherwise never, and the started, tree updated, tree finished and transform finished events are emitted in that order.",
     ["schedules", "histories", "inputs"], "every schedule of edits and switches against the stages of the processing, and every history",
     "The tests wait after each edit; results get outdated only when changes come in at certain moments.",
     ["parce/work.py", "parce/__init__.py"],
     [("Worker.process", "parce/work.py"), ("Worker.get_root, get_transform", "parce/work.py"), ("WorkerDocumentMixin", "parce/work.py")],
     ["Document.get_root(), get_transform(), token(), open_lexicons()", "Worker events"],
     "the harness owns the schedule by stepping the stages of a worker; also synchronous and with a real thread; differential against a tree and transform made from scratch",
     NOTE + "a full build and the reference transform of C07; schedules inside a stage are only sampled, by the real thread; a transform method that raises an exception is not covered.")

prop("C13", "Navigating and searching a tree agrees with going through all its nodes",
     "For every node in every tree, its parent, ancestors, root, depth, position, extent, siblings, the tokens before and after it (in the whole tree or up to an ancestor), the tokens it contains, "
     "its token group, and its common ancestor with any other node are the ones found by walking through the whole tree. Finding a token or context by text position gives what "
     "comparing all positions gives, also in text not covered by tokens and with very deep trees. A copy is a separate, equal tree with its own parents, and deleting a node "
     "removes that node and the contexts that become empty by it, and nothing else.",
     ["inputs"], "every tree with every node and text position",
     "Position searches are bisections and trail walks, that go wrong only for certain shapes: gaps, contexts at the edges, single children.",
     ["parce/tree.py", "parce/util.py"],
     [("Node", "parce/tree.py"), ("Context.find*", "parce/tree.py"), ("Token.common_ancestor_with_trail, GroupToken", "parce/tree.py")],
     ["methods of Node, Token and Context"],
     "generated trees (gaps, groups, nested contexts, thousands of levels), differential against brute-force enumeration of all nodes and positions",
     NOTE + "the order of the children lists of the tree that the harness built itself.")

prop("C14", "A query selects the nodes that a plain list comprehension selects",
     "For every chain of query steps on every tree, navigating (children, all descendants, parents, siblings, next and previous tokens), selecting (by text, lexicon, action, length, range, pattern, "
     "inverted or not), slicing and removing duplicates, ancestors or descendants gives the same nodes in the same order as the step applied to a plain list of nodes, every time the query is iterated. "
     "The count, first, last and text range of the result agree with that list, and deleting a result removes exactly those nodes and the contexts that become empty, and reports the number removed.",
     ["inputs", "histories"], "every tree and every chain of query steps",
     "Steps combine freely, the tests sample a few chains on a few trees.",
     ["parce/query.py", "parce/tree.py"],
     [("Query", "parce/query.py"), ("Node.query", "parce/tree.py")],
     ["iteration and end points of a Query", "the tree after Query.delete()"],
     "generated chains of query steps on generated trees against a list model",
     NOTE + "the list model in vp/props/c14.py.")

prop("C15", "A range of a tree contains exactly the tokens of that part of the text",
     "For every tree or context and every start and end position, the range made of it yields exactly the tokens that overlap that part of the text, in order; its extent is that of its first and last "
     "token, its slices are adjacent parts of contexts that together contain these tokens once, and the lexicon changes reported between slices lead from one slice's context to the "
     "next. A range between two tokens contains the tokens from the one to the other, and the tokens of a cursor are the tokens in or overlapping its text.",
     ["inputs"], "every tree, context and range of positions",
     "The two ends lie in differently nested contexts, or in text not covered by tokens, in many ways.",
     ["parce/tree.py", "parce/target.py", "parce/document.py"],
     [("Range", "parce/tree.py"), ("TargetFactory", "parce/target.py"), ("AbstractTextRange.tokens", "parce/document.py")],
     ["Range.tokens(), slices(), pos, end", "Cursor.tokens()"],
     "generated trees, documents and positions, differential against comparing every token's position; a lexicon stack model for the slices",
     NOTE + "the order of the children lists of the generated tree.")

prop("C16", "Formatting covers the text exactly once with the format of each token",
     "For every document, range and theme, the formatter yields pieces in text order that do not overlap and lie "
     "inside the range; put together they give back the text of the range, every token part carries the format the theme "
     "gives its action (on top of the base format where that was asked for), text between tokens the format for unparsed text, and "
     "neighbouring pieces with the same format are joined. Where a theme is attached to a language, that theme is used for the parts "
     "of the text in that language and only there.",
     ["inputs", "configurations"], "every tree, range, set of themes and per-language themes",
     "The tests format one sample; ranges that cut tokens, gaps, embedded languages and theme sets combine.",
     ["parce/formatter.py"],
     [("AbstractFormatter.format_ranges / format_text", "parce/formatter.py"), ("Formatter.format_ranges", "parce/formatter.py"),
      ("FormatContext / FormatCache", "parce/formatter.py")],
     ["Formatter.format_tree, format_text, format_document"],
     "generated trees, ranges and theme sets against a per-character model of the formats",
     NOTE + "the per-character model in vp/props/c16.py.")
prop("C17", "HTML output shows the text unchanged with the right styles or classes",
     "For every document, range and theme, the HTML written is well-formed: read back by an HTML parser it gives exactly the "
     "text of the range, each character in the inline style (or with the classes) that belong to its token, whatever characters the text, the "
     "font names or other values in the theme contain; the full document also carries the window format of the theme.",
     ["inputs", "configurations"], "every text in any language, every range, every theme",
     "The tests compare no HTML; what needs escaping can come from text, theme and lexing in any mixture.",
     ["parce/out/html.py", "parce/formatter.py"],
     [("HtmlFormatter.html / full_html", "parce/out/html.py"), ("escape, attrescape, inline_css", "parce/out/html.py")],
     ["HtmlFormatter, SimpleHtmlFormatter"],
     "generated documents, ranges and themes; the HTML is read back with html.parser and compared per character",
     NOTE + "Python's html.parser and the theme's own textformat() (decided by C23).")
prop("C22", "Style sheets are read and applied as CSS prescribes",
     "For every style sheet and element tree, the rules selected for an element are the ones whose selectors match it (element, id, "
     "class, attribute, pseudo class and pseudo element selectors, joined by combinators), and the resulting properties are the declarations with the highest precedence: important "
     "first, then specificity of the matching selector, then the later one. Values are read as written: strings and identifiers with escapes, numbers with unit, colours in "
     "any notation, urls and functions, whatever whitespace and comments surround them. Imported files are included in place, relative to the importing file and each once; conditions can be "
     "filtered out. No text makes reading a style sheet fail.",
     ["inputs"], "every style sheet (of the documented CSS subset), element tree and set of imported files; any text for totality",
     "The tests read two fixed sheets; selectors, cascade and escapes have far more combinations.",
     ["parce/css.py", "parce/lang/css.py"],
     [("CssTransform", "parce/css.py"), ("AbstractElement.match", "parce/css.py"), ("Style.properties", "parce/css.py"),
      ("StyleSheet.from_css", "parce/css.py"), ("calculate_specificity", "parce/css.py")],
     ["StyleSheet, Style, Element"],
     "abstract style sheets are generated and written out in varying notation; matching and cascade are compared with a model on the abstract sheet",
     NOTE + "the CSS model in vp/cssgen.py; :not(), :is() and namespaces are left out, as the code documents.")
prop("C23", "A theme yields the format its style sheet prescribes and formats combine",
     "For every theme style sheet, the text format of an action is made of the declarations whose class selectors name a subset of the action's path, with the "
     "highest precedence winning, also between shorthand and longhand properties; the base formats depend on role and state in the same way. Adding two formats gives "
     "the second's properties where set and else the first's, drawing the difference of two formats over the second equals drawing the first over it, and the CSS written from a format "
     "says the same as the format.",
     ["inputs"], "every theme style sheet of the supported properties, all actions, roles and states",
     "The tests do not look at text formats at all.",
     ["parce/theme.py", "parce/css.py"],
     [("Theme.textformat / baseformat", "parce/theme.py"), ("TextFormat", "parce/theme.py"), ("css_class", "parce/theme.py"),
      ("color2hex, quote_if_needed", "parce/css.py")],
     ["Theme, TextFormat"],
     "generated theme sheets against a model of the cascade; algebraic laws; written CSS is read back with an independent tokenizer",
     NOTE + "the model in vp/props/c23.py.")

prop("C19", "JSON, CSV and INI text is transformed to the data it denotes",
     "For every JSON value however written, CSV table and INI file, transforming the text with the bundled transform gives the data "
     "the text denotes: JSON values with the same numbers, strings (also escaped characters and surrogate pairs), order and nesting; CSV records as tuples with quoted fields "
     "unquoted, doubled quotes undone and absent fields None; INI sections and keys with white space stripped, escapes resolved and None for an absent value. "
     "Any other text never makes the transform fail, and gives a result of the same kind.",
     ["inputs"], "every JSON value in any notation, every CSV table and INI file (without line continuations); any text for totality",
     "The tests transform one small JSON text; escapes, numbers and quoting have many combinations.",
     ["parce/lang/json.py", "parce/lang/csv.py", "parce/lang/ini.py", "parce/transform.py"],
     [("JsonTransform", "parce/lang/json.py"), ("CsvTransform", "parce/lang/csv.py"), ("IniTransform", "parce/lang/ini.py"), ("transform_text", "parce/transform.py")],
     ["parce.transform.transform_text"],
     "data is generated and written out in varying notation; the result of the transform is compared with the data (JSON: also with Python's json module)",
     NOTE + "the notation writers in vp/props/c19.py and Python's json module as reference.")

prop("C18", "Generated regular expressions match exactly the words or characters given",
     "For every collection of words, the expression made by words2regexp() (and rule.words(), with prefix and suffix) matches a text exactly when it is one of the words, matches the longest "
     "word present at a position, and adds no capturing groups; for every set of characters the character class matches exactly those characters, and its complement all others. "
     "A trie holds exactly the given words. to_string() yields a string only if the expression matches exactly where that string is found, and does yield it for expressions of plain "
     "characters and escaped characters. Every code point is in exactly one of the unicode category classes.",
     ["inputs"], "every finite set of words and characters, every valid expression of literals, escapes and special constructs, all code points",
     "The tests compare a handful of expressions; suffix and prefix merging, repetition and escaping depend on the words' structure.",
     ["parce/regex.py", "parce/rule.py", "parce/unicharclass.py"],
     [("words2regexp", "parce/regex.py"), ("make_charclass", "parce/regex.py"), ("to_string", "parce/regex.py"), ("make_trie, trie_to_regexp_tuple, build_regexp", "parce/regex.py"),
      ("words, chars", "parce/rule.py"), ("categories", "parce/unicharclass.py")],
     ["parce.regex functions, rule.words, rule.chars"],
     "generated word sets with shared prefixes, suffixes and repeats; membership of the words and of thousands of near misses decides; find() versus finditer() for to_string()",
     NOTE + "Python's re module.")

prop("C25", "Events reach exactly the connected callbacks, whatever the callbacks do",
     "For every history of connecting, disconnecting and emitting, also from within callbacks while an event is being emitted, an emitted event calls exactly the functions that are connected at that moment: "
     "in order of priority and then of connecting, each once, with the given arguments (and the observable first, if requested); functions connected while emitting wait for the next time, functions "
     "disconnected meanwhile are not called anymore, a function connected to be called once is called once, a method of an object that is gone is not called. Context managers returned by callbacks are entered, and "
     "left in reverse order when the context of the event is left.",
     ["inputs", "histories"], "every finite history of Observable operations with re-entrant callbacks to a nesting of three",
     "The tests do not connect anything; re-entrancy only shows in histories.",
     ["parce/util.py"],
     [("Observable", "parce/util.py"), ("_Observer", "parce/util.py")],
     ["Observable.connect, disconnect, emit"],
     "stateful: random operation histories with callbacks that act themselves, against a model on plain lists",
     NOTE + "the model of the documented behaviour in vp/props/c25.py; whether a dead method still counts in has_connections() is left open.")
prop("C27", "Locks, caches and singletons are safe under every thread schedule",
     "With any number of threads and any interleaving, at most one thread is in the context of an object_locker() for an object, all threads get their turn and no reference to the object is left behind; "
     "a cached method, property, function or dict computes the value for a key once, and every caller gets that same object (a None result is computed again if so requested); a lexicon, a derived lexicon, "
     "a standard action and a symbol are the same object for all threads. A file cache gives the function's result for the current file, calling the function again exactly when the modification time "
     "has changed or can't be read.",
     ["schedules", "histories"], "two to five threads with preemption at any line of the code; histories of file changes",
     "The tests are single-threaded.",
     ["parce/util.py", "parce/lexicon.py", "parce/standardaction.py"],
     [("object_locker", "parce/util.py"), ("cached_method, cached_func, caching_dict", "parce/util.py"), ("file_cache", "parce/util.py"),
      ("Lexicon.__call__", "parce/lexicon.py"), ("StandardAction", "parce/standardaction.py")],
     ["object_locker, cached_method, cached_func, caching_dict, file_cache, Lexicon, StandardAction, Symbol"],
     "random schedules: real threads, preempted at random lines of the code under test by a trace function; overlap, call counts and object identity are observed",
     NOTE + "the operating system's scheduler: a schedule is disturbed, not dictated, so replaying a seed need not reproduce the interleaving.")
prop("C28", "Actions, lexicons, targets and the stream helpers obey their algebra",
     "Standard actions are singletons that survive copying; 'in', '&' and iteration agree with their dotted names. A dispatcher calls the method registered for a key in the class or its bases, in its overridden form, "
     "else the default. A switch is on exactly while its context is entered, per instance. Merging adjacent ranges keeps the properties of every position and leaves no adjacent equal ranges, fixing boundaries clips "
     "the outermost ranges only; splitting and unrolling lists lose and reorder nothing. A language's sister class is found by name, of the right type, and by the nearest parent if requested. "
     "A lexicon called with an argument is the same object every time and equals exactly those derived from the same lexicon in the same language; a target made of several steps has the effect of the separate steps.",
     ["inputs", "histories"], "every action name, class hierarchy, enter/exit history, sorted stream of ranges, nested list",
     "The tests do not touch these helpers, on which formatting, transforming and theming are based.",
     ["parce/standardaction.py", "parce/util.py", "parce/lexicon.py", "parce/target.py"],
     [("StandardAction", "parce/standardaction.py"), ("Lexicon.__call__, __eq__", "parce/lexicon.py"), ("TargetFactory", "parce/target.py"), ("Dispatcher", "parce/util.py"), ("Switch", "parce/util.py"), ("merge_adjacent, fix_boundaries", "parce/util.py"),
      ("split_list, unroll", "parce/util.py"), ("language_sister_class", "parce/util.py")],
     ["StandardAction, Dispatcher, Switch, util functions"],
     "generated names, hierarchies, histories and streams against models",
     NOTE + "the models in vp/props/c28.py.")

prop("C21", "Documents are loaded and saved without loss in the right encoding",
     "For every text and encoding, writing a document and reading it back gives the same text (apart from the requested newline translation), whether the encoding is specified, set in the document's attribute, "
     "declared in the text in the way of its language, or left to the default. A byte order mark is respected first, then the declaration, the specified encoding, the language's default and UTF-8; declarations "
     "of unusable encodings are ignored. The language of a loaded document is the one specified, or the one the registry finds by name, or by file name, mimetype and contents if asked. When saving fails because the text can't be encoded or the file can't be opened, the file, the text and the modified state are unchanged; when it succeeds the document is unmodified and its url and encoding "
     "are those given.",
     ["inputs", "faults"], "every text encodable in the encoding, 16 encodings, all newline modes, the bundled languages with own I/O handling and generated I/O classes; any bytes for reading",
     "The tests decode one text and encode another.",
     ["parce/docio.py", "parce/util.py", "parce/lang/xml.py", "parce/lang/html.py", "parce/lang/css.py"],
     [("DocumentIOMixin.load/save", "parce/docio.py"), ("decode_data, encode_text", "parce/docio.py"), ("IO.find_encoding", "parce/docio.py"), ("get_bom_encoding", "parce/util.py"),
      ("XmlIO", "parce/lang/xml.py"), ("XHtmlIO", "parce/lang/html.py"), ("CssIO", "parce/lang/css.py")],
     ["Document.load, save, from_bytes, to_bytes, decode_data, encode_text"],
     "generated texts and declarations are written and read back; the bytes are compared with Python's codecs; failing saves are injected (unencodable text, unwritable url)",
     NOTE + "Python's codecs; excluded: texts starting with a byte order mark or NUL, declarations in an encoding that can't be recognized without knowing it (UTF-16/32 without mark), texts whose declaration lies around position 5000.")

prop("C26", "The registry finds the language that was registered",
     "For every set of registered entries, a name yields the entry with exactly that name, else the one with that alias, else the one matching without regard of case, else the one with that class name. "
     "Suggestions hold exactly the entries matching the filename or mimetype, or if there are none the contents, in order of weight; the contents decide between equally weighted ones. find() gives the root "
     "lexicon of the first match in the registry or else its fallbacks, and None if there is none. An inheriting entry replaces the inherited one and has its data too, unless given anew. Every bundled language is found by its name, alias, "
     "filename and mimetype.",
     ["inputs", "configuration"], "every set of entries over up to three registries chained by fallback; all bundled entries",
     "The tests look up a few bundled languages.",
     ["parce/registry.py", "parce/lang/_registry.py"],
     [("Registry.add/suggest/qualname/find", "parce/registry.py"), ("bundled entries", "parce/lang/_registry.py")],
     ["Registry, parce.find"],
     "generated registries against a model of the documented look-up order; all bundled entries are looked up",
     NOTE + "cases where the documented precedence of the filename and the added weights of filename and mimetype disagree about the best entry are only checked for the set of suggestions.")

prop("C20", "Numbers written in words or in Scheme notation get their value",
     "For every number below a thousand million, written in words in English, Dutch, German or French with any casing and the allowed separators, the transform of the numbers language yields that number; successive "
     "numbers yield a list in order. For every valid Scheme number (any radix, exactness prefix, fraction, decimal with exponent, unknown digits, complex, polar, infinite) scheme_number() yields its value, exact or "
     "inexact as the notation says; faulty notation raises ValueError or ZeroDivisionError only.",
     ["inputs"], "numbers 0 to 999999999 and lists of them (where unambiguous); all Scheme number notations with up to about five digits per part",
     "The tests hold two dozen examples; they miss whole ranges such as 70-79 in French.",
     ["parce/lang/numbers.py", "parce/lang/scheme.py"],
     [("English, Nederlands, Deutsch, Français", "parce/lang/numbers.py"), ("NumbersTransform", "parce/lang/numbers.py"), ("scheme_number", "parce/lang/scheme.py")],
     ["transform_text, scheme_number_from_text"],
     "numbers and number notations are generated and written out; the value read is compared with the number (Scheme: evaluated in exact rational arithmetic)",
     NOTE + "the writers in vp/props/c20.py; letters that only match a numeral by Unicode case folding (such as the long s) are left out, as are 'and', plural millions and feminine forms, which are not documented.")

prop("C24", "Indenting sets the indents the events ask for and changes nothing else",
    "For every document, range of whole lines, indent_string and stream of indent events, AbstractIndenter.indent() gives each line in the "
    "range the indent that follows from the nesting: every level opened by an earlier line (INDENT, or the ALIGN string) adds to the indent of that "
    "line, a DEDENT before any INDENT or NO_DEDENT dedents the line itself and a later one the next lines, PREFER_INDENT is used for its line only, and "
    "lines before the range keep their indent and set the level for what follows. Lines with NO_INDENT, lines outside the range, and blank lines if "
    "indent_blank_lines is False, keep their text; never is anything but the leading whitespace of a line changed; indenting again changes nothing; and the "
    "operation is one undo step. increase_indent() followed by decrease_indent() restores the text; decrease_indent() removes one indent_string, or else the indent; "
    "strip_trailing_blanks() strips exactly the selected lines that allow it; auto_indent() changes only the indent of the cursor's line, "
    "to the same indent that indent() would use when the lines before it only open levels, close levels at their start or are plain. The Indenter hands "
    "every language's Indent the runs of its tokens in order, and indents CSS and LilyPond by their nesting.",
    ["inputs"], "all texts of lines with any indents, events of all kinds, ranges of lines, indent strings; CSS, LilyPond and HTML documents with nested blocks",
    "The unit test indents one CSS and one LilyPond snippet; the stack of indents must be right for any nesting, range and existing layout.",
    ["parce/indent.py", "parce/lang/css.py", "parce/lang/lilypond.py"],
    [("AbstractIndenter.indent", "parce/indent.py"), ("AbstractIndenter.indent_info", "parce/indent.py"), ("AbstractIndenter.auto_indent", "parce/indent.py"),
     ("Indenter.indent_events", "parce/indent.py")],
    ["document text after the operation, and after undo and redo"],
    "a line-based reference interpreter of the documented indent events compared with the document text after each operation",
    NOTE + "A first line that is only partly selected, a range ending at the very start of a line, and ALIGN for a second level on the same line are outside the generated domain.")

prop("C29", "Introspection and validation tell what a language definition can do",
     "For every language definition: whatever a rule evaluates to for any match and lexicon argument is one of the paths that variations(), variations_tree() and decision_tree() list for it, and those list nothing the rule "
     "cannot give; introspect.lexicons() lists exactly the lexicons of the class and its bases, standardactions() and languages() exactly the actions and other languages its rules mention, so no token of a "
     "text in a bundled language has an action or language that was not listed. LexiconValidator.validate() and validate_language() report an error if and only if the definition has a faulty pattern, an incomplete rule, "
     "conflicting defaults, an invalid target (in any alternative of a rule), or default targets that change nothing or run away; a language without errors is lexed in finite time. validate_transform() "
     "returns False if and only if a lexicon has no attribute of its name in the transform.",
     ["inputs", "programs"], "language definitions with all kinds of rule items, with faults planted in them; chains of default targets over up to four lexicons; all bundled languages",
     "Nothing in the tests uses these modules except for checking that the bundled languages are valid.",
     ["parce/validate.py", "parce/introspect.py", "parce/ruleitem.py"],
     [("LexiconValidator", "parce/validate.py"), ("validate_language, validate_transform", "parce/validate.py"), ("variations, variations_tree", "parce/ruleitem.py"),
      ("lexicons, standardactions, languages, decision_tree", "parce/introspect.py")],
     ["returned values, errors and warnings of the validator; variations of rules; actions and languages in trees"],
     "language specs are generated; the alternatives of each rule, the fate of chains of default targets and the planted faults are known from the spec and compared with what is reported",
     NOTE + "rules that are not a tuple or list, and chains of more than sixty default targets that do come to an end, are left out.")

prop("C30", "Bundled languages recognize well-formed source text for what it is",
     "In well-formed source text of every bundled programming, markup and data language, every construct its language "
     "definition covers is recognized completely and ends where it ends, whatever stands in it or around it: comments "
     "(also with other comment signs, quotes, brackets and URLs in them; addresses and words like TODO are marked), string literals with their escapes and "
     "embedded expressions, numbers of each base, keywords, builtins and other names by their role, operators, tags, attributes and "
     "entities, selectors, properties and colours, notes and lyrics. A closing bracket, tag or keyword closes the "
     "context its own opening one started, also in a language embedded in another (scripts and styles in Html, LilyPond "
     "in Texinfo and troff, Scheme in LilyPond), nothing in well-formed text is called invalid, and no context is left "
     "open at the end.",
     ["inputs", "configurations"], "every well-formed text of the constructs the bundled language definitions describe",
     "The tests lex one example text for a few languages and hardly look at the result; what a construct is taken for "
     "depends on what stands in it, before it and after it, in every combination.",
     ["parce/lang/", "parce/language.py"],
     [("language definitions", "parce/lang/"), ("Language.comment_common", "parce/language.py"),
      ("vocabularies", "parce/lang/*_words.py")],
     ["parce.root(), TreeBuilder.lexicons"],
     "source text generated by a grammar per language together with what each piece is, compared with the tokens and contexts found",
     NOTE + "the grammars in vp/srcgen.py, which write each language's core constructs and leave out what a definition does not cover.")


def main():
    claimed, rest = [], []
    for p in PROPS:
        pid = p["spec"]["id"]
        if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            claimed.append(p)
        else:
            rest.append(p)
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps(p["spec"], ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3-vt -c \"import sys; assert sys.version_info >= (3, 8)\"",
        "checks": [{
            "property": p["spec"]["id"],
            "quick_cmd": "python3-vt run.py " + p["spec"]["id"],
            "thorough_cmd": "python3-vt run.py {} --tier thorough".format(p["spec"]["id"]),
            "evidence_file": "evidence/{}.json".format(p["spec"]["id"]),
            "technique": "property-based testing: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in claimed],
        "not_applicable": [{"property": p["spec"]["id"], "reason": "the check is not yet built"} for p in rest],
        "notes": "All checks: python3-vt run.py <ID> [--tier quick|thorough] [--seed N]; "
                 "replay: python3-vt run.py <ID> --replay <file>. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in PROPS:
        assert len(p["spec"]["title"]) <= 80, p["spec"]["id"]


if __name__ == "__main__":
    main()
