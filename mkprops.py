import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

SRC="typst/syntax/source.go"; REP="typst/syntax/reparser.go"; NODE="typst/syntax/node.go"; LIN="typst/syntax/lines.go"; PAR="typst/syntax/parser.go"; LEX="typst/syntax/lexer.go"; FILE="typst/syntax/file.go"
UPD="cmd/update-typ/main.go"; OFF="cmd/offline-typ/main.go"; PTY="cmd/parse-typ/main.go"

p("C01","An edited source equals a fresh parse of its text",
"After any history of range edits and whole-text replacements on a source, its text is exactly what those operations produce on a plain string, and its syntax tree equals the tree of freshly parsing that text: same kinds, texts, nesting, lengths, descendant counts, erroneous flags, error messages and hints. The range an edit reports as reparsed lies inside the new text and covers everything that was inserted. This holds for each of several sources edited in any interleaving.",
["histories","schedules","fault_sequences"],
"all histories of Edit/Replace (valid edits, torn reloads, undo, no-op edits) over all texts, interleaved with other editing sessions",
"The existing tests apply one edit each to some 40 hand-picked strings, with the cases that fail commented out; they never apply a second edit to the same source, so damage an edit leaves behind for the next one is invisible.",
[SRC,REP,NODE,PAR,LIN],
[("incremental reparse of a block or of a run of markup siblings","%s: reparse, try_reparse"%REP),("splicing of children with length, descendant and error bookkeeping","%s: replace_children, update_parent"%NODE),("smallest single edit for whole-text replacement","%s: ReplacementRange"%LIN)],
[("Root","the tree kept between edits","%s: Source.Root"%SRC),("Text","the text kept between edits","%s: Lines.Text"%LIN)],
["Source.Edit","Source.Replace","Source.Text","Source.Root"])

p("C02","Line and UTF-16 positions stay exact over any edit history",
"After any history of edits and whole-text replacements, the line table equals the one computed from scratch for the current text, and every conversion between byte offset, UTF-16 offset, line, line range and (line, column) gives the value defined by counting through the text. Conversions in opposite directions are inverse on valid positions, and positions outside the text are rejected. This holds for every newline form, including a CR LF pair joined or split by an edit, and for characters outside the basic plane.",
["histories","inputs","fault_sequences"],
"all edit histories over all texts, incl. CR/LF joins and splits, multi-byte and astral characters, and bytes of torn files that are not valid UTF-8",
"The tests convert fixed positions of one constant string and try four single edits; the line table is incremental state, so its errors show only at a position after a particular earlier edit.",
[LIN,SRC],
[("incremental recomputation of line starts after an edit","%s: Lines.Edit, linesFrom"%LIN),("binary search over line starts","%s: ByteToLine, Utf16ToByte"%LIN)],
[("Lines","start of every line in bytes and UTF-16 units","%s: Lines.Lines"%LIN)],
["Lines.ByteToUtf16","Lines.Utf16ToByte","Lines.ByteToLineColumn","Lines.LineColumnToByte","Lines.LineToRange","Lines.Edit","Lines.Replace"])

p("C03","Spans keep identifying exactly one node through any edits",
"After parsing and after any history of edits, every node of a source carries a span of that source's file, no two nodes share a span, a parent's number is below all its descendants' and siblings' subtrees are numbered in increasing order within their parent's bound. Looking up any node's span returns that node and its byte range in the current text; a span of another file, a detached span, or a number no node has is not found. A lookup takes work at most linear in the size of the tree.",
["histories","schedules"],
"all edit histories (in particular long runs of insertions at one place that exhaust the free numbers) over all texts, interleaved with sessions on other files",
"The unit tests check span packing and never number a tree after an edit; number exhaustion needs many edits at the same place, far beyond a single-edit test.",
[NODE,"typst/syntax/span.go",SRC,REP],
[("numbering of a tree or of a run of children within an interval","%s: numberize"%NODE),("renumbering with growing slack, falling back to a full reparse","%s: replace_children; %s: reparse"%(NODE,REP)),("pruned search by span number","%s: LinkedNode.find"%NODE)],
[("Span, Upper","number of a node and bound of its subtree","%s: LeafNode, InnerNode, ErrorNode"%NODE)],
["Source.Find","Source.Range","span fields of the tree"])

p("C04","Parsing is total, lossless and bounded on whatever storage delivers",
"For any bytes a file yields, including truncated, torn, partly overwritten or bit-flipped ones, parsing (of markup and of the code embedded in it) ends without a crash in work bounded by a low-degree polynomial of the size. Printing the resulting tree gives back those bytes exactly, or an error after a prefix of them if the writer fails; node lengths and counts agree with the text they cover, and a tree that contains an error node says so at every level above it, and the errors collected from it are exactly those of its error nodes, in order.",
["inputs","fault_sequences","crash_points"],
"all byte strings that a file can deliver after truncation at any point, torn or mixed old/new content and flipped bits",
"The tests parse a few dozen well-formed snippets; error recovery, backtracking and invalid UTF-8 are reached only by damaged text, and both loss and blow-up depend on particular combinations.",
[PAR,LEX,NODE,"internal/scanner/scanner.go","internal/stdx/stdx.go"],
[("error recovery that keeps unexpected text in error nodes","%s: expected, unexpected; %s: convert_to_error"%(PAR,NODE)),("memoised backtracking","%s: memo arena, checkpoint/restore"%PAR),("cursor movement on character boundaries","internal/scanner/scanner.go")],
None,["syntax.Parse","syntax.ParseCode","syntax.PrintNode"])

p("C05","Work on independent sources is isolated under any interleaving",
"Parsing and editing of different sources from different goroutines gives, under every interleaving, exactly the trees, texts and line tables that the same operations give when run alone, with no data race and no deadlock.",
["schedules","histories"],
"all interleavings, at statement granularity, of several tasks that create, parse, edit and query their own sources",
"No existing test starts a goroutine; shared mutable state inside the package would show only when another task runs between two particular statements.",
[PAR,LEX,SRC,FILE,NODE,"typst/syntax/set.go","typst/syntax/kind.go"],
[("parser and lexer state owned by one parse; shared tables never written after initialisation","%s, %s, typst/syntax/kind.go"%(PAR,LEX)),("mutex around the global file-id table","%s: interner"%FILE)],
[("interner","the only shared mutable state","%s: interner"%FILE)],
["syntax.Parse","NewSource","Source.Edit"])

p("C06","File identities are unique, stable and atomic under concurrency",
"Under any interleaving of callers, interning the same package and path gives the same file id and interning different ones gives different ids, in a way some sequential order of the calls explains; a fake id is never equal to any other id. Every id forever resolves to the package and path it was created with, paths are normalized absolute paths, and joins and extension changes resolve relative to the file. When the id space is exhausted the call is refused and every id handed out before keeps resolving.",
["schedules","histories","fault_sequences"],
"all interleavings of concurrent interning, joining, resolving and fake-id creation, including at the end of the 16-bit id space",
"No test exercises the interner at all; its guarantees are about pairs of calls by different goroutines and about 65 535 ids.",
[FILE,"typst/syntax/path.go","typst/syntax/span.go"],
[("read-write mutex around lookup-then-insert","%s: NewFileID, pair"%FILE),("append-only table from id to pair","%s: pushPair"%FILE)],
[("toID, fromID","both directions of the interning","%s: Interner"%FILE)],
["NewFileID","NewFakeFileID","FileID.VPath","FileID.Spec","FileID.Join","FileID.WithExtension"])

p("C07","update-typ changes nothing but outdated versions, to the newest",
"When update-typ succeeds, every Typst file reachable from the input by imports and includes is written with exactly its original bytes, except that the version in each import of a package is raised to the highest version installed for it; an import is never lowered, and text in comments, strings and raw blocks is never touched. Each import raised is reported, and the project said to be updated (in place, with -i) exactly when there is one. Without -i the results go under the output directory and the project itself is unchanged; with -i files keep their permissions; the package directories and files outside the project are never written; import cycles terminate.",
["inputs","configurations","schedules","histories"],
"all project graphs (cycles, diamonds, absolute and relative paths, nested contexts), installed version sets and directory/map iteration orders",
"The tools have no tests at all; the guarantee ranges over project graphs and installed package sets.",
[UPD,"typst/cstwalk/cstwalk.go","typst/syntax/package.go",NODE],
[("walk over import and include nodes replacing only the string","%s: findOldVersions; typst/cstwalk"%UPD),("scan of the installed versions","%s: findVersions, latestSpec"%UPD),("set of files already done","%s: typDone"%UPD)],
None,["files written by update-typ","its exit status"])

p("C08","update-typ never damages a file or reports false success under faults",
"Whatever read, write, listing, rename or disk-full fault, kill or loss of power hits update-typ, at every instant every project file holds either its complete old content or its complete updated content. If it exits successfully, the fault did not matter: every reachable file is complete and updated to the newest installed versions. Otherwise it ends with a non-zero status and a diagnostic, without crashing.",
["crash_points","fault_sequences","configurations"],
"all I/O operations of a run as failure, kill or power-loss points, including partial writes, over all projects, with and without -i",
"There are no tests of the tool; a fault at the n-th system call and a kill between truncating and writing cannot be produced by example-based tests.",
[UPD],
[("write of the updated file","%s: rewrite"%UPD),("error propagation to a fatal exit","%s: main"%UPD)],
None,["file contents after every simulated system call","exit status","standard error"])

p("C09","offline-typ output is complete and self-contained",
"When offline-typ succeeds, the output directory holds every Typst file reachable from the input and, under /libs, from every package it imports directly or transitively, and every import, include and literal resource path (images, bibliographies and their styles, plugins, data files) in them resolves inside the output to content equal to the original's, or to the rewritten file if it is itself one of those Typst files. Only package imports and root-relative paths inside vendored packages are rewritten; imported names keep their meaning; all other bytes are unchanged, and cyclic imports terminate.",
["inputs","configurations","schedules"],
"all project and package graphs, import forms, resource references, and directory/map iteration orders",
"The tool has no tests; closure is a property of the whole reachable graph.",
[OFF,"typst/cstwalk/cstwalk.go","typst/syntax/package.go",NODE],
[("rewriting of package imports and rename insertion","%s: rewrite, insertPkgRename, getNewPkgPath"%OFF),("work list of packages","%s: rewriteLibs"%OFF),("copy of resources","%s: rewrite"%OFF)],
None,["files under the output directory","exit status"])

p("C10","offline-typ never claims success over missing or torn output",
"Whatever I/O fault hits offline-typ, it exits successfully only if the output is complete and correct as in a fault-free run; otherwise it ends with a non-zero status and a diagnostic, without crashing. At every instant, also when killed or when power is lost, the project, the packages and everything outside the output directory are unmodified.",
["crash_points","fault_sequences","configurations"],
"all I/O operations of a run as failure or kill points, over all projects, packages and missing or damaged manifests",
"There are no tests of the tool and none can place a fault at a chosen system call.",
[OFF],
[("error propagation to a fatal exit","%s: main, copyPackage, rewrite"%OFF),("confinement of writes to the output root","%s: os.Root use"%OFF)],
None,["operations on the simulated disk","exit status","standard error"])

p("C11","Rerunning a killed or failed run converges to the clean result",
"After update-typ or offline-typ was killed, failed or lost power at any point, and any number of times, running it again to the end leaves the same files as one undisturbed run would have. Running update-typ -i again on its own result changes nothing.",
["crash_points","histories","fault_sequences"],
"all sequences of kills and faults at arbitrary I/O operations followed by a clean rerun, over all projects",
"Needs state left by a killed run as the start of the next; no test runs a tool even once.",
[UPD,OFF],
[("outputs derived only from inputs, overwritten on each run","%s, %s: rewrite"%(UPD,OFF))],
None,["file contents after the rerun","exit status"])

p("C12","Tool results do not depend on iteration or listing order",
"For fixed inputs, the exit status of update-typ and offline-typ and, when they succeed, the files they write are the same for every order in which maps are iterated and directories are listed, and do not depend on the current directory, the package cache location, or whether paths are given relative or absolute.",
["schedules","configurations"],
"all map-iteration and directory-listing orders, and all equivalent ways of giving the same paths",
"Map order is random per process, so a test passes or fails by luck; no test runs the tools.",
[UPD,OFF],
[("work list popped in map order, results keyed by path","%s, %s: popSpec, todo, done, typDone"%(UPD,OFF))],
None,["file contents","exit status"])

p("C13","parse-typ prints the complete tree or fails",
"parse-typ exits successfully only if the complete tree of every named file, in order, reached standard output; the leaf and error texts printed for a file concatenate to the file's bytes. A read error or a failed, short or full-disk write ends it with a non-zero status, and what was printed until then is a prefix of the complete output.",
["fault_sequences","inputs","crash_points"],
"all sequences of files and all read and write faults at any operation",
"The tool has no tests, and a failing standard output is not something a unit test supplies.",
[PTY,NODE],
[("printing the tree to standard output","%s: PrintRoot; %s: parse"%(NODE,PTY))],
None,["standard output","exit status"])

p("C14","A rejected edit leaves the source untouched",
"An edit whose range is out of bounds, inverted, or not on character boundaries is refused by a panic, and after recovering from it the text, line table, tree and spans are exactly what they were before, and later edits work as if it had never been attempted.",
["histories","fault_sequences"],
"all invalid ranges injected at any point of any edit history, also while other sessions are running",
"No test makes an invalid edit, and a partially applied one would show only in a later operation.",
[LIN,SRC,REP],
[("validation of the range before any state changes","%s: Lines.Edit"%LIN)],
None,["Source.Edit","Lines.Edit"])

p("C15","update-typ reports every outdated transitive dependency",
"A successful update-typ run visits every package reachable through the imports of the project and of its packages, each once, and reports on standard error each import in them for which a newer version is installed, naming the library, the old and the new version, and says at the end that updates are needed exactly when there are any; it reports none that is up to date and never modifies a package.",
["configurations","schedules"],
"all package graphs (cycles, diamonds, multiple versions) and all map and directory orders",
"There are no tests of the tool; the report is a reachability property over graphs visited in random map order.",
[UPD],
[("work list over package imports","%s: checkLibs, checkLib"%UPD)],
None,["standard error","operations on the simulated disk"])

p("C20","Navigation over an edited tree reaches exactly the neighbouring nodes",
"After parsing and after any history of edits, linked nodes report the byte ranges of the current text however they were reached: found by span, by descending from the root forwards or backwards, or from another node. The previous and next sibling, the first and last leaf inside, and the leaf before and behind a node are its nearest neighbours of that sort in the order of the text (trivia skipped), and the leaf before or after a byte offset is the one that covers that side of the offset; where there is none, none is given. Walking the tree visits every node below the start exactly once, in the order of the text, parents first, and leaves out exactly what is below the nodes the visitor refuses.",
["histories","schedules","inputs"],
"all edit histories over all texts, all nodes and byte offsets of the trees they lead to",
"The existing tests follow links in three fixed trees that were never edited.",
[NODE,SRC,"typst/cstwalk/cstwalk.go"],
[("offsets kept while moving between siblings, parents and children","%s: LinkedNode, LinkedChildren"%NODE),("descent to the leaf at a byte offset","%s: leaf_before, leaf_after"%NODE)],
[("offset, index, parent","place of a linked node","%s: LinkedNode"%NODE)],
["LinkedNode.Range","LinkedNode.leaf_at","LinkedNode.prev_leaf","LinkedNode.next_leaf","LinkedChildren.Children","LinkedChildren.RevChildren","cstwalk.Walk"])

HIL="typst/syntax/highlight.go"
p("C21","Highlighting loses nothing and depends on nothing but the current text",
"For any bytes a file yields and after any history of edits, rendering the tree of a source as highlighted HTML ends without a crash in work bounded by a low-degree polynomial of the size. The result is well-formed (one code element, spans with a class properly nested, the five special characters escaped), and its text is exactly the text of the source, bytes that are no characters replaced. It is the same as for a freshly parsed tree of that text, and the tag of a node is the same however the node was reached.",
["histories","inputs","fault_sequences","schedules"],
"all edit histories over all texts, incl. erroneous and damaged ones, all nodes of the trees they lead to",
"The existing test highlights one well-formed snippet; the tag of a hash or identifier depends on neighbouring nodes, which are missing or erroneous only in damaged or half-edited texts, and the rendering has no test.",
[HIL,NODE],
[("tag from the kind and from neighbouring leaves and ancestors","%s: highlight, highlight_ident, highlight_hash"%HIL),("rendering with escapes","%s: highlight_html"%HIL)],
None,["highlight","highlight_html"])

p("C17","A well-formed document has the tree the Typst grammar gives it",
"Whatever was edited, damaged and repaired before, a source whose text is a well-formed Typst document has no error node in its tree, and each construct of the document (in markup: headings, items, emphasis, raw text, links, references, labels, escapes; in code: bindings, rules, imports, conditionals, loops, calls, field accesses, operators by precedence, closures, parameters, patterns, arrays, dictionaries, literals; in math: attachments, fractions, roots, primes, delimited groups, calls, shorthands) is a node of the kind the Typst grammar gives it which covers exactly its text.",
["histories","inputs","fault_sequences","schedules"],
"all well-formed documents, and all histories of edits, torn reloads and repairs that end in one",
"The tests compare the trees of a few fresh snippets (none with a unary minus or a call in math, both of which were wrong); a wrong tree only a history of edits leads to is beyond them.",
[PAR,LEX,"typst/syntax/set.go",REP,NODE],
[("recursive descent, operator precedence","%s: code_expr_prec, math_expr_prec"%PAR),("tokens per mode","%s: Lexer.next"%LEX),("sets of kinds that may start or end a construct","typst/syntax/set.go")],
None,["syntax.Parse","NewSource","Source.Edit","Source.Replace"])

p("C18","Every part of a text is highlighted by its role",
"Whatever was edited, damaged and repaired before, the highlighted text of a source has exactly the elements Typst gives it: each node whose kind is a category (strong, emphasis, raw, link, label, reference, heading, markers, escapes and shorthands, comments, keywords, operators, numbers, strings, punctuation, math delimiters and operators) has that class; stars, underscores, slashes and equals signs one that depends on what they belong to; a term's name is a term; an identifier is a function in front of arguments, parameters, content or at a show rule's colon, otherwise interpolated in math, behind a hash and in a field of such a one; a hash has the class of what it introduces; nothing else has a class. An error node has the tag for errors.",
["histories","inputs","fault_sequences","schedules"],
"all edit histories over all texts, well-formed, erroneous and damaged ones, and all nodes of the trees they lead to",
"The existing test highlights one snippet. The class of identifiers, hashes and signs depends on neighbouring leaves and ancestors, trivia and errors between them, which edits rearrange.",
[HIL,NODE],
[("tag from the kind, the parent and the neighbouring leaves","%s: highlight, highlight_ident, highlight_hash"%HIL),("leaves around a node","%s: LinkedNode.next_leaf, prev_leaf, leftmost_leaf"%NODE)],
None,["highlight","highlight_html","Tag.css_class","Tag.tm_scope"])

p("C22","Each mistake in a document is reported where it is, and nothing else",
"Whatever was edited, damaged and repaired before, a source whose text is a Typst document with mistakes (in markup: unclosed emphasis, formulas, raw text, labels, escapes, links with unbalanced brackets, stray closing brackets and comment ends; in code: missing or misplaced patterns, expressions, blocks, colons, commas, arguments, keywords for names, duplicate bindings, parameters, arguments and keys, second sinks, mixed arrays and dictionaries, invalid numbers and characters, unclosed delimiters and strings; in math: missing operands, duplicate arguments, unclosed calls) has an error node with the message and hints the Typst grammar gives it at exactly the place of each mistake, no other error nodes, and the constructs around and behind the mistakes as in a document without them.",
["histories","inputs","fault_sequences","schedules"],
"all documents with mistakes, and all histories of edits, torn reloads and repairs that end in one",
"The tests compare the trees of a few well-formed snippets; none has an error in it. What is reported after a history of edits depends on what was reparsed and which errors were kept.",
[PAR,LEX,"typst/syntax/set.go","typst/syntax/kind.go",NODE,REP],
[("errors where something was expected, unexpected or unclosed","%s: expected, expected_at, unexpected, trim_errors, expect_closing_delimiter"%PAR),("errors of tokens","%s: Lexer.error, Lexer.hint"%LEX),("errors in place of nodes","%s: SyntaxNode.convert_to_error, expected"%NODE)],
None,["syntax.Parse","NewSource","Source.Edit","Source.Replace"])

# Not simulation targets: pure functions of one input.
p("C16","Package specs, versions and manifests parse as Typst defines them",
"A string is accepted as a package spec, version, version bound or manifest exactly if Typst accepts it, printing a parsed spec gives it back, and version comparison is the component-wise order with missing bound components ignored.",
["inputs"],"all strings","The tests sample a handful of strings.",
["typst/syntax/package.go"],[("hand-written scanners","typst/syntax/package.go")])
p("C19","Syntax sets and spans pack and unpack losslessly",
"Set operations agree with mathematical sets of kinds, and file id, number and raw range survive packing into a span.",
["inputs"],"all kinds and numbers","The tests check a few values.",
["typst/syntax/set.go","typst/syntax/span.go"],[("bit sets and bit packing","typst/syntax/set.go, typst/syntax/span.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
