import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
CONV=['creole/__init__.py','creole/parser/creol2html_parser.py','creole/parser/html_parser.py','creole/emitter/creol2html_emitter.py','creole/shared/base_emitter.py','creole/emitter/html2creole_emitter.py','creole/emitter/html2rest_emitter.py','creole/emitter/html2textile_emitter.py','creole/emitter/html2markdown_emitter.py','creole/shared/markup_table.py','creole/shared/document_tree.py','creole/html_tools/deentity.py','creole/html_tools/strip_html.py','creole/rest_tools/clean_writer.py']
perinst=("per-call parser/emitter instances hold all working state","creole/__init__.py creole2html(), parse_html(), html2*()")
ro=("module-level data is compiled regexes and constant tables only","creole/parser/creol2html_rules.py, creole/html_tools/*.py")
api=["return value or exception of the public conversion functions"]
p("C01","Concurrent conversions never influence each other",
 "However the conversions (creole2html, html2creole, html2rest, html2textile, html2markdown, rest2html) that several threads of one process run are interleaved, each call returns exactly the text, or raises exactly the error, that the same call produces when it runs alone in a fresh process. This also holds when callers pass the same macros mapping, macros object or block rules to several conversions. No interleaving makes a conversion hang.",
 ["schedules","inputs","configurations"],"every preemption of 2-5 caller threads at any point inside the library, for every mix of converters, documents, options and shared arguments",
 "the suite is single-threaded: it reaches exactly one schedule, the serial one",CONV,[perinst,ro,("<<toc>> state belongs to one emitter","creole/emitter/creol2html_emitter.py HtmlEmitter.__init__/macro_emit")],
 [("macros","caller-owned mapping/object shared by conversions","HtmlEmitter.macros"),("cut-out blocks, current node, list level, table, substitutions","working state of one conversion","HtmlParser/CreoleParser/BaseEmitter attributes")],api)
p("C02","Results never depend on earlier conversions; arguments stay untouched",
 "After any sequence of earlier conversions in the same process, successful or failed, with the same or other documents and options, a conversion gives exactly the result it gives as the first call in a fresh process. The objects a caller passes in (macros mapping or object, block rules) have the same content afterwards as before.",
 ["histories","inputs"],"every history of conversion calls, including near-identical documents, differing options for one document, failing calls, and long histories",
 "each test makes one call or a fixed pair of calls; leaks show only for particular predecessor/successor pairs or after many calls",CONV,[perinst,ro],
 [("process-wide state","anything that outlives a call","module globals, class attributes, default arguments, caches")],api)
p("C03","Conversions can be nested inside each other's callbacks",
 "A macro or an unknown-tag handler may itself run conversions, to any depth and with the very same macros mapping, handlers and threads, before it returns: the inner conversion gives exactly its stand-alone result, and the outer conversion gives exactly what it gives when the callback returns that text without converting anything.",
 ["schedules","inputs","histories"],"every nesting of converters through macro and unknown-tag callbacks (re-entry at every callback position)",
 "no test runs a conversion from inside a callback",['creole/emitter/creol2html_emitter.py','creole/shared/base_emitter.py','creole/shared/unknown_tags.py','creole/parser/creol2html_parser.py','creole/parser/html_parser.py'],[perinst,("macro call-back","creole/emitter/creol2html_emitter.py HtmlEmitter.macro_emit"),("unknown tag call-back","creole/shared/base_emitter.py BaseEmitter.emit_node")],None,api)
p("C04","Interrupting a conversion always stops it and leaves nothing behind",
 "When an interrupt-type exception (KeyboardInterrupt, SystemExit, a cancellation) arrives at any instant inside a conversion, including while a macro or the source-highlighting macro runs, that conversion ends by raising exactly it, never by returning text. Every conversion that follows, or runs concurrently in another thread, gives its normal stand-alone result.",
 ["fault_sequences","crash_points","inputs","schedules"],"an asynchronous interrupt at any executed line of any conversion, followed by or concurrent with any other conversions",
 "no test delivers an interrupt; there are as many instants as executed lines",CONV+['creole/shared/example_macros.py','creole/shared/utils.py'],[("only Exception subclasses are handled","creole/emitter/creol2html_emitter.py macro_emit, image_emit; creole/shared/example_macros.py code; creole/shared/utils.py get_pygments_lexer"),perinst],None,api)
p("C05","Running out of memory or stack never yields a silently wrong document",
 "When memory allocation fails (MemoryError) or the stack runs out (RecursionError) at any instant inside a conversion, the call raises that error or still returns exactly the document it returns without the failure; with error reporting on, a failure inside a macro call may instead appear as that macro's error report in the document (and the example highlighting macro may fall back to plain text). Later conversions give their normal result.",
 ["fault_sequences","inputs"],"an allocation failure at any executed line, or any remaining stack depth, for every converter and document",
 "no test makes an allocation fail or starts near the stack limit",CONV,[("narrow exception handlers (ValueError, IndexError, KeyError)","creole/emitter/creol2html_emitter.py get_text, image_emit; creole/emitter/html2creole_emitter.py a_emit; creole/shared/base_emitter.py entityref_emit"),perinst],None,api)
p("C06","A failing macro damages nothing but its own place in the document",
 "Whatever macros do - raise any error, reject their arguments, return something that is not text, are missing, are called with malformed arguments, fail only sometimes - creole2html returns, and everything outside the failing macro calls, including the output of the other macros, is exactly as if those macros had worked. In place of each failing call stands an error report naming the macro, or nothing with error reporting off (verbose=0); tracebacks go only to the stream the caller passed, and only at verbose=2. Interrupt-type exceptions raised by a macro are not contained.",
 ["fault_sequences","inputs"],"every pattern of macro failures over every position in every document, at verbosity 0, 1 and 2",
 "the suite has a handful of documents with one failing macro each",['creole/emitter/creol2html_emitter.py','creole/parser/creol2html_parser.py','creole/shared/utils.py'],[("macro error handling","creole/emitter/creol2html_emitter.py HtmlEmitter.macro_emit, error"),("argument parsing","creole/shared/utils.py string2dict")],None,["creole2html return value","the stderr argument","sys.stderr"])
p("C07","A parsed document can be rendered again and again, also concurrently",
 "Rendering a parsed document tree does not change it: any number of emitters of any output formats may render the same tree one after the other or interleaved in several threads, also when some of them fail or are interrupted half-way, and every rendering equals that of a freshly parsed tree.",
 ["schedules","histories","fault_sequences","inputs"],"every order, interleaving and interruption of renderings of one shared tree",
 "every test parses anew for each rendering",['creole/shared/document_tree.py','creole/shared/base_emitter.py','creole/emitter/creol2html_emitter.py','creole/emitter/html2creole_emitter.py','creole/emitter/html2rest_emitter.py','creole/emitter/html2textile_emitter.py','creole/emitter/html2markdown_emitter.py'],[("emitters only read nodes","creole/shared/base_emitter.py, creole/emitter/*.py")],[("document tree","nodes shared by emitters","creole/shared/document_tree.py DocNode")],["emitter output","content of the tree before and after"])
p("C08","The ambient environment never influences a conversion",
 "The result of a conversion depends on its arguments alone: string-hash seed, random state, clock and time zone, locale, environment variables, command line, current directory and the files in it, main or worker thread, garbage-collector setting, warning filters, interpreter optimisation (-O), the standard streams' encoding or terminal, identity of process, host and user, trace functions, logging and decimal settings, other loaded modules, other threads and a running event loop make no difference to creole2html, html2creole, html2rest, html2textile, html2markdown (and, docutils' own configuration files aside, rest2html).",
 ["configurations","inputs"],"every combination of ambient settings for every document and option",
 "the suite runs in one environment, with a fixed hash seed",CONV+['creole/shared/utils.py'],[("no ambient reads in the conversion path","creole/__init__.py"),("attributes are emitted in sorted order","creole/shared/utils.py dict2string")],None,api)
p("C09","Conversions do no hidden I/O",
 "A conversion called without debug and with verbose at most 1 writes nothing to standard output or standard error (docutils' reports about invalid ReST aside), and touches no file (beyond reading installed Python packages and docutils' own configuration files), no network and no other process. So closed, missing or failing standard streams never make creole2html, html2creole, html2rest, html2textile or html2markdown fail or change their result.",
 ["fault_sequences","inputs","configurations"],"every document and option, with every failure mode of the standard streams and every I/O attempt denied",
 "tests run with working streams, which hide stray output, and never observe I/O",CONV,[("diagnostics only if debug","creole/shared/base_emitter.py debug_msg; creole/parser/html_parser.py"),("no debug parser for <pre><code>","creole/emitter/html2markdown_emitter.py inlinedata_pre_emit")],None,["standard streams at Python and at file-descriptor level","interpreter audit events (open, socket, subprocess, ...)"])
p("C10","Switching diagnostics on never changes the converted document",
 "With debug on, or with verbose=2 instead of 1, a conversion gives the same document, or the same error, as without (the error report of a macro that returned something else than text may then name the returned object); diagnostics go only to the standard streams or the stream passed in. If such a stream fails while diagnostics are written, the conversion either raises that stream's error or gives the same document, never another one.",
 ["fault_sequences","inputs","configurations"],"every document and option, with a stream failure at any write of the diagnostics",
 "debug is on in a few fixed tests; no stream ever fails",['creole/__init__.py','creole/parser/html_parser.py','creole/parser/creol2html_parser.py','creole/shared/document_tree.py','creole/shared/base_emitter.py','creole/emitter/creol2html_emitter.py'],[("debug output","debug_msg, debug, DebugList"),("verbose traceback","creole/emitter/creol2html_emitter.py HtmlEmitter.error")],None,["return value","standard streams"])
p("C11","Untrusted ReST cannot read files, reach the network or inject raw markup",
 "Whatever a ReST document contains, rest2html and pypi_rest2html (called with default settings, docutils' own configuration files aside) open no file or network address that the document names, give the same result whatever the file system holds, and never pass the content of a raw directive or role through to the output unescaped.",
 ["inputs","configurations","fault_sequences"],"every document (include, raw, csv-table, figure, image, nested and substituted directives, roles) over every state of the file system, including unreadable files",
 "one or two fixed documents; the file system is never varied or observed",['creole/rest_tools/clean_writer.py','creole/rest_tools/pypi_rest2html.py'],[("file_insertion_enabled / raw_enabled off","creole/rest_tools/clean_writer.py rest2html; creole/rest_tools/pypi_rest2html.py pypi_rest2html")],None,["file accesses during the call","returned html"])
p("C12","A failing command-line conversion leaves the destination as it was",
 "If a command-line conversion cannot complete - the source is missing, unreadable at any byte, not valid in the chosen encoding, the converter raises, the result cannot be encoded, the standard output is broken, the process is interrupted or killed before the result is ready - an already existing destination file keeps its content, a missing one is not created, the source keeps its content, and the failure is reported (exception or non-zero exit status).",
 ["fault_sequences","crash_points","inputs","configurations"],"every single fault or crash at any file operation or executed line up to the first write of the result, for all four commands, any encoding and any previous destination content",
 "the CLI tests convert one good file each; no operation ever fails",['creole/cmdline.py'],[("read, convert and encode before the destination is opened","creole/cmdline.py CreoleCLI.convert")],[("destination file","user data that must survive","file system")],["file system after the run","exit status, stdout"])
p("C13","A command-line conversion that reports success has written everything",
 "A command-line conversion that ends without error has left in the destination exactly the source, decoded in the chosen encoding, converted by the named converter and encoded again - however reads and writes are split by the operating system, whatever the size, whatever other conversions run at the same time on other files. If a write, flush or close of the destination fails or is cut off, success is not reported and the destination holds its old content, a prefix of the complete result, or the complete result. Without faults and with a convertible source it succeeds.",
 ["fault_sequences","schedules","inputs","crash_points"],"every partitioning of reads and writes, every disk error or crash at any file operation, concurrent runs interleaved at any file operation, encodings, sizes across buffer boundaries",
 "tests use files of a few bytes that are read and written in one piece and never fail",['creole/cmdline.py'],[("whole-file read and write, context managers, strict codecs","creole/cmdline.py CreoleCLI.convert")],[("destination file","result","file system")],["file system after the run","exit status, stdout"])
p("C14","A file can be converted in place",
 "When source and destination of a command-line conversion are the same file - same name, another spelling of the path, a symbolic or a hard link - a successful run leaves the complete conversion of the original content in it, and a run that fails before writing leaves the original content.",
 ["fault_sequences","configurations","inputs"],"every way to alias source and destination, with read, decode, conversion and encode faults",
 "tests always use two distinct files",['creole/cmdline.py'],[("source is completely read before the destination is opened","creole/cmdline.py CreoleCLI.convert")],None,["file system after the run"])
p("C15","The tools touch only the files they are told to write",
 "A command-line conversion creates or changes no file but its destination, and updating or checking a README creates or changes none but the generated files beside the README source (.rst for ReST; .md and .html for Markdown): every other file keeps content and name, no file is removed by a tool that succeeds, and no extra file remains, after success and after any reported failure.",
 ["fault_sequences","configurations","schedules"],"every success, failure and concurrent use of the tools over directories with arbitrary other files",
 "tests look only at the one file they asked for",['creole/cmdline.py','creole/setup_utils.py'],[("paths derived from the arguments only","creole/cmdline.py CreoleCLI.convert; creole/setup_utils.py update_rst_readme, update_markdown_readme")],None,["complete file system before and after"])
p("C16","An unconvertible README source never harms the generated README",
 "If README.rst or README.md cannot be generated - the source is missing, unreadable or not UTF-8, contains markup the target does not support, gives ReST that does not render, or the run is interrupted before generation is finished - the update reports failure (exception or non-zero exit) and the existing generated README keeps its content.",
 ["fault_sequences","crash_points","inputs"],"every fault or interrupt before the generated file is opened for writing, for every source text",
 "the only failing README test never looks at an existing generated file",['creole/setup_utils.py'],[("generation and validation precede writing","creole/setup_utils.py update_rst_readme, update_markdown_readme, _generate_rst_readme, _generate_markdown_readme")],None,["generated README files","exit status"])
p("C17","A README update always ends with an up-to-date README",
 "From any state of the generated file - missing, empty, truncated at any byte by a crash or a full disk, edited, generated from an older source - one completed update of a convertible source leaves exactly the generated text followed by the complete note naming the source file and its modification time (where the file already held that text and a complete note, that note may stay as it is), in UTF-8 whatever the locale; a following check accepts it. Updates of README.rst and README.md that run at the same time do not disturb each other.",
 ["crash_points","fault_sequences","histories","schedules","configurations"],"every history of source edits, crashes, torn and failed writes, manual edits and clock jumps, followed by one undisturbed update",
 "tests run the update once on an up-to-date file",['creole/setup_utils.py'],[("full comparison with the existing file","creole/setup_utils.py _is_up_to_date"),("write generated text and note","creole/setup_utils.py update_rst_readme, update_markdown_readme")],[("README.rst, README.md","generated, durable files","package root")],["generated README files"])
p("C18","Updating an up-to-date README does not write to it",
 "An update that meets a README file holding exactly the generated text and a complete note leaves that file alone: no write, content, mode and modification time unchanged, however the clock, the locale or the modification time of the source changed; a second update right after a completed one is always of this kind.",
 ["histories","configurations"],"every history of updates, touches of the source and clock jumps, for every convertible source",
 "one fixed README is updated, and its modification time is not compared",['creole/setup_utils.py'],[("comparison without the note","creole/setup_utils.py _is_up_to_date, _remove_note")],None,["writes to and modification time of README files"])
p("C19","README checks accept exactly the up-to-date file and change nothing",
 "The README checks pass for a README file as a completed update wrote it and whenever its text differs in nothing but the note, and raise for every other state of the file - missing, empty, truncated within the text, any changed, missing or additional text (white space included; only what stands between the text and the note, and the note itself, aside), generated from an older source - and when the source cannot be converted. They never modify README.rst, README.md or the source.",
 ["histories","crash_points","inputs","configurations"],"every source, every torn, edited or stale state of the generated file, every locale",
 "there is no test of a stale or torn README",['creole/setup_utils.py'],[("comparison without the note","creole/setup_utils.py assert_rst_readme, assert_markdown_readme, _remove_note")],None,["outcome of the check","file system"])
p("C20","The long description degrades to the source text instead of failing a build",
 "get_long_description returns the ReST conversion of the README when that works. If anything fails - file missing, read error at any byte, bad encoding, conversion error - it raises (or exits) when errors are to be raised, and otherwise returns a text beginning with an error note and ending with whatever could be read of the source; it never swallows an interrupt, and without an explicit choice the command line decides as documented.",
 ["fault_sequences","inputs","configurations"],"every I/O fault and conversion failure, every README text, both error modes and the command lines that select them",
 "no test calls it",['creole/setup_utils.py'],[("fallback","creole/setup_utils.py get_long_description, should_raise_errors")],None,["return value or exception"])
p("C21","Nothing is published unless every gate passed",
 "The publish command reaches the upload step only after README.rst was found up-to-date with its source and the code-style step ended successfully, and then exactly once, with the package's own version and root; any failing gate - stale, torn or missing README, unconvertible source, failing or missing style tool, interrupt - ends the command with an error and without upload.",
 ["fault_sequences","crash_points"],"every failure of any gate at any file operation or subprocess call, for every state of the README files",
 "publishing is not tested at all",['creole/publish.py','creole/setup_utils.py'],[("gates precede the upload","creole/publish.py publish")],None,["calls of the upload step","subprocess calls","exception"])
p("C22","A process may fork while conversions are under way",
 "When a process is forked at any instant while conversions are under way - by another thread, or in the middle of a conversion itself - conversions work in both processes: those that the parent continues, those that the child starts, and the one in the middle of which the fork took place (which both may complete) give exactly their stand-alone results, and none of them hangs or fails.",
 ["schedules","crash_points","inputs"],"every instant of every mix of conversions in up to four threads at which another thread, or the converting one, forks",
 "no test forks, and what a child inherits depends on where the threads of its parent are at that instant",CONV,[perinst,ro],[("inherited state","locks, caches and flags a child gets in the state the vanished threads left them","module globals")],api+["results of the child process"])
p("C23","A conversion may start at any instant in the middle of another one",
 "A conversion that starts at any instant in the middle of another one on the very same thread - run by a signal handler, a finaliser or a debugger hook rather than by one of the documented callbacks - ends, and gives exactly its stand-alone result, and so does the conversion in the middle of which it ran.",
 ["schedules","inputs"],"every executed line of every conversion as the instant, any number of inner conversions with the same or other documents and options, other threads converting meanwhile",
 "no test runs a conversion from a signal handler or finaliser",CONV,[perinst,ro],[("working state","anything an inner conversion finds half-way changed","module globals, class attributes")],api)
p("C24","Every macro call in a document happens exactly once, in order and in place",
 "For every macro tag or macro block outside preformatted text whose macro exists and whose arguments are well-formed, creole2html calls the macro exactly once, with the arguments as written and the text in between, in document order and on the calling thread, and the result of each call stands in the output at the place of the call. The same holds for the calls of an unknown-tag handler of the HTML converters. A call that raises an error does not repeat, skip or reorder any other call; an interrupt ends the conversion without further calls.",
 ["inputs","fault_sequences","schedules"],"every document with any number of calls, also identical ones, every subset of them failing in any way, an interrupt or memory error at any executed line, conversions in several threads",
 "the tests look at the output of single macros, not at how often and when they are called, and never let some calls of several fail",['creole/emitter/creol2html_emitter.py','creole/parser/creol2html_parser.py','creole/shared/base_emitter.py','creole/shared/unknown_tags.py'],
 [("macro call","creole/emitter/creol2html_emitter.py HtmlEmitter.macro_emit"),("unknown tags","creole/shared/base_emitter.py BaseEmitter.emit_node, emit_children")],None,["calls received by macros and handlers","return value of the conversion"])
p("C25","Conversions leave the process as they found it",
 "Whatever conversions ran, concurrently or one after another, completed, failed or interrupted at any instant: afterwards the settings all parts of a process share are as before (standard streams, recursion limit, signal handlers and timers, warning filters, locale, directory, umask, environment, import and trace hooks, garbage collector and logging configuration, exit handlers, built-ins, classes and tables of other modules), no descriptor, thread or child process is left over, and memory does not keep growing with the number of documents that were converted.",
 ["histories","fault_sequences","schedules","inputs"],"every history and interleaving of conversions, every instant of an interrupt or memory error in them, histories of many thousand distinct documents",
 "the tests never look at the process around a conversion, do not interrupt conversions, and are over after some hundred documents",CONV+['creole/shared/utils.py','creole/shared/example_macros.py','creole/rest_tools/pypi_rest2html.py'],[perinst,ro],None,["settings of the interpreter, the C library and the kernel","allocator statistics"])
p("C26","Importing works in any order and survives failures and missing packages",
 "The modules of the package can be imported in any order. A package that is not installed affects only what needs it: without pygments source code is not highlighted (plain <pre>), without docutils rest2html and pypi_rest2html are not available (DocutilsImportError), without markdown, readme_renderer or poetry_publish the README tools or publishing (ImportError); everything else gives its usual results. An import that fails or is interrupted at any line can be retried: importing creole again succeeds, and all conversions then give their usual results. Importing writes nothing and changes no process-wide setting; an interrupt that arrives while it runs is never swallowed.",
 ["fault_sequences","crash_points","configurations","histories"],"every order of imports, every combination of missing packages, every line of a module body at which an import fails or is interrupted, every retry and conversion after it",
 "the tests run with everything installed and import everything once, successfully",['creole/__init__.py','creole/shared/utils.py','creole/shared/example_macros.py','creole/rest_tools/clean_writer.py','creole/rest_tools/pypi_rest2html.py','creole/setup_utils.py','creole/exceptions.py'],
 [("optional pygments","creole/shared/utils.py, creole/shared/example_macros.py"),("optional docutils","creole/rest_tools/clean_writer.py, creole/rest_tools/pypi_rest2html.py")],None,["outcome of imports and conversions","standard streams"])
n="the suite samples fixed documents; the quantifier is over all documents"
def q(id,title,st,files,mech): p(id,title,st,["inputs"],"every input document",n,files,mech)
q("N01","Creole text never injects markup into the generated HTML","Outside the html macro, characters of the creole source that are special in HTML appear escaped in the output of creole2html: no text, link target, image attribute or heading can introduce a tag or leave an attribute.",['creole/emitter/creol2html_emitter.py'],[("escaping","HtmlEmitter.html_escape, attr_escape")])
q("N02","creole2html implements Creole 1.0","Every Creole 1.0 construct is converted to the HTML the specification assigns to it, in every combination and nesting the specification allows.",['creole/parser/creol2html_parser.py','creole/parser/creol2html_rules.py'],[("rules","creole/parser/creol2html_rules.py")])
q("N03","Creole survives the round trip through HTML","For creole markup of the common subset, html2creole(creole2html(x)) gives markup with the same meaning: converting it again yields the same HTML.",['creole/__init__.py'],[("inverse emitters","creole/emitter/html2creole_emitter.py")])
q("N04","No text is lost when HTML is converted","All character data of a well-formed HTML document, with entities and character references decoded, appears in the result of html2creole, html2rest, html2textile and html2markdown, in order, up to the very last character.",['creole/parser/html_parser.py','creole/shared/base_emitter.py','creole/html_tools/strip_html.py'],[("tree building","creole/parser/html_parser.py"),("entities","creole/html_tools/deentity.py")])
q("N05","Converters are total","No input string makes a converter raise anything but its documented errors.",CONV[:4],[("parsers","creole/parser")])
q("N06","Generated ReST, Markdown and Textile mean the same as the HTML","Rendering the generated markup with a conforming renderer gives a document with the structure of the original HTML (headings, lists, tables, links, images).",['creole/emitter/html2rest_emitter.py','creole/emitter/html2markdown_emitter.py','creole/emitter/html2textile_emitter.py'],[("emitters","creole/emitter")])
q("N07","rest2html emits clean HTML only","The output of rest2html is well formed and contains no div, id or class produced by docutils.",['creole/rest_tools/clean_writer.py'],[("translator","CleanHTMLTranslator")])
q("N08","Generated tables are rectangular and aligned","Every table markup that is generated from a rectangular HTML table has as many cells per row as the table has columns, aligned to common column widths.",['creole/shared/markup_table.py'],[("MarkupTable","creole/shared/markup_table.py")])
q("N09","Conversion time is bounded by a low polynomial of the input size","No document makes a converter run for a time that grows exponentially with its length.",['creole/parser/creol2html_rules.py','creole/html_tools/strip_html.py'],[("regular expressions","creole/parser/creol2html_rules.py")])
q("N10","Macro argument strings and attribute dictionaries convert faithfully","Parsing a macro argument string yields exactly its key/value pairs with numbers and keywords typed, and formatting a dictionary gives a string that parses back to it.",['creole/shared/utils.py'],[("string2dict, dict2string","creole/shared/utils.py")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d,s)
    print('ok',len(P))
except ImportError: print("no jsonschema")
