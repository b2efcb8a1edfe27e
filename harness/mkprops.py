import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every macro invocation is expanded exactly once, in the documented order",
"When expansion of a program finishes, every invocation of a bound macro (expression, block, decorator, name) has been replaced by its macro's output, including invocations that appeared in the output of other macros, so none is left. Macros run outside-in and in source order; several block macros on one statement run left to right, and several decorator macros on one definition run bottom-most (closest to the definition) first, each seeing the result of those still to be applied as written. Each invocation calls its macro exactly once, with the syntax kind, the tree, the macro arguments and the as-part written at that use site.",
["programs"],"All programs made of any Python syntax with macro invocations of all four kinds nested in any way, for any behaviour of the macros.",
"The test modules expand a few fixed programs; order and completeness depend on how nesting, multi-item with statements, decorator lists and macros that emit macros combine.",
["mcpyrate/expander.py","mcpyrate/core.py"],[("visitor per invocation kind","mcpyrate/expander.py:MacroExpander.visit_Subscript/visit_With/_visit_Decorated/visit_Name"),("recursive expansion of macro output","mcpyrate/core.py:BaseMacroExpander.expand")],
["calls received by instrumented macros (name, kind, tree, arguments, as-part)","final expanded tree"])

p("C02","A macro's return value replaces exactly its own invocation",
"A macro that returns a syntax tree has that tree put where the invocation was; one that returns several trees has them put there in order; one that returns nothing has the invocation removed (and, where the language demands something be there, code stays valid). A return value that is not made of syntax trees is rejected with an error instead of reaching the output. Everything that is not a macro invocation comes out exactly as it went in: same nodes, same order, same source positions.",
["programs"],"All programs and all kinds of macro return value in all syntactic positions an invocation can take.",
"Tests cover a handful of return values in one position each; the property is about every pair of position and return value, and about the absence of change in all the rest of the tree.",
["mcpyrate/expander.py","mcpyrate/core.py","mcpyrate/walkers.py","mcpyrate/utils.py"],[("splicing of lists and removal","mcpyrate/core.py:BaseMacroExpander.visit"),("validation of macro output","mcpyrate/core.py:BaseMacroExpander.expand"),("missing location and block body handling","mcpyrate/expander.py:visit_With, mcpyrate/coreutils.py:fix_missing_locations")],
["final expanded tree compared node by node, with locations"])

p("C03","Macros control the expansion of their input, and the mode is restored",
"A macro can expand the macro invocations in its input fully, or one layer only, or as the expansion in progress is being done, before or after its own work, and gets exactly that: one-layer expansion expands each outermost invocation once and leaves the invocations in the result as they are. Whatever a macro does, and also if it or a macro it triggers raises, the expansion mode and the set of active bindings seen by its surroundings are as they were before. Code that a macro marked as finished is not expanded again.",
["programs","fault_sequences"],"All nestings of macros that expand their input in each of the modes, with and without a failure caught at any level.",
"Tests use one inside-out macro and a few step-by-step expansions; interactions between nested mode changes, failures and finished code are not sampled.",
["mcpyrate/core.py","mcpyrate/expander.py"],[("mode switching","mcpyrate/core.py:BaseMacroExpander.visit/visit_once/visit_recursively/_recursive_mode"),("Done marker","mcpyrate/core.py:Done")],
["calls received by instrumented macros with the mode in force","result trees handed back to the calling macro"])

p("C04","Only genuine invocations of bound macros are treated as macro invocations",
"A subscript, with-item, decorator or bare name is a macro invocation if and only if the name is bound as a macro in that expansion and is used in a form that macro accepts: macro arguments are given in a second set of brackets and only to macros that declared they take arguments (otherwise the brackets are part of the input), and a bare name only invokes macros that declared themselves usable so. Any other use of a macro name as a bare name, and any use of other names, is left alone or reported as the documented error. The facility that collects the macro names used in a tree agrees with what expansion would invoke.",
["programs","configurations"],"All programs and bindings, macros of every declared capability, invoked in every syntactic form including attribute access, calls and stacked brackets.",
"Tests invoke macros in the intended form; the if-and-only-if ranges over every combination of form, capability and binding.",
["mcpyrate/expander.py","mcpyrate/core.py"],[("candidate destructuring","mcpyrate/expander.py:destructure_candidate"),("parametric/name macro declarations","mcpyrate/expander.py:parametricmacro/namemacro/isparametricmacro/isnamemacro"),("collector","mcpyrate/expander.py:MacroCollector")],
["which instrumented macros are called with what, errors raised, collector output"])

p("C05","Macro-imports bind exactly the imported names and leave a run-time import",
"After the macro-imports of a module are processed, the names bound as macros are exactly those they import, each under its as-name if it has one, resolved relative to the importing module's package, the last import winning when a name is bound twice. Each macro-import is replaced in the output by an import of the same module that binds no names other than that module's, at the same place and in the same order, so that no macro name is left as a run-time binding. Anything that cannot be honoured (star import, unknown module, unknown name, non-function, macro-import not at top level, misplaced or missing marker) is an error or an ordinary import as documented, never silently a wrong binding.",
["programs","configurations"],"All sequences of ordinary and macro-imports, absolute and relative, with renames and rebinding, in modules and package init modules at any depth.",
"Tests import a few macros absolutely and relatively; the package level, rename and rebinding combinations are not enumerated.",
["mcpyrate/expander.py","mcpyrate/coreutils.py"],[("find_macros / macro binding","mcpyrate/expander.py:find_macros"),("name resolution","mcpyrate/coreutils.py:resolve_package/ismacroimport/get_macros")],
["returned bindings, transformed import statements, behaviour of the compiled module"])

p("C06","An error inside an expansion names every use site and preserves the cause",
"If a macro raises during expansion, the client gets one error that carries, outermost first, the use site (file, line and code) of every macro invocation whose macro was still running, and the original exception, unchanged, as its ultimate cause. The expansion stops there: no further macro is invoked, and the expander can be used again and behaves as if the failed expansion had not happened.",
["programs","fault_sequences"],"All programs and all points at which a macro can fail, at every nesting depth, over any number of consecutive expansions with one expander.",
"Tests check one or two failing macros; the property quantifies over the failure point and over what happens afterwards.",
["mcpyrate/core.py","mcpyrate/expander.py"],[("error telescoping","mcpyrate/core.py:BaseMacroExpander.expand"),("use-site formatting","mcpyrate/unparser.py / mcpyrate/core.py:MacroExpansionError")],
["raised exception chain and message, later expansions with the same expander"])

p("C07","Expanded code is clean: no markers, valid contexts, locations, postprocessing",
"The tree that leaves global expansion contains no expander-internal marker nodes; if a macro leaves a marker of its own behind this is reported as an error rather than passed on. Every name, attribute, subscript and sequence in it is marked as read, written or deleted as its position requires, and every node that needs a source location has one, taken from the macro use site when the macro gave none. Hooks registered to run after expansion run exactly once, in registration order, on the result of the previous one.",
["programs"],"All programs and all macro outputs, whatever contexts and locations the macros set or leave out.",
"Tests only notice wrong contexts or locations when the compiler rejects the specific tree they produce.",
["mcpyrate/core.py","mcpyrate/astfixers.py","mcpyrate/markers.py","mcpyrate/coreutils.py","mcpyrate/expander.py"],[("context fixer","mcpyrate/astfixers.py:fix_ctx"),("location fixer","mcpyrate/astfixers.py:fix_locations"),("marker check","mcpyrate/markers.py:check_no_markers_remaining"),("global postprocess","mcpyrate/core.py:global_postprocess / add_postprocessor")],
["final tree, exceptions, log of postprocessor calls"])

p("C08","A quasiquote evaluates to exactly the quoted code with its unquotes filled in",
"Evaluating a quasiquoted expression or block yields a syntax tree equal to the quoted source, except that each unquote at the matching quote level is replaced: a value unquote by code for the value, a name unquote by that name, a tree or list-of-trees unquote by the given tree or trees, spliced in place. With nested quasiquotes an unquote acts on the innermost enclosing level only, deeper material stays quoted, and unbalanced unquotes are errors; the operators are recognized in their proper syntax only, an unquoted value that isn't of the kind the operator takes is an error, and a list of trees can be spliced only where the tree has a list. Evaluating the same quasiquote twice gives equal, independent trees, and leaves the inserted ones as they were; a quoted block operator leaves, next to itself or to what it is replaced by, only the note for coverage tools.",
["programs","inputs"],"All quoted Python syntax, all positions and values of unquotes, all nesting depths.",
"The tests quote a few dozen snippets; fidelity must hold for every syntax form, position, value and nesting combination.",
["mcpyrate/quotes.py"],[("astify/unastify","mcpyrate/quotes.py:astify,unastify"),("unquote operators","mcpyrate/quotes.py:q,u,n,a,s,t and splice helpers"),("quote level tracking","mcpyrate/utils.py:NestingLevelTracker")],
["tree produced by running the expanded quasiquote"])

p("C09","Hygienic captures keep denoting what they denoted at the capture site",
"Code produced with a hygienic value capture evaluates, wherever it is spliced and whatever names exist there, to the captured value, both in the process that captured it and in another process that loads the code from the bytecode cache. A hygienically captured macro is invoked wherever the code is spliced, even if the use site has not imported it or binds the same name to something else; different captures never get mixed up, and no capture disturbs the names of the use site. A captured value is frozen at the capture; each use site has a copy of its own, made once per process, so that changes made at one site are seen at that site only.",
["programs","histories","configurations"],"All sequences of captures of values and macros from different sites and names, spliced into any use sites, in the same or another process.",
"Tests capture a few values in one process; aliasing between captures and reloading in another process depends on histories.",
["mcpyrate/quotes.py","mcpyrate/coreutils.py","mcpyrate/expander.py"],[("capture_value/lookup_value","mcpyrate/quotes.py"),("capture_macro/lookup_macro and the unhygienic name registry","mcpyrate/quotes.py")],
["values and macro calls observed when running spliced code"])

p("C10","Multi-phase compilation runs the phases in order, each on the right code",
"A module with higher-phase code is compiled phase by phase from the highest phase down to 0: at phase k the code compiled and run is what is marked for phase k or higher (code is lifted, phase by phase, down to phase 0), in the order of the source, after the module docstring and the future-imports, which apply to every phase. Macros defined at a higher phase are available, by importing from the module itself, to every lower phase and only there; the module at run time is built from the code of phase 0 and what was lifted to it. Nested, misplaced, or malformed phase blocks are reported as errors.",
["programs"],"All modules with any number of phases and any interleaving of phase blocks, lifted blocks, ordinary statements, docstring, future-imports and self-imports.",
"Tests have three fixed multi-phase modules; order and placement depend on the interleaving.",
["mcpyrate/multiphase.py","mcpyrate/compiler.py"],[("phase extraction","mcpyrate/multiphase.py:extract_phase,split_multiphase..."),("phase loop","mcpyrate/multiphase.py:multiphase_expand"),("self import","mcpyrate/multiphase.py / coreutils")],
["log of statements executed per phase, final module tree and namespace, errors"])

p("C11","Compiling, importing and running never corrupts the table of loaded modules",
"Whatever modules are compiled, expanded, imported, run or given temporary existence, and whether this succeeds or fails at any point, a module that was loaded before stays the one that is registered under its name, and temporary entries do not stay registered. A module that is registered on purpose is the module the caller gets, and stays registered.",
["histories","fault_sequences"],"All sequences of successful and failing compile, import, run and temporary-module operations over any set of module names, existing or not.",
"Tests exercise success paths; the failure and name-collision histories are unsampled.",
["mcpyrate/multiphase.py","mcpyrate/compiler.py","mcpyrate/importer.py","mcpyrate/expander.py"],[("temporary module context manager","mcpyrate/compiler.py:temporary_module"),("module registration","mcpyrate/compiler.py:create_module,run"),("phase modules","mcpyrate/multiphase.py:multiphase_expand")],
["sys.modules before and after each operation"],state=[("sys.modules","registered module per name","mcpyrate/compiler.py, mcpyrate/multiphase.py")])

p("C12","Importing always runs code that is up to date with its macros and dialects",
"After any history of edits (each of which gives the file a modification time in a later second than every earlier one, or replaces it with an older file such that the latest time among the module and its dependencies changes) and macro-enabled imports, importing a module in a new process runs code equal to what a clean build of the current sources would give: its bytecode cache is used only if neither the module itself nor any module or dialect whose macros it uses, directly or through others, changed since the cache was written. A module none of whose sources changed is loaded from its cache and not compiled again. A stale, missing or unusable cache never makes an import give wrong code.",
["histories","fault_sequences"],"All histories of editing, touching, deleting and recreating sources, damaging or deleting caches, and importing modules, over any acyclic graph of macro and dialect dependencies.",
"Tests run each module at most twice (fresh and cached) with no edits in between.",
["mcpyrate/importer.py"],[("effective mtime over macro dependencies","mcpyrate/importer.py:path_stats / path_xstats"),("dependency discovery cache","mcpyrate/importer.py"),("compile from expanded AST","mcpyrate/importer.py:source_to_xcode")],
["value a module computes on import in a fresh process","whether its macros were run"],
state=[("source mtime and content","what a clean build would give","file system"),("cache","stored expansion and its stamp","__pycache__")])

p("C13","Dialects transform the source once each, in order, and share one pipeline",
"Dialects transform a whole module in a fixed pipeline: source-text transformers, parsing, tree transformers, macro expansion, then postprocessors, each getting the previous one's output. In the source step each distinct dialect-import line (on one line, at the first column) is applied once, the first one not yet applied in the current text next, so that imports added, moved or removed by transformers count as found; in the tree step each top-level dialect-import statement is applied once, likewise, and replaced with a plain absolute import of the dialect's module. The dialects of one import are applied from left to right; each application has an instance of its own, with the location of its import set, and postprocessing reuses the tree step's instances in their order; declining leaves the content as it is and takes no step; an empty result, an exception or something that is not a dialect is an error; stepping shows the content after every step from where it is enabled, and changes nothing.",
["programs"],"All sequences of dialect-imports, of dialects implementing any subset of the transformers, including those that emit further dialect-imports.",
"Tests use one or two dialects per module; order and once-only depend on the combination.",
["mcpyrate/dialects.py","mcpyrate/compiler.py"],[("DialectExpander","mcpyrate/dialects.py"),("pipeline order","mcpyrate/compiler.py:expand / importer.py")],
["calls received by instrumented dialects, final source and tree"])

p("C14","Template splicing puts the user code at the marked place and nowhere else",
"Splicing an expression or statements into a code template replaces every paste marker of the given name, wherever it is in the template, and nothing else; the template is edited in place, the first marker is replaced with the given code itself and each further one with an independent copy. For a module-level (dialect) splice the docstring (both, combined, if user code and template have one), future-imports of template and user code, the user code's export list, dialect-imports and then macro-imports of template and user code (lifted from wherever they are) come first in that order, the rest of the user code goes to the markers, and the template's export list is dropped. All of the template gets the position of the dialect-import given, or else of the first statement of the user code, and the user code keeps its positions; the result is valid code, with no empty blocks; inputs that are not code, or empty, are refused; statements injected into a module go right after its docstring and the future-imports at its start, the rest staying as it is.",
["programs","inputs"],"All templates and all user code, marker at any position including nested blocks, with and without docstrings, future-imports, imports and export lists.",
"Tests splice a few templates; positions and prelude combinations are not enumerated.",
["mcpyrate/splicing.py"],[("splice_expression/splice_statements/splice_dialect","mcpyrate/splicing.py")],
["returned trees and inputs after the call"])

p("C15","Running code at run time behaves like importing it into the given module",
"Code compiled and run at run time (from text, statements, expression or module tree, quoted or not) is executed with all its dialects, macros and phases expanded, in the namespace it was given: a fresh module, a named module, or an existing one (whose earlier definitions remain visible and whose docstring follows the code run). Invalid inputs are refused before anything is run. Creating a module registers it and sets its name, file and parent package (also in the namespace of the parent, unless told not to) as an import of a module with that dotted name would, and refuses one whose parent package is not there.",
["programs","histories","configurations"],"All sequences of runs of any kind of input in any kind of namespace, and all dotted names with parents loaded or not.",
"Tests run a few snippets each in one namespace.",
["mcpyrate/compiler.py"],[("expand/compile/run/create_module","mcpyrate/compiler.py")],
["returned module, its namespace and metadata"])

p("C16","Macro support is active exactly while activated, and changes nothing else",
"Importing the activation module enables macro expansion for source modules imported afterwards; deactivating it restores the standard import machinery, and activating again enables it again, any number of times in any order. Modules with no macros, dialects or phases behave when imported under the macro-enabled importer, and stay loadable from and to the bytecode cache, exactly as under the standard one, and syntax errors in them are reported as such.",
["histories","programs"],"All sequences of activate, deactivate and import operations over modules with and without macros.",
"Tests activate once per process and never deactivate.",
["mcpyrate/activate.py","mcpyrate/importer.py"],[("loader patching","mcpyrate/activate.py:activate,deactivate"),("source_to_xcode, nomacros","mcpyrate/importer.py")],
["result of importing modules after each step, identity of the loader methods"])

p("C17","Tree walkers visit every node once, with scoped state, and collect in order",
"A walk visits the nodes of the given tree or list of trees from parent to child in field order, calling the user's function once for each node its recursion reaches, and replaces, splices or removes nodes as the function returns. State set for a subtree, or for particular sub-parts, is in force exactly there, and the state that was in force before comes back afterwards. Items are collected in the order visited, accumulating over walks until the walker is reset, which gives it an empty collection and exactly the given state.",
["programs","inputs"],"All trees, all user functions built from the walker operations (recurse, not recurse, replace, remove, splice, set state, set state for parts, collect), any number of walks with one walker.",
"Tests use three small walkers; scoping errors need particular nestings.",
["mcpyrate/walkers.py"],[("ASTVisitor/ASTTransformer and state stack","mcpyrate/walkers.py:BaseASTWalker")],
["visit log with state, collected list, returned tree"],state=[("state stack","bindings in force for the current subtree","mcpyrate/walkers.py")])

p("C18","Rendering a tree as source and parsing it again gives the same tree",
"For every syntax tree that Python's parser can produce, the rendered source text parses back to an equal tree, whatever the nesting of operators, statements, literals and patterns, as long as the text stays within Python's own limit on nested parentheses; numbers for which there is no literal (negative, infinite, not a number), which macros may put into a tree, are rendered as expressions of the same value. Trees containing markers, and parts of a tree such as a single clause, argument or pattern, are rendered without failing, also in debug mode. Rendering with and without color differs by nothing but color codes, and rendering leaves the tree as it was.",
["inputs"],"All syntax trees of the running Python version.",
"Tests round-trip some hundred fixed snippets; precedence and quoting bugs live in untested pairs of constructs.",
["mcpyrate/unparser.py"],[("unparse","mcpyrate/unparser.py")],["text and re-parsed tree"])

p("C19","The cache cleaner removes bytecode caches below the given path and nothing else",
"Cleaning a directory removes every bytecode cache directory below it, at every depth, with its contents, and reports each of them; nothing outside those directories is deleted or changed, even in the presence of symbolic links or unusual names: links are not followed, and a link named like a cache directory is itself removed and its target left alone. Entries that another process removes meanwhile are no error; one that cannot be removed is. A dry run reports the same list and deletes nothing, and a path that is not a directory is refused.",
["configurations"],"All directory trees, including nested caches, links, files with the cache directory's name, and empty trees.",
"The existing test suite does not check what is deleted at all.",
["mcpyrate/pycachecleaner.py","mcpyrate/repl/macropython.py"],[("getpycachefiles/deletepycachefiles","mcpyrate/pycachecleaner.py")],["directory tree before and after"])

p("C20","Observing expansion step by step does not change its result",
"Code expanded under the stepping debug aids gives the same final code as without them, from the same macro invocations, made layer by layer. The steps shown are one-layer expansions of the code as it then is, numbered without gaps, the last one shown being the final code, and the number of steps is the depth of macro layers; the display of bindings and of single expansions shows the true bindings and code. When the phases of a multi-phase compilation are stepped, each phase is shown, from the highest to 0, with the code that is compiled for it, and nothing else changes.",
["programs"],"All programs with any nesting of macros emitting macros, in all forms of the stepping aids.",
"Tests run the demos without looking at the output.",
["mcpyrate/debug.py","mcpyrate/core.py"],[("step_expansion/show_bindings/StepExpansion","mcpyrate/debug.py")],["printed steps, final tree, macro call log"])

p("C21","Renaming changes every occurrence of the name and nothing else",
"Renaming a name in a syntax tree replaces it, in place, wherever the language stores an identifier: variables, attributes, function, class, argument, keyword and type-parameter names, imports and their as-names, module names (a dotted one as a whole), exception handler names, global and nonlocal declarations, and names and attributes in patterns. All other parts of the tree, including string constants, type comments and longer names that merely contain it, are unchanged. Renaming to a fresh name leaves none of the old, and renaming back gives the original tree.",
["inputs"],"All syntax trees, all names.",
"There is one small test; identifier positions in the grammar are many and grow by language version.",
["mcpyrate/utils.py"],[("rename","mcpyrate/utils.py:rename")],["returned tree"])

p("C22","Quoted trees convert to and from run-time values faithfully and expand on demand",
"Converting a syntax tree to code that rebuilds it, running that code or converting back directly, gives an equal tree, for every tree and every supported value in it. The facilities that expand macros in a quoted tree (inside a quasiquote at macro-expansion time or on a run-time value, once or until no macro is left, with the bindings of the calling module or of the given one) give the tree the expander itself would give; macros selected to be expanded first (by any of their names, or captured hygienically) are expanded first, the others only afterwards. Missing source locations that are filled in on request are those of the request, and code that is not quoted is refused with a TypeError where quoted code is required.",
["programs","inputs"],"All trees, all supported constants, all selections of the expansion facility.",
"Tests cover a few trees per facility.",
["mcpyrate/quotes.py","mcpyrate/metatools.py"],[("astify/unastify","mcpyrate/quotes.py"),("expand family","mcpyrate/metatools.py")],["trees returned and produced by running the code"])

p("C23","A source path resolves to the module name under which Python would import it",
"A source file or package directory, as it resolves with symbolic links followed, is given the dotted module name that importing it through the deepest search-path entry above it uses, at any package depth, including package init modules, and the name resolves back to the same file unless another entry shadows it. A relative macro-import in a file is resolved against that name. A path under no search-path entry is refused, and a directory whose name merely starts like a search-path entry is not mistaken for being below it.",
["configurations"],"All search paths and directory layouts, including overlapping, prefix-sharing and relative entries.",
"Tests run with one search path.",
["mcpyrate/coreutils.py","mcpyrate/importer.py"],[("match_syspath/resolve_package/relativize","mcpyrate/coreutils.py")],["returned names compared with Python's own import system"])

p("C24","The macro-enabled command line runs programs as Python itself would",
"Running a script file, a module or a package under the macro-enabled command line gives it the same main-module name, package, search-path start, output and exit status that Python itself would, with macros expanded, and code guarded to run only as the main program runs; what Python refuses to run is refused. (Arguments for the program itself are not supported.) Macros defined by or imported into the main program are usable exactly as in an imported module.",
["configurations","programs"],"All combinations of file/module/package invocation, working directory, package depth, and ways for the program to end.",
"The test script starts modules through the command line and checks only that they do not crash.",
["mcpyrate/repl/macropython.py"],[("import_module_as_main","mcpyrate/repl/macropython.py")],["child process output, exit status, sys.path, __name__, __package__"])

p("C25","In an interactive session each input sees exactly the macros imported so far",
"In an interactive session (the console's and the IPython extension's), the macros in force for an input are those macro-imported by it and by earlier inputs, and the functions bound by macro(f) or @macro so far; none is ever lost; macro-importing again picks up what the macro module defines now, and the macro functions imported by an input that runs are also bound to their names as ordinary objects. An input that fails - in parsing, in importing or looking up its macros, in expansion, in compilation or while it runs - shows its error, does not end the session, and leaves the macros and the variables of earlier inputs usable; sessions in one process don't affect each other's macros or variables. Ordinary code behaves as in Python's own interactive console: values shown, names bound, errors, and when more input is asked for; only what isn't Python code is taken as a command (macros?, obj?, obj??); the macro bindings and the (expanded) trees that the session reports are those in force, and obj? and obj?? show the docstring and the source code of the object.",
["histories","fault_sequences"],"All sequences of inputs: macro-imports, redefinitions, macro invocations, ordinary code, and inputs that fail in parsing, expansion or execution.",
"There are no tests of the console.",
["mcpyrate/repl/console.py","mcpyrate/repl/utils.py"],[("MacroConsole","mcpyrate/repl/console.py")],["output and namespace after each input"])
p("C26","A bunch is a dictionary whose items are also its attributes",
"A bunch behaves as the dictionary of its items under every mapping operation, and reading, writing, testing and deleting an attribute is the same as doing so with the item of that name, a missing one being an AttributeError (as an attribute) or a KeyError (as an item); names of the methods of a bunch are refused as attributes and stay usable as items. Copies (shallow, deep, pickled) and a bunch whose contents are replaced by another's don't share later changes with the original; making a bunch of a dictionary shares the dictionary's storage, gives a bunch itself unchanged, and refuses keys that aren't identifiers. Failing operations change nothing, and bunches are equal exactly when their items are.",
["histories"],"All sequences of operations on several bunches and dictionaries, some of which share their storage.",
"The tests use one bunch as the color scheme and only set attributes on it.",
["mcpyrate/bunch.py"],[("Bunch/bunchify","mcpyrate/bunch.py")],["results of operations, contents of all bunches and dictionaries after each"])

p("C27","Generated names are fresh, nesting levels restored, lists flattened without loss",
"A generated name starts with the basename asked for and differs from all names generated before in the process, even if the source of randomness repeats itself; scrubbing gives back the basename, and leaves names without a generated suffix alone. A nesting level is never negative, is what was asked for in the block that changes it, and is what it was before when the block is left, whether by its end, an error or a return; trackers are independent. Flattening a nested list gives its items, in order, without the Nones, and leaves the list as it is; extracting bindings gives exactly the names bound to the given functions; a text is colored with the colors asked for and reset after it, and changes of the color scheme show in the next output.",
["histories","inputs"],"All programs with nested blocks and failures at any point, all basenames and repeating sources of randomness, all nested lists.",
"Tests use these helpers only indirectly, and randomness doesn't repeat in a test.",
["mcpyrate/utils.py","mcpyrate/colorizer.py"],[("gensym/scrub_uuid/NestingLevelTracker/flatten/extract_bindings","mcpyrate/utils.py"),("colorize/setcolor/ColorScheme","mcpyrate/colorizer.py")],["levels after each operation, names, lists, bindings, colored texts"])

p("C28","What is shown about a tree is true: dumps, line numbers, docstrings, locations",
"The dump of a tree, in every layout (one line or indented, with or without attributes and colors), read as Python, gives an equal tree with the values shown; nothing is left out but what was asked to be. The line number reported for code is that of the first node in it that has one, looking into markers and lists, and None only if there is none; a docstring is found exactly if the body starts with a string constant. A formatted location has the file, that line number and the source code; a formatted context is the code's first lines, with an ellipsis exactly if there are more.",
["inputs"],"All syntax trees, including markers and partial trees, in all layouts.",
"The tests print dumps without comparing them.",
["mcpyrate/astdumper.py","mcpyrate/utils.py"],[("dump","mcpyrate/astdumper.py"),("get_lineno/getdocstring/format_location/format_context","mcpyrate/utils.py")],["printed texts and returned values"])
p("C29","Hygienic captures are recognized as such, and nothing else is",
"Code that captures values and macros hygienically is recognized, before and after it runs, by the capture's name (the identifier or the source code of the expression) and stage: a value yet to be captured, a captured value, a captured macro; any other code, including other calls of the same functions, is not, and is shown as it is. Every run of quoted code makes captures of its own, with the values of that moment, which later changes of the variables don't reach; looking a capture up gives that value, or the macro under a unique name, and a ValueError while there is none yet. The debug rendering shows exactly the captures, by their names, as captures.",
["inputs","histories"],"All trees that call the capture functions or resemble such calls; all histories of quoting, running, unquoting, changing variables and looking up.",
"The tests look at a few captures, all of them genuine.",
["mcpyrate/quotes.py","mcpyrate/unparser.py"],[("is_captured_value/is_captured_macro/capture_value/lookup_value/lookup_macro/capture_as_macro","mcpyrate/quotes.py"),("captured_value/captured_macro","mcpyrate/unparser.py")],["keys of recognized captures, values looked up, debug rendering"])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
