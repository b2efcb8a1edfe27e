"""What each check is, for MANIFEST.json."""
_EXP = ("Expander.tla is a deterministic small-step specification of expansion over arbitrary syntax trees. TLC runs it on every "
        "program of a bounded grammar (ExpanderMC.tla, sampled in the quick tier, exhaustive in the thorough one), checking its "
        "invariants, and the runs are replayed in the real expander; seeded random larger programs are run in the real expander and "
        "TLC decides whether each recorded trace is a behaviour of the specification. Assumes macros act as the modelled library of "
        "behaviours; trusts TLC, CPython's ast and the harness encoding.")


def mc(tech, note):
    return {"technique": tech, "level": "model_checking", "note": note}


TECH = {p: mc("TLA+ small-step expander; TLC-generated runs replayed in the code, recorded traces checked by TLC", _EXP)
        for p in ("C01", "C02", "C03", "C04", "C06")}
TECH["C07"] = mc("TLA+ pipeline (Clean.tla) with hook registry, TLC plans replayed in compiler.expand; ctx of every result checked by TLC on recorded expansions; the fixers themselves applied to any code and compared with Fixers.tla",
    "Clean.tla specifies stripping, ctx by position (Ctx.tla), hooks and the final marker check as steps; TLC enumerates plans of hook registration and "
    "runs over trees with shared nodes, wrong or missing ctx and markers (sampled in the quick tier), each replayed through compiler.expand; random programs "
    "with macros in written positions are expanded by the real expander and TLC validates the traces including every ctx. Hooks and macros are those modelled.")
TECH["C05"] = mc("TLA+ specification of import resolution and binding (MacroImports.tla); TLC-computed outcomes replayed in find_macros and compiler.expand on a package tree",
    "MacroImports.tla processes a module's import statements one by one over a fixed world of packages; TLC runs every pair of statements of an alphabet at every place "
    "in the package hierarchy, with and without reload and self-imports (sampled in the quick tier) and seeded longer programs; bindings, module loads, replaced statements, "
    "their positions, run-time names and errors are compared with the real ones. The world of modules is fixed.")

TECH["C20"] = mc("TLA+ small-step expander with the stepping aids as macros; TLC-computed runs and everything they show replayed against the real aids' output",
    "Expander.tla includes the stepping and binding-display aids as macros with their own actions; TLC runs every program of a bounded grammar of aids around, inside and "
    "between other macros (sampled in the quick tier) and seeded random ones, also with the aid replaced by a no-op to decide transparency; the real aids' printed steps, "
    "single expansions, counts, levels and bindings are compared. Texts are rendered by the repository's own unparser. "
    "Programs of Multiphase.tla that step their phases are run too, and the phases shown, with their code, compared.")
TECH["C12"] = mc("TLA+ state machine of sources, caches and importing processes (ImportCache.tla); TLC-checked histories replayed with real files and a fresh process per import",
    "ImportCache.tla has sources with versions, times and faults, compiled files, dependency caches, and the import done step by step, with kills at any macro call; TLC checks that what "
    "runs is what a clean build gives and that nothing is rebuilt needlessly, over every history of a bounded length for eight dependency graphs (sampled in the quick tier) and seeded longer random "
    "ones; every history is replayed on real files with forked processes and the values, macro calls and failures of every import compared. Times strictly increase by a second per change.")

_MOD = ("Modules.tla is a machine over the table of loaded modules: creating, temporary contexts, running and compiling code of any form, imports and reloads of files, "
        "multi-phase compilation that may fail at each phase and nested imports. TLC checks its invariants and action properties over every history of two and (sampled) three operations of an alphabet "
        "after five beginnings, and on seeded longer random histories; every one is replayed in the real code and %s compared after each operation.")
TECH["C11"] = mc("TLA+ state machine of the module table (Modules.tla); TLC-checked histories replayed, identity of every registered module compared after each operation",
    _MOD % "the table, the identity of modules and the attributes of packages are")
TECH["C15"] = mc("TLA+ state machine of modules and run-time code (Modules.tla); TLC-checked histories replayed, outcome, namespace and metadata compared after each operation",
    _MOD % "outcomes, namespaces, docstrings and metadata of modules are")

TECH["C10"] = mc("TLA+ state machine of phase extraction, lifting, expansion and running (Multiphase.tla); TLC-computed runs replayed by import and at run time",
    "Multiphase.tla keeps the tree as blocks are extracted and lifted phase by phase and checks that each phase's code is what the source says; TLC runs every module of three top-level "
    "statements of an alphabet and (sampled) four, and seeded random ones, with docstring, future-imports, self-imports, misplaced and failing blocks; the log of every statement run at every phase, the macros "
    "each use got, the docstring, and failures are compared. Malformed blocks are compared only in that they fail after the phases above.")

TECH["C16"] = mc("TLA+ state machine of switching, caches and imports (Activate.tla); TLC-checked histories replayed; import of plain modules compared with the standard loader's",
    "Activate.tla has the switch, versions and times of five files (plain, macro module, users of a macro, of a dialect, of phases), compiled files and loaded modules; TLC checks every history of three "
    "operations (sampled in the quick tier, four sampled) after four beginnings, each replayed in a fresh process with identity of the loader methods, results and files written compared. The specification "
    "says a plain module is compiled as by the standard loader: code objects are compared for sampled standard library and generated sources at every optimization level.")

TECH["C19"] = mc("TLA+ machine of a file system being cleaned (Cleaner.tla); TLC-checked runs replayed in scratch directories as an unprivileged user",
    "Cleaner.tla removes entries one at a time in every order, with one entry vanishing or one directory locked; TLC checks that only what is inside caches goes, and all of it, over trees of nested caches, links, "
    "lookalike names and ways to name the directory (sampled). Each tree is built for real and cleaned through the functions and the command line; listing, outcome and every entry left are compared.")
TECH["C23"] = mc("TLA+ machine resolving paths and matching search-path entries, with a specification of Python's own finder (PathModule.tla); TLC-computed results compared with the code and with importlib",
    "PathModule.tla resolves paths component by component over a layout with links, packages, namespace packages and prefix-sharing names; TLC checks that the name found leads back to the file, over up to three "
    "entries in 18 spellings, 24 queries and three working directories (sampled). The real functions, a real relative macro-import, the source time stamps and importlib's finder are compared for each.")
TECH["C24"] = mc("TLA+ machine of running a main program (RunMain.tla); TLC-computed runs replayed through the command line, and through Python itself to validate the specification",
    "RunMain.tla finds the main program, initializes its parents, compiles (macro-imports, phases, dialects) and runs it; TLC checks that exactly the named file is main, parents first. Invocations of 12 scripts and 27 "
    "modules or packages from several directories with programs of up to two statements and all endings (sampled) are run in child processes; every line they print (names, packages, search-path start, macros) and the exit status are compared.")

TECH["C13"] = mc("TLA+ machine of the dialect pipeline (Dialects.tla); TLC-checked runs replayed with instrumented dialects",
    "Dialects.tla has the module's content as a sequence of lines, then statements, and finds and applies one transformer at a time; TLC checks the order, instances and chaining for layouts with dialect-imports in every "
    "spelling, in strings and blocks, and dialects that add, move and remove imports or fail (sampled, and seeded random ones). What each real transformer is given (text or statements, instance, location), macro calls, the result, "
    "errors and the steps shown are compared.")

TECH["C14"] = mc("TLA+ machine of splicing on abstract syntax trees (Splice.tla); TLC-computed results compared with the real ones, node by node",
    "Splice.tla lifts and pastes step by step on trees of all node kinds; TLC checks that putting the markers back gives the template, that no statement is lost, and the order of the parts, over combinations of up to three "
    "statements of each side (sampled) and seeded random templates and user code with markers at any place; trees with positions, the identity of pasted code, sharing, and errors are compared.")

TECH["C21"] = mc("TLA+ machine renaming one occurrence at a time and back (Rename.tla); TLC-computed results compared with the real ones",
    "Rename.tla works on trees of all node kinds; TLC checks that nothing but the name changes, that none is left, and the round trip; every name of a corpus covering the whole syntax of Python 3.12, names that occur only in "
    "strings or as parts of others, and seeded random programs are renamed by the real function and compared node by node. The kinds of names are those the language's own tree definition stores as identifiers.")

TECH["C17"] = mc("TLA+ machine of a walk with its state stack, pending states, collection and edits (Walker.tla); TLC-computed walks replayed in the real walkers",
    "Walker.tla interprets a program of walker operations per node class over any tree, one operation per step; TLC checks that states are scoped, nothing is visited twice and items only accumulate. Seeded "
    "random trees over all node classes, random programs and sequences of walks with and without resets are run; the sequence of visits with the state at each, collected items, final state and the resulting tree are compared.")

TECH["C18"] = mc("TLA+ reader of Python text (Syntax.tla): TLC parses the rendered tokens back into trees and compares, confirmed by CPython's parser",
    "Syntax.tla specifies how a sequence of Python tokens reads as a tree (statements, expressions, patterns, f-strings, type parameters) with its precedences. TLC reads the text rendered "
    "for every listed statement and expression, for each of them in place of every part of every other (sampled in the quick tier), for seeded random edits of them and for standard library code; "
    "the specification is validated on the standard renderer's texts, and a text counts as misread only if CPython's parser also reads another tree. Colors, markers, debug mode and parts are run on the same trees. Tokenization is CPython's.")

TECH["C08"] = mc("TLA+ machine of quoting and unquoting by levels (Quote.tla); TLC-computed trees compared with the ones the expanded programs make",
    "Quote.tla finds the operators of a program level by level, then evaluates the ones that act, innermost first; TLC checks that the result is what the structural meaning of quoting says, that nothing internal is left and "
    "that code without acting operators comes out verbatim. The programs cover the whole syntax of Python 3.12 (a corpus, combinations of it, library code), with seeded random operators in any place and at any level, all chains of "
    "operators up to length 5 (sampled in the quick tier), and values of all kinds, suitable or not; results that are quotes again are run again. Trees, evaluated code, errors, independence of repeated runs and of the inserted trees are compared.")

TECH["C09"] = mc("TLA+ machine of captures, processes and kept bytecode (Hygiene.tla), explored exhaustively in small bounds; TLC-computed histories replayed in real processes",
    "Hygiene.tla has a heap of mutable values, use modules whose sites capture variables, expressions, functions and macros when they are expanded, bytecode kept across processes, and sites that change what they got. TLC checks on all "
    "interleavings in small bounds that a site has what was captured, with its own changes only, that no two sites have an object in common and that kept captures stay. Seeded random histories over 1-4 processes are run with real "
    "modules and bytecode caches, at use sites that bind the captured names (and mcpyrate's own) to other things; every observed value (contents and identity, by mutation), macro call and name of the use module is compared.")
TECH["C22"] = mc("TLA+ specification of conversions and on-demand expansion (Metatools.tla on top of the expander machine of Expander.tla); TLC-computed results replayed into the real facilities",
    "Metatools.tla runs the expander machine on code that is data, under a sequence of operations (static and run-time expansion, fully or one layer, with all or given bindings, step printing, code from values and back, filling in of "
    "locations, expand-first, misuse). TLC checks that nothing expandable is left, that only macros in force are called, that one layer is one layer and that conversions lose nothing but locations. Seeded random programs that quote code "
    "with macros and unquotes, and values of all kinds of trees and constants, are run for real, and every macro call (its tree, arguments, mode) and the final value are compared.")
TECH["C25"] = mc("TLA+ specification of interactive sessions with macro modules that change and break (Repl.tla); TLC-computed sessions replayed in real consoles",
    "Repl.tla has consoles, their names and macros, and macro modules that are edited, break, vanish and are repaired. TLC checks the isolation of sessions, that inputs that fail leave everything usable, where macros come from, that none is "
    "lost and that imports are up to date, on all sessions of two inputs out of a menu (of three in the thorough tier, sampled in the quick one) and on seeded random ones with several consoles, which are replayed in MacroConsole and in IPython with "
    "the extension: values shown, names, macros, errors, requests for more input, reported bindings, docstrings and sources are compared after every input. Ordinary code of the whole syntax is run line by line in Python's own console and here.")
TECH["C26"] = mc("TLA+ machine of stores shared by bunches and dictionaries (Bunch.tla); TLC-computed histories replayed on real ones",
    "Bunch.tla separates storage from the bunches and dictionaries that have it, one operation per step. TLC checks that keys are unique, that only what shares a storage sees a change, that looking changes nothing. Sequences of two operations "
    "out of an alphabet on four starting points (all in the thorough tier) and seeded random histories with copies, pickles and shared storage are run, and the result and all contents compared after every operation.")
TECH["C27"] = mc("TLA+ machine of nested blocks, generated names and worklists (Helpers.tla); TLC-computed programs replayed with the real helpers",
    "Helpers.tla has a stack of blocks (levels, tries, functions) that errors and returns go out of, a source of randomness that repeats itself, and flattening one item at a time. TLC checks that levels are restored and not negative, that "
    "trackers are independent, names fresh, and nothing lost. All programs of up to three nested blocks (sampled in the quick tier) and seeded random ones are run with real with statements, tries and returns; levels, names, lists and colored texts are compared after each operation.")
TECH["C28"] = mc("TLA+ reader of dumps and specification of lines, docstrings and contexts (Dump.tla), applied by TLC to what the real functions give",
    "Dump.tla reads the tokens of a dump back into a tree, one token at a time, in every layout, and specifies the line number, docstring and context of a tree. TLC checks what the real dump printed for a corpus of the whole syntax of Python 3.12, markers, "
    "partial and random trees, with and without attributes, positions and colors, against the trees (code to model), and the other functions' results against its own.")
TECH["C29"] = mc("TLA+ machine of hygienic captures and walker that recognizes them (Captures.tla); TLC-computed histories replayed, real trees checked by TLC",
    "Captures.tla has variables, quoted code, the trees made by running it and the values captured; and a walker of syntax trees that finds captures. TLC checks that what is captured is frozen, that only running makes captures, that names of macros are unique "
    "and that the walk finds exactly what is there. Calls of the capture functions in all combinations of ways to reach them and arguments (the thorough tier: all; quick: the near ones and a sample), nested and quoted ones are judged by TLC and by the real functions; "
    "seeded random histories of quoting, running, unquoting, changing and looking up are run for real, comparing keys, values, macros and debug rendering after every step.")
