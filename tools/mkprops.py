#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json, os
RT = "fluent.runtime/fluent/runtime/"
SX = "fluent.syntax/fluent/syntax/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "Fallback answers from the first locale and location that can",
     "For every ordered list of locales, roots and resource ids and every arrangement of files on disk, looking a message up returns what the first bundle in preference order (locales in the given order, within a locale the loader's locations in order) that has a value for it formats to, and the message id if no bundle has one. A bundle holds whatever of the requested resources exists at that location, an earlier resource id winning over a later one for the same message. References, functions, isolation marks and number/plural conventions used in the answer are those of the answering bundle, never of another locale.",
     ["configurations", "histories", "inputs"],
     "all locale lists, root lists, resource-id lists, presence patterns of files (missing, empty, other directories), all orders of lookups on one object",
     "The tests use one disk layout with three locales and one order of lookups; the guarantee is about every layout, every subset of missing files and every history of earlier lookups.",
     [RT + "fallback.py", RT + "bundle.py"],
     [("FluentLocalization._iterate_bundles / _bundles / format_value", RT + "fallback.py"),
      ("FluentResourceLoader.resources", RT + "fallback.py"),
      ("FluentBundle._get_babel_locale", RT + "bundle.py")],
     [("_bundle_cache", "bundles already built, in preference order", RT + "fallback.py")],
     ["FluentLocalization.format_value", "FluentResourceLoader.resources"])

prop("C02", "Only what a lookup needs is loaded, and what is loaded stays",
     "A lookup consults a further locale or location only when no already loaded bundle has a value for the message, so missing, damaged or unreadable files of less preferred locales cannot affect messages that more preferred ones answer. A lookup that a loaded bundle can answer touches no files. Once a bundle has been loaded its answers no longer change, whatever happens to the files afterwards.",
     ["histories", "fault_sequences"],
     "all histories of lookups interleaved with edits, deletions, damage and read failures of any files",
     "Tests never change or break a file after construction and never look at which files were opened.",
     [RT + "fallback.py"],
     [("generator-driven lazy bundle list", RT + "fallback.py")],
     [("_bundle_cache", "bundles already built", RT + "fallback.py"), ("_bundle_it", "position of the lazy loading", RT + "fallback.py")],
     ["FluentLocalization.format_value", "file opens issued by FluentResourceLoader"])

prop("C03", "A failed load is reported to the caller and not remembered",
     "If opening, reading or decoding a file, or a custom loader, fails during a lookup, that lookup either raises the failure or returns the correct answer; it never silently skips the failed resource and answers from a less preferred locale. Bundles loaded before keep answering, and as soon as the failure is gone every later lookup on the same object gives the answer it would have given had the failure never happened. No file stays open after a lookup has returned or raised.",
     ["fault_sequences", "histories", "crash_points"],
     "every sequence of lookups with I/O errors, interruptions, vanishing files and short reads at any file operation, and every point at which the faults stop",
     "No test injects a failing read; the tests mock the disk with an always-working dictionary.",
     [RT + "fallback.py"],
     [("FluentLocalization._bundles resumes after a failing loader", RT + "fallback.py"),
      ("FluentResourceLoader.resources", RT + "fallback.py")],
     [("_bundle_it", "a generator that is finished once it has raised", RT + "fallback.py")],
     ["FluentLocalization.format_value"])

prop("C04", "One localization object can serve many threads",
     "Lookups made on one localization object by any number of threads, in any interleaving, each return exactly what the same lookup returns on a fresh object used by a single thread, and never raise. The preference order of locales is the same for every thread and for all later lookups. A lookup answered by already loaded bundles does not wait for a slow load of a less preferred locale going on in another thread. Localization objects that share a loader do not disturb each other.",
     ["schedules", "histories"],
     "all interleavings of concurrent lookups, including lookups that trigger loading, and all stall times of file operations",
     "The suite is single-threaded; the races are in the window between fetching the next bundle and recording it.",
     [RT + "fallback.py"],
     [("loading of the next bundle is serialised", RT + "fallback.py")],
     [("_bundle_cache", "shared list of bundles", RT + "fallback.py"), ("_bundle_it", "shared generator", RT + "fallback.py")],
     ["FluentLocalization.format_value"])

prop("C05", "One bundle can serve many threads while resources are added",
     "Threads may check for, retrieve and format messages of one bundle while other threads do the same or add further resources to it. Every call returns a result that is possible if each message or term it uses has the definition in force at some moment during the call, with the error list of that call only, and no call raises for a message that was already there. Once adding has returned, every later call in any thread sees the added definitions.",
     ["schedules", "histories"],
     "all interleavings of has_message, get_message, format_pattern and add_resource (with and without overrides) on one bundle",
     "No test uses a bundle from more than one thread; the compile-on-first-use cache and its interaction with add_resource are only reached by interleaving.",
     [RT + "bundle.py", RT + "resolver.py", RT + "prepare.py"],
     [("FluentBundle._lookup compile cache", RT + "bundle.py"), ("FluentBundle.add_resource", RT + "bundle.py"),
      ("per-call ResolverEnvironment", RT + "resolver.py")],
     [("_compiled", "compiled messages and terms", RT + "bundle.py"), ("_messages/_terms", "definitions in force", RT + "bundle.py")],
     ["FluentBundle.format_pattern", "FluentBundle.get_message", "FluentBundle.has_message", "FluentBundle.add_resource"])

prop("C06", "The definition in force depends on what was added, not on what was used",
     "After any history of adding resources, checking, retrieving and formatting, a message or term has the first definition added for it, unless a later one was added with overrides allowed, in which case it has the latest such definition. This holds for direct retrieval and for references from other messages and terms alike, no matter which messages had been retrieved or formatted before. Messages and terms of the same name are independent, and junk and comments never define anything.",
     ["histories"],
     "all histories of add_resource (both modes), has_message, get_message, format_pattern by any number of interleaved clients of one bundle",
     "The tests add everything before the first retrieval, or override before the first use; whether a message was used before the override is a property of the history.",
     [RT + "bundle.py"],
     [("FluentBundle.add_resource", RT + "bundle.py"), ("FluentBundle._lookup", RT + "bundle.py")],
     [("_compiled", "compiled entries must follow the definitions", RT + "bundle.py")],
     ["FluentBundle.get_message", "FluentBundle.has_message", "FluentBundle.format_pattern"])

prop("C07", "Calls and bundles do not leak into each other",
     "The text and error list of a formatting call depend only on its own arguments, its own bundle's locale, functions, isolation setting and definitions: never on other calls, earlier, concurrent, or nested inside a custom function, and never on other bundles, even when these share resources, function tables, argument dictionaries or argument values. Formatting options given in one call apply to that call only. Resources, function tables, argument dictionaries and argument values passed in are left unmodified.",
     ["schedules", "histories"],
     "all interleavings and nestings of formatting calls on any set of bundles that share resources, functions and arguments",
     "Tests format one message at a time on one bundle; leaks through shared state show only between two calls, nested calls or bundles.",
     [RT + "resolver.py", RT + "bundle.py", RT + "types.py", RT + "prepare.py", RT + "builtins.py", RT + "utils.py"],
     [("ResolverEnvironment per call, CurrentEnvironment swapped and restored", RT + "resolver.py"),
      ("clone_pattern / merge_options", RT + "types.py"), ("functions table copied per bundle", RT + "bundle.py")],
     [("ResolverEnvironment.errors/active_patterns/part_count", "state of one call", RT + "resolver.py")],
     ["FluentBundle.format_pattern"])

prop("C08", "A failure inside a placeable stays inside it",
     "Whichever custom function calls, value formatters, or lazily loaded locale or time-zone data fail with an ordinary exception during a formatting call, the call returns normally with a text and an error list. A failing function or value formatter costs only its own placeable: the rest of the text, before and after it and in referencing messages, is the same as without the failure, and the very exception that was raised is in the error list. A later call in which nothing fails gives the undisturbed result.",
     ["fault_sequences", "histories"],
     "all combinations of failing calls (which invocation of which function or formatter fails, with which exception type), at any nesting through message and term references, selectors and arguments",
     "Tests cover a function that always raises in one position; failing on the n-th call, inside references and selectors, in value formatting, with exception types the resolver itself uses internally, is not sampled.",
     [RT + "resolver.py", RT + "bundle.py", RT + "types.py"],
     [("FunctionReference.__call__ catches", RT + "resolver.py"), ("resolve()", RT + "resolver.py"), ("FluentBundle.format_pattern catches", RT + "bundle.py")],
     [("ResolverEnvironment.errors", "errors of the call", RT + "resolver.py")],
     ["FluentBundle.format_pattern", "FluentLocalization.format_value"])

prop("C09", "An interrupted call leaves nothing behind",
     "If a call into a bundle or localization is cut short by an exception that must not be swallowed (an interrupt, a cancellation or exit request raised in it or in a function or loader it calls), the exception reaches the caller. Afterwards the object behaves exactly as if the interrupted call had not been made, except that an interrupted add may have added a leading part of the resource. This holds for every point at which the call can be cut short, for repeated interruptions, and for other threads sharing the object.",
     ["crash_points", "fault_sequences", "histories"],
     "every interruption point inside lookup, retrieval, formatting, adding and loading, repeated any number of times",
     "No test raises anything but ordinary errors, and none from an arbitrary point inside the library.",
     [RT + "bundle.py", RT + "fallback.py", RT + "resolver.py"],
     [("no partially built state is published", RT + "bundle.py"), ("loading resumes after an interrupted load", RT + "fallback.py")],
     [("_compiled, _bundle_cache, _bundle_it", "shared state an interruption could leave inconsistent", RT)],
     ["FluentBundle.format_pattern", "FluentBundle.add_resource", "FluentLocalization.format_value"])

prop("C10", "Hostile translations cost a bounded amount of work",
     "Whatever references translations contain - to themselves, in cycles, in exponentially growing expansions through messages, terms, attributes, selectors or function arguments, or in chains deeper than the stack left to the caller - and however many digits they write or ask for in number options, a formatting call finishes within a bounded number of steps with a text of bounded length. It does not raise, and reports an error whenever it cut the evaluation short. Other calls, concurrent or later, are not affected.",
     ["inputs", "schedules", "fault_sequences"],
     "all reference graphs, all amounts of remaining stack, interleaved with ordinary calls on the same bundle",
     "The tests hold two billion-laughs chains and two cycles; reference graphs, the stack depth at the call and concurrent ordinary calls are not varied.",
     [RT + "resolver.py", RT + "prepare.py", RT + "bundle.py"],
     [("Pattern.MAX_PARTS, MAX_PART_LENGTH", RT + "resolver.py"), ("active_patterns", RT + "resolver.py")],
     [("part_count, active_patterns", "work and cycle tracking of one call", RT + "resolver.py")],
     ["FluentBundle.format_pattern", "FluentLocalization.format_value"])

prop("C11", "Formatting does not depend on the host's clock, zone, locale or hashing",
     "The text and errors produced for given translations, arguments and bundle locale are the same whatever the host's wall clock, time zone, process locale and hash seed are, and stay the same when any of these change between calls. A date-time value without a zone denotes UTC, one with a zone denotes exactly that instant (also inside repeated and skipped hours), and a requested display zone converts that instant. Number and date formatting use the conventions of the first locale given to the bundle that Babel knows (bundles given none that it knows are outside this property).",
     ["configurations", "histories", "fault_sequences"],
     "all settings and mid-run jumps of clock, TZ, LANG/LC_*, PYTHONHASHSEED; all date, date-time and number arguments around transitions",
     "The suite runs with TZ=UTC, one hash seed and one process locale, so code that reads the host's zone, clock or locale passes.",
     [RT + "types.py", RT + "bundle.py", RT + "resolver.py"],
     [("_ensure_datetime_tzinfo", RT + "types.py"), ("FluentDateType.format / FluentNumber.format take the bundle's locale", RT + "types.py"),
      ("FluentBundle._get_babel_locale", RT + "bundle.py")],
     [], ["FluentBundle.format_pattern", "fluent_date", "fluent_number"])

prop("C12", "A damaged entry of a stored resource costs only itself",
     "When the stored text of a resource is torn, truncated or corrupted inside some entry, parsing it still ends without raising, even where the damage nests hundreds of placeables or writes thousands of digits; every entry that ends before the damaged entry is parsed exactly as in the undamaged text, and every message or term that starts on its own line after the damage keeps its value and attributes. An application using that resource keeps answering from it for all undamaged messages, and answers from the next locale for messages the damage turned into junk; no lookup raises because of the damage. Rewriting the line ends of a resource changes none of its messages.",
     ["fault_sequences", "crash_points", "inputs"],
     "all torn writes (prefix, prefix of new plus suffix of old), lost and zeroed blocks, flipped, deleted, inserted and duplicated stretches, at every position of every resource",
     "Fixtures hold some dozens of hand-written errors; where a write tears or a byte flips is arbitrary.",
     [SX + "parser.py", SX + "stream.py", RT + "fallback.py"],
     [("get_entry_or_junk / skip_to_next_entry_start", SX + "parser.py, " + SX + "stream.py")],
     [], ["FluentParser.parse", "FluentLocalization.format_value"])

prop("C13", "Nothing in a damaged resource disappears silently",
     "For every stored text, however damaged, parsing assigns every non-blank character to exactly one top-level entry, in order of position. What could not be understood is kept verbatim as junk at its position, with at least one annotation that lies within the junk and names an error, and writing the resource back with junk kept preserves all of it. Error positions and entry positions refer to the text as stored.",
     ["fault_sequences", "crash_points", "inputs"],
     "all damaged texts obtained by torn, lost, flipped, duplicated, inserted or reordered stretches of stored resources, at every position",
     "Fixtures compare a fixed set of texts with fixed trees; no test states or samples the coverage of arbitrary damaged text.",
     [SX + "parser.py", SX + "stream.py", SX + "serializer.py"],
     [("get_entry_or_junk", SX + "parser.py"), ("skip_to_next_entry_start", SX + "stream.py"), ("serialize_junk", SX + "serializer.py")],
     [], ["FluentParser.parse", "FluentSerializer.serialize"])

prop("C14", "Tools print the exact result or fail, whatever the storage does",
     "The command-line tools and the highlighter read a file as UTF-8 and print the complete result for exactly that content, independent of how reads and writes are split up and of the encoding the host's locale suggests for files. If the file cannot be read or decoded they print nothing of it and end with a failure, and a failing output is reported as a failure. Highlighting any text, damaged or not, yields tokens that in order reproduce the text character by character.",
     ["fault_sequences", "configurations", "inputs"],
     "all splits of reads and writes, all read, decode and write failures, all host encodings, all damaged file contents",
     "There are no tests of the tools; the lexer test highlights one small text.",
     ["fluent.pygments/fluent/pygments/lexer.py", "fluent.pygments/fluent/pygments/cli.py", "tools/parse.py", "tools/fluentfmt.py", "tools/serialize.py"],
     [("Tokenizer / get_tokens_unprocessed", "fluent.pygments/fluent/pygments/lexer.py"), ("read_file", "tools/*.py"), ("main", "fluent.pygments/fluent/pygments/cli.py")],
     [], ["process output and exit status", "FluentLexer.get_tokens_unprocessed"])

prop("C15", "Published documentation always matches the version it is published as",
     "In every documentation build, whatever git or sphinx steps fail, a version's directory is only ever built from the source of that version's tag and labelled with that project and version. A build that reports success has built the development version and every requested project's release tagged after the cut-off date, lists exactly these versions on every page set, redirects each project to its stable version if it has releases and to dev otherwise, and points stable at the most recent release. If any step fails, the build reports failure.",
     ["fault_sequences", "histories", "configurations"],
     "all sets of projects and tags, all failures of any git or sphinx invocation or file operation in the build",
     "fluent.docs has no tests at all.",
     ["fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/tags.py", "fluent.docs/fluent/docs/__init__.py", "scripts/build-docs"],
     [("build()", "fluent.docs/fluent/docs/build.py"), ("get_tag_infos", "fluent.docs/fluent/docs/tags.py")],
     [], ["files under _build", "git and sphinx-build invocations"])

prop("C16", "A failed or killed documentation build can simply be run again",
     "After a documentation build that failed or was killed at any step, running it again without faults succeeds and publishes exactly what a first, undisturbed build publishes for the same projects and tags. A finished build, successful or failed, leaves no temporary checkout behind. Running a successful build again changes nothing.",
     ["crash_points", "fault_sequences", "histories"],
     "all points at which a build can fail or be killed, and all sequences of failed, killed and successful builds, also with new tags appearing in between",
     "fluent.docs has no tests at all.",
     ["fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/__init__.py", "scripts/build-docs"],
     [("build() cleanup and stable link", "fluent.docs/fluent/docs/build.py"), ("ProjectBuilder.create_versions_doc / __exit__", "fluent.docs/fluent/docs/build.py")],
     [("_build tree, worktree directory, docs/_templates", "durable state", "fluent.docs/fluent/docs/build.py")],
     ["files under _build and the temporary directory"])

prop("C17", "Reading a shared syntax tree never changes it",
     "Parsing, serializing, comparing, cloning, converting to and from JSON, visiting, highlighting, and adding to bundles and formatting are read-only on the syntax trees, JSON values, texts and lists they are given: done by any number of threads at once on the same trees, with shared parser, serializer, visitor-class and lexer objects, and even when cut short at any point, each gives the result it gives alone and leaves the trees unchanged. A clone shares no part with its original, nor a tree with the JSON made from it or the JSON it was rebuilt from: whatever is done to one never shows in the other.",
     ["schedules", "crash_points", "histories"],
     "all interleavings and interruptions of read operations on shared trees and shared tool objects",
     "Tests use each object once in one thread.",
     [SX + "parser.py", SX + "serializer.py", SX + "ast.py", SX + "visitor.py", RT + "prepare.py", "fluent.pygments/fluent/pygments/lexer.py"],
     [("stateless FluentParser / FluentSerializer", SX), ("BaseNode.clone / equals / to_json", SX + "ast.py"), ("Compiler copies node fields", RT + "prepare.py")],
     [], ["public functions of fluent.syntax", "FluentBundle.add_resource"])

prop("C18", "A failing transformation leaves a complete, usable tree",
     "If a transformer's callback raises at any point, the exception reaches the caller and the tree is left complete: every node list holds either all its old or all its transformed children, and no node is lost, duplicated or half replaced. Running the transformation again to its end then gives the same tree as an undisturbed run, for transformations that are insensitive to being applied twice. A visitor cut short has changed nothing.",
     ["fault_sequences", "crash_points"],
     "every callback invocation at which a visitor or transformer can fail, any number of times, on every tree",
     "The visitor tests never let a callback fail.",
     [SX + "visitor.py", SX + "ast.py"],
     [("Transformer.generic_visit replaces lists in one step", SX + "visitor.py")],
     [], ["Transformer.visit", "Visitor.visit"])

prop("C19", "Edited resources survive saving, crashes and reloading",
     "In any history of editing sessions - load, replace, add, remove, reorder or comment entries with parsed or built nodes, save, crash, reload - a saved resource reads back as the tree that was saved, apart from positions and omitted junk. Entries a session did not edit are never altered, however often the resource is saved and reloaded. Saving a reloaded resource without edits reproduces the saved text exactly.",
     ["histories", "crash_points", "inputs"],
     "all histories of edit, save, crash and reload on all resources",
     "Serializer tests round-trip some dozens of fixed texts once; drift over repeated sessions and mixes of edits is not sampled.",
     [SX + "serializer.py", SX + "parser.py", SX + "ast.py"],
     [("FluentSerializer", SX + "serializer.py"), ("FluentParser", SX + "parser.py")],
     [], ["serialize", "parse", "BaseNode.equals"])

# --- pure functions of their input: listed, not claimed -------------------------------
prop("C20", "A tree survives conversion to JSON and back",
     "For every parsed or built tree, converting it to JSON and rebuilding it gives an equal tree, spans included.",
     ["inputs"], "all trees", "Fixtures sample a few dozen trees.",
     [SX + "ast.py"], [("to_json / from_json", SX + "ast.py")])
prop("C21", "Spans delimit exactly the source text of each node",
     "For every text, each node's span covers exactly the characters it was parsed from: children lie within parents, siblings are disjoint and ordered, and identifiers and literals equal their slice.",
     ["inputs"], "all texts", "Fixtures sample a few dozen texts.",
     [SX + "parser.py", SX + "stream.py"], [("with_span", SX + "parser.py")])
prop("C22", "Multiline values lose exactly their common indentation",
     "For every multiline value, exactly the indentation common to its indented lines is removed, blank lines between are kept, and leading and trailing blank lines are dropped.",
     ["inputs"], "all texts", "Fixtures sample some layouts.",
     [SX + "parser.py"], [("get_pattern / dedent", SX + "parser.py")])
prop("C23", "Number options are honoured in every locale",
     "For every number, locale and admissible combination of options (grouping, fraction, integer and significant digits, currency, percent), the text is what the locale's CLDR pattern with these options prescribes.",
     ["inputs"], "all numbers, locales and option combinations", "Tests sample a handful in en-US.",
     [RT + "types.py"], [("FluentNumber._apply_options", RT + "types.py")])
prop("C24", "Plural and ordinal variants follow the locale's rules",
     "For every number and locale, the variant selected is the exact numeric match if listed before it, else the one named by the locale's CLDR cardinal or ordinal category, else the default.",
     ["inputs"], "all numbers, locales and variant lists", "Tests sample a few numbers in English.",
     [RT + "resolver.py", RT + "bundle.py"], [("match / SelectExpression", RT + "resolver.py")])
prop("C25", "String escapes denote exactly their characters",
     "For every string literal, parsing its value replaces each known escape by its character and surrogate escapes by U+FFFD, and leaves everything else untouched.",
     ["inputs"], "all string literals", "Tests sample a few escapes.",
     [SX + "ast.py", SX + "parser.py"], [("StringLiteral.parse", SX + "ast.py")])
prop("C26", "Tree equality is exactly equality of content",
     "Two trees compare equal if and only if they have the same types, fields and children in the same order, ignoring exactly the fields named.",
     ["inputs"], "all pairs of trees and ignored-field lists", "Tests sample a few pairs.",
     [SX + "ast.py"], [("BaseNode.equals", SX + "ast.py")])

prop("C27", "Finished calls leave nothing behind that grows",
     "However many calls an application makes on long-lived bundles, localization objects, parsers, serializers, visitors and lexers, or on short-lived ones of its own, the memory the library holds on to stays bounded by what the application keeps: loaded translations, objects and caches of fixed size. This includes calls with ever new texts, values, ids and names, calls that report errors, raise, run out of stack or are interrupted, reloads and overridden definitions, and lookups over disks that fail. Arguments, results of functions, errors and exceptions are released when the call that they belong to has finished and the caller has let them go.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of calls, failures and interruptions, however long, in one or several threads",
     "Tests make a handful of calls per object and never look at what is kept.",
     [RT + "fallback.py", RT + "bundle.py", RT + "resolver.py", RT + "types.py", RT + "prepare.py",
      SX + "parser.py", SX + "serializer.py", SX + "visitor.py", SX + "ast.py"],
     [("compiled entries", RT + "bundle.py"), ("loaded bundles", RT + "fallback.py"),
      ("state of one call", RT + "resolver.py")],
     [], ["objects reachable from the library", "values still alive"])

prop("C28", "Work stays in proportion to what there is to do",
     "Parsing, highlighting, writing, cloning, comparing, converting, visiting or adding a text or its tree takes steps at most in proportion to the length of the text, whatever is written in it, valid, hostile or damaged. Looking up and formatting messages takes steps that depend only on the definitions and arguments used and the locales consulted: not on how many other messages are loaded, nor on how many calls were made before, and not on which of them failed, were interrupted, named unknown messages or met a failing disk.",
     ["inputs", "histories", "fault_sequences"],
     "all texts of any length, and all histories of calls and failures, however long",
     "Tests use texts of some lines and objects that serve a few calls; quadratic work passes unnoticed.",
     [SX + "parser.py", SX + "stream.py", SX + "serializer.py", SX + "ast.py", SX + "visitor.py",
      "fluent.pygments/fluent/pygments/lexer.py", RT + "bundle.py", RT + "fallback.py", RT + "resolver.py"],
     [("single pass with limited backtracking", SX + "stream.py"), ("nesting limit", SX + "parser.py"),
      ("tables of definitions", RT + "bundle.py"), ("list of loaded bundles", RT + "fallback.py")],
     [], ["executed steps"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
