#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

API = ["api.go"]
OBS = ["cssc.Compile's Result.Files", "Reporter.AddError calls", "Resolver.Resolve calls", "file reads"]
# ---------------------------------------------------------------- engine
p("C01", "Compile returns on every import graph",
  "For every import graph (including self imports, cycles, diamonds, long chains, wide fans, repeated imports and files that fail to load), every import mode and every schedule, Compile returns in bounded time without deadlocking or crashing the host process. An import that closes a cycle contributes nothing when imports are inlined, and a project that would be exponentially large when inlined is reported instead.",
  ["configurations", "schedules"], "all import graphs x import modes x entry lists x interleavings of file loads and resolutions",
  "Tests compile four fixed acyclic graphs under whatever schedule occurs; no test has a cycle, a self import or a contended schedule.",
  API, [("parse each reachable file once; break cycles while inlining", "api.go parseFile/addSource/inline")],
  [("sources", "which absolute paths have been claimed", "api.go")], OBS)
p("C02", "Outputs are exactly the requested files",
  "The result contains exactly one output per entry file that loads and parses and, only when imports are followed, one per file reachable from an entry through resolvable imports of loadable files; nothing else. Each output is keyed by that file's absolute path (symbolic links in it are not resolved), however the path was spelled and however often the file was requested or imported.",
  ["configurations", "schedules"], "all import graphs x entry lists (duplicates, different spellings, entry also imported) x import modes x interleavings",
  "Tests assert only the number of outputs for four fixed graphs.",
  API, [("output marking", "api.go addSource"), ("publishing of results", "api.go Compile")],
  [("outputs", "files to print", "api.go")], OBS)
p("C03", "The result does not depend on scheduling",
  "For fixed file contents and options, every run of Compile yields byte-identical outputs and the same multiset of reported errors, whatever order files finish loading, imports finish resolving and goroutines are scheduled in.",
  ["schedules"], "all interleavings of loads, resolutions and error reports for a given project",
  "Each test observes one arbitrary schedule and compares only counts.",
  API, [("locks around shared compilation state", "api.go"), ("per-output copies of parsed files", "api.go")], (), OBS)
p("C04", "Every failure is reported exactly once",
  "Each import that cannot be resolved, each file that cannot be read and each file that does not parse is reported to the Reporter exactly once per compilation (per import statement for resolution failures, per file otherwise), and a compilation in which nothing goes wrong reports nothing. Failures are never silently dropped.",
  ["fault_sequences", "schedules"], "all placements of resolution, read and parse failures over import graphs, under all interleavings",
  "Tests cover one missing entry and one broken import.",
  API, [("addError on every failing path", "api.go parseFile")], (), OBS)
p("C05", "Reporter calls are serialized and precede the return",
  "Compile never calls the caller's Reporter from two goroutines at once, never calls it after Compile has returned, and a Reporter that is slow or keeps unsynchronized state therefore observes every error. This holds for errors and warnings from loading, resolving, parsing, transforming and printing alike.",
  ["schedules"], "all interleavings of concurrent failures and warnings in different files",
  "Tests never have two files failing concurrently and use tiny reporters.",
  ["api.go", "internal/transformer/transformer.go"], [("compilation-wide reporter lock", "api.go AddError")],
  [("mu", "reporter mutual exclusion", "api.go")], ["Reporter.AddError enter/exit"])
p("C06", "Each file is loaded once and files are never mixed up",
  "Within one compilation every distinct file is read at most once, so all uses of it see the same content even if the file changes on disk meanwhile. The output stored under a path is derived from that path's content and never from another file's.",
  ["schedules", "histories"], "all interleavings of concurrent requests for the same and for different files",
  "A lost-update race between two loads needs a precise interleaving that tests never force; tests do not look at contents.",
  API, [("claim of a path before reading it", "api.go addSource")],
  [("sources", "path to index assignment", "api.go"), ("nextIndex", "next free index", "api.go")], OBS)
p("C07", "Inlining equals textual replacement of imports",
  "When imports are inlined, the output of an entry has the meaning of the entry with every resolvable import replaced, at its position and recursively, by the imported file's rules in order, once per import statement. Imports that could not be loaded stay in place as written, and rules before, between and after imports keep their order.",
  ["configurations", "inputs"], "all import graphs (chains, diamonds, repeated imports, failures) and positions of imports",
  "The only inline test asserts that one output exists.",
  ["api.go", "internal/transformer/transformer.go"], [("import replacement", "internal/transformer/transformer.go transformNodes"), ("inline map construction", "api.go")], (), OBS)
p("C08", "Imports that are not inlined are kept exactly once",
  "When imports are passed through or followed, every import rule appears in the output exactly once, in its original position, with its original target and conditions. The importing file's own rules are unaffected by the imported file.",
  ["configurations", "inputs"], "all files with any number and form of imports (string, url(), quoted url(), media conditions), in passthrough and follow modes",
  "Tests assert the number of files only, not their content.",
  ["internal/transformer/transformer.go", "internal/printer/printer.go", "internal/parser/parser.go"], [("import handling", "internal/transformer/transformer.go transformNodes")], (), OBS)
p("C09", "A failing file does not disturb the others",
  "If some files of a compilation cannot be read, resolved or parsed, every other requested file still gets exactly the output it would have had on its own (with the failing imports left in place). No failure in one file suppresses, empties or alters another file's output.",
  ["fault_sequences", "schedules"], "all subsets of failing files and imports over all import graphs",
  "One test has a single broken import and counts outputs.",
  API, [("failing files skipped when printing", "api.go Compile")], (), OBS)
p("C10", "Concurrent compilations are independent",
  "Running several Compile calls at the same time in one process, over the same or different files and with different options, gives each exactly the result and errors it would have had alone.",
  ["schedules", "configurations"], "all interleavings of concurrent Compile calls",
  "No test runs two compilations concurrently.",
  ["api.go", "internal/transformer/transformer.go", "internal/parser/parser.go", "internal/printer/printer.go"], [("no shared mutable package state", "whole module")], (), OBS)
# ---------------------------------------------------------------- resolver
RES = ["resolver/node_resolver.go"]
p("R01", "Relative imports resolve in the documented order",
  "For a specifier starting with ./, ../ or /, joined to the importing directory, the default resolver picks: the path itself if it is a file; if nothing exists there, the path with .css appended if that is a file; if it is a directory, the file named by its package.json style attribute, or index.css when there is no package.json. Otherwise it fails; it never falls back to the base URL or node_modules after such a specifier resolved.",
  ["configurations", "inputs"], "all small file trees (file/dir/absent at each candidate, package.json present/absent/invalid/with and without style) x specifiers",
  "Tests sample ten trees out of the product of candidate states.",
  RES, [("candidate order", "resolver/node_resolver.go resolve/resolveAsDir")], (), ["NodeResolver.Resolve result"])
p("R02", "Bare imports use base URL, then nearest node_modules",
  "A specifier that is not relative resolves against the base URL if one is set and the candidate resolves there, and otherwise against node_modules in the importing directory and each ancestor directory, where the nearest ancestor with a resolvable candidate wins. Unresolvable nearer candidates are skipped.",
  ["configurations", "inputs"], "all placements of resolvable and unresolvable candidates over base URL and ancestor node_modules directories",
  "Tests never have two competing candidates at different levels.",
  RES, [("ancestor walk", "resolver/node_resolver.go resolveFromNodeModules")], (), ["NodeResolver.Resolve result"])
p("R03", "A resolved path is an existing file, else an error",
  "For every specifier, importing directory (absolute or relative) and file tree, resolution terminates and either returns an error with an empty path, or no error and the path of an existing file that is not a directory. It never returns an empty path or a directory without an error. If there is simply nothing at any of the candidates (no malformed package.json, no file in the place of a directory), the error is ErrNotFound.",
  ["configurations", "inputs"], "all file trees and specifiers, including directories where files are expected and unreadable or malformed package.json",
  "Tests check a handful of failing cases.",
  RES, [("IsDir checks", "resolver/node_resolver.go")], (), ["NodeResolver.Resolve result"])
# ---------------------------------------------------------------- syntax
SYN = ["internal/lexer/lexer.go", "internal/lexer/tokens.go", "internal/parser/parser.go", "internal/parser/selectors.go", "internal/printer/printer.go"]
p("S01", "No file content can hang or crash a compile",
  "For every file content, including truncated, malformed and binary input, Compile returns promptly and either produces an output for the file or reports at least one error. It never panics, loops forever or exhausts memory.",
  ["inputs"], "all byte strings (checked: all short sequences over a token alphabet, truncations and mutations of valid stylesheets)",
  "Tests parse a few well-formed files.",
  SYN, [("every parse loop handles end of input", "internal/parser/*.go"), ("lexer progress", "internal/lexer/lexer.go")], (), ["Compile returns", "process exit status"])
p("S02", "Compiling without transforms preserves meaning",
  "With all transforms off, a stylesheet built from supported CSS compiles without error to output with the same rules, selectors (including attribute operators and modifiers, pseudo-class arguments and combinators), declarations, values, strings, urls, functions, priorities, keyframe selectors, media queries and at-rules, in the same order, under the CSS syntax specification. Only comments, insignificant whitespace, stray semicolons and empty rules may disappear.",
  ["inputs"], "all stylesheets over the supported grammar",
  "Printer tests compare a dozen one-line snippets; the integration test ignores the output entirely.",
  SYN, [("lexer/parser/printer agreement", "internal/lexer, internal/parser, internal/printer")], (), ["output text"])
p("S03", "Layout never changes the output rules",
  "Inserting or removing comments, or changing whitespace, indentation and newline style (LF, CRLF, CR, FF) wherever CSS allows whitespace, does not change the emitted rules. Every layout of a stylesheet compiles to the same rules.",
  ["inputs"], "all layouts of all supported stylesheets",
  "One CRLF file and one file with comments are compiled, and only counted.",
  ["internal/lexer/lexer.go", "internal/lexer/tokens.go", "internal/parser/selectors.go"], [("newline normalisation and comment skipping", "internal/lexer/lexer.go step/Next")], (), ["output text without source map"])
p("S04", "A malformed declaration stays contained and verbatim",
  "A declaration the compiler cannot interpret, but whose tokens are complete and whose brackets are balanced, is carried to the output with its text unchanged, and every declaration and rule before and after it is compiled exactly as if the malformed one were not there. Malformed content never swallows the end of its block or a following rule.",
  ["inputs"], "all placements of malformed declarations (bad tokens, missing colon or value, nested blocks, missing final semicolon) among valid ones",
  "One test contains a stray double semicolon.",
  ["internal/parser/parser.go"], [("fallback to raw text", "internal/parser/parser.go parseDeclarationOrFallback/parseRaw")], (), ["output text"])
p("S05", "Output is stable under recompilation",
  "Compiling the output of a compilation again with the same options reports no new error and reproduces the same rules text byte for byte. In particular everything the compiler prints is CSS it accepts.",
  ["inputs", "histories"], "all stylesheets over the supported grammar, with and without transforms",
  "No test feeds output back in.",
  SYN, [("printer emits what the parser accepts", "internal/printer/printer.go")], (), ["output text"])
p("S06", "Reported locations are the true source positions",
  "Every located error names the file that contains the problem and the 1-based line and column (in bytes) of the offending text in that file, together with that line's text, regardless of preceding multi-line comments, strings, malformed declarations, newline style (LF, CRLF, CR) or imports. The marks shown under that line begin below the offending text and stay within the line. Rendering an error never fails.",
  ["inputs", "configurations"], "all positions of an error after arbitrary preceding content, in entry and imported files",
  "Two tests check a single location each near the top of a file.",
  ["internal/logging/logging.go", "internal/sources/source.go", "internal/lexer/lexer.go", "internal/transformer/transformer.go"],
  [("line table", "internal/sources/source.go, internal/lexer/lexer.go step"), ("error rendering", "internal/logging/logging.go")],
  [("Lines", "start offset of every line", "internal/sources/source.go")], ["Error() text of reported errors"])
p("S07", "Nothing is altered silently",
  "For every file content, valid or not, a compilation without transforms either reports an error or produces an output that means what the input means under the CSS syntax specification, rule by rule and token by token. What the compiler does not understand is reported or carried along; it is never merged, split, dropped or turned into something else without a report. The same holds under the transforms of ranges, custom media, :any-link and calc(), where each selector list, media query list and declaration is either as it was or what these transforms define (known: whitespace around + and - in math functions, and @custom-media definitions).",
  ["inputs"], "all texts: valid stylesheets with any tokens lost, doubled, exchanged or inserted, comments in any place, arbitrary bytes",
  "Tests compile well-formed snippets; the few malformed ones are only expected to be reported.",
  SYN, [("validation in the parser", "internal/parser/parser.go, internal/parser/selectors.go"), ("fallback to raw text", "internal/parser/parser.go parseDeclarationOrFallback"), ("printer", "internal/printer/printer.go")], (), ["output text and reported errors"])
# ---------------------------------------------------------------- transforms
TR = ["internal/transformer/transformer.go"]
p("T01", "Each transform touches only its own feature",
  "Under every combination of transform options, constructs that are not the subject of an enabled transform come out exactly as with transforms off. A stylesheet that does not use a feature is unaffected by enabling that feature's transform, and with default options no feature is transformed.",
  ["configurations", "inputs"], "all 2^5 transform settings x stylesheets using any subset of the features",
  "Tests enable one transform at a time on snippets containing only that feature.",
  TR, [("option checks before each transform", "internal/transformer/transformer.go")], (), ["output text"])
p("T02", ":any-link expands to every :link/:visited choice",
  "With the any-link transform on, no :any-link remains anywhere in the output, and each selector containing it is replaced by exactly the selectors obtained by choosing :link or :visited for each occurrence, keeping all other parts and the other selectors of the rule. This includes rules nested in conditional at-rules; an occurrence inside selector arguments such as :not() is expanded within that argument list.",
  ["inputs"], "all selector lists with any number, nesting and position of :any-link",
  "Three snippets with one occurrence each are tested.",
  TR, [("selector duplication", "internal/transformer/transformer.go transformSelectors")], (), ["output text"])
p("T03", ":root custom properties are substituted everywhere",
  "With the custom properties transform on, every var() whose name is defined in a plain top-level :root rule, by a declaration the compiler interprets, is replaced by that definition's (last) value wherever it occurs in a declaration value, including in other functions, inside other definitions, and in conditional at-rules and keyframes, and those definitions are removed; an undefined reference with a fallback becomes the fallback, and one without is kept and warned about. Custom properties defined under any other selector are left in place and not used.",
  ["inputs"], "all placements of definitions (order, chains, redefinition, cycles) and uses",
  "Five snippets with the definition first and a single use are tested.",
  TR, [("variable table and substitution", "internal/transformer/transformer.go transformValues")],
  [("variables", ":root definitions", "internal/transformer/transformer.go")], ["output text", "reported warnings"])
p("T04", "Custom media queries are expanded where used",
  "With the custom media transform on, each (--name) in a media query whose name is defined by @custom-media is replaced by the defined query, including definitions that use other definitions, regardless of the order of definition and use, and the definitions are removed; undefined names stay as they are. Nothing else in the media query changes.",
  ["inputs"], "all sets of definitions and uses in media query lists",
  "One snippet is tested.",
  TR, [("custom media table", "internal/transformer/transformer.go transformMediaQueryParts")],
  [("customMedia", "definitions seen", "internal/transformer/transformer.go")], ["output text"])
p("T05", "Range media features become equivalent min/max",
  "With the range transform on, each range feature in a media query becomes min-/max- features accepting the same values: the bound itself for <= and >=, and a bound moved inwards by .001 for < and >, with the unit kept; double-ended ranges become both features joined by and. Plain features and other query parts are unchanged.",
  ["inputs"], "all operators x bound positions x one- and two-sided ranges x numeric values and units",
  "About ten fixed snippets are tested.",
  TR, [("range rewriting", "internal/transformer/transformer.go transformMediaFeatureRange/addToValue")], (), ["output text"])
p("T06", "calc() reduction preserves the computed value",
  "With calc reduction on, whenever a calc() is replaced by a single value that value equals the expression's value under CSS precedence and typing rules with the right unit, and every calc() whose value is thereby fully known is reduced to that value (one into which a definition of several components was substituted may be left). Expressions that cannot be reduced are left as they are without error if they are valid, and invalid ones (unit mismatch with plain numbers, products of units, division by a unit or zero) are left and reported.",
  ["inputs"], "all calc() expressions over +,-,*,/, parentheses, numbers, percentages and units",
  "About fifteen two-operand expressions are tested.",
  TR, [("recursive evaluation", "internal/transformer/transformer.go evaluateMathExpression/doMath")], (), ["output text", "reported errors"])
p("T07", "Transforms work across inlined imports",
  "When imports are inlined, transforming a project of several files has the same result as transforming the single file obtained by textual inlining: definitions (custom properties, custom media) in an imported file apply to the importer and to later imports and vice versa. A file imported several times is transformed correctly at each place.",
  ["configurations", "inputs"], "all splits of a stylesheet into imported files x transform settings",
  "One test wires an already parsed import by hand; the real pipeline is not tested with transforms and imports together.",
  ["api.go", "internal/transformer/transformer.go"], [("imports are inlined before transforming", "api.go")], (), ["output text"])
p("T08", "Transforms compose with each other",
  "When several transforms are on, the output is what applying all of them to the same stylesheet means: ranges and custom media inside custom media definitions, var() inside calc(), any-link in rules whose values are substituted. No enabled feature's syntax survives merely because it was produced by another transform.",
  ["configurations", "inputs"], "all pairs and larger sets of transforms x stylesheets mixing their features",
  "No test enables two transforms.",
  TR, [("order of rewriting", "internal/transformer/transformer.go")], (), ["output text"])
# ---------------------------------------------------------------- source maps, plugin
p("M01", "The source map maps each rule to its source position",
  "Every output ends with an inline version-3 source map that decodes as valid JSON, embeds the file's original content, and contains, for each emitted rule and at-rule that comes from that file (at the top level, in a conditional group rule or in @keyframes), a mapping from the exact generated line and column of its first character to the exact original line and column (lines ended by LF, CRLF or CR; columns in UTF-16 code units); rules inlined from other files are not mapped into it. Mappings are in increasing generated order.",
  ["inputs"], "all stylesheets and layouts, including large files (multi-digit offsets), multi-line strings and values, and non-ASCII text",
  "Only the number encoding is tested, on four values.",
  ["internal/printer/printer.go", "internal/printer/sourcemaps.go", "internal/sources/source.go"],
  [("addMapping", "internal/printer/printer.go"), ("VLQ encoding", "internal/printer/sourcemaps.go")],
  [("lastMappingState", "previous segment, for delta encoding", "internal/printer/printer.go")], ["decoded sourceMappingURL comment"])
p("E01", "The esbuild plugin returns what Compile returns",
  "For each .css file esbuild loads through the plugin, a compilation without errors hands esbuild exactly the compiled output of that file under the plugin's transforms and resolver, and one with errors fails the load. No file is silently passed on uncompiled, and files are independent of each other however many are built in parallel.",
  ["inputs", "configurations", "schedules"], "all css inputs and plugin options, any number of files built concurrently",
  "The plugin has no tests.",
  ["esbuildplugin/plugin.go"], [("OnLoad callback", "esbuildplugin/plugin.go Plugin")], (), ["esbuild build results"])
p("E02", "The esbuild plugin reports each error once, located",
  "Every error or warning of a compilation reaches esbuild exactly once, and one with a source location carries the file path, 1-based line number, 0-based column and text of the offending line, and a length that is within that line.",
  ["inputs", "fault_sequences"], "all compilations with any number of located and unlocated errors",
  "The plugin has no tests.",
  ["esbuildplugin/plugin.go", "internal/sources/source.go"], [("toEsbuild", "esbuildplugin/plugin.go")], (), ["esbuild messages"])
p("A01", "Options left out mean their documented defaults",
  "A compilation without a Reporter prints every error and warning to standard error exactly once, each followed by a newline and not mixed with others, and nothing else; with a Reporter nothing is printed. Without a Resolver imports resolve as by NodeResolver without a base URL, whatever the working directory. Zero transform options are the passthrough ones. Outputs are the same as with the defaults spelled out, and standard output is never written to.",
  ["configurations", "inputs", "fault_sequences"], "all subsets of the options x projects with any number of errors and warnings",
  "Tests always pass a Reporter, and never look at the standard streams.",
  ["api.go", "internal/logging/logging.go", "transforms/transforms.go"], [("newCompilation", "api.go"), ("WriterReporter", "internal/logging/logging.go")], (), ["standard error", "cssc.Compile's Result.Files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
