#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TV = 'translation_validation'
MC = 'model_checking'
CSS = 'TLA+ reference semantics (CssLex/CssParse/CssTransform) evaluated by TLC on recorded inputs and outputs of the real compiler; '
C = {
 'S01': ('exploration', 'TLC derives token sequences in context (CssGen), plus byte mutations and large inputs; Outcome.tla checks that each recorded compilation ended with an output or an error',
         'derived token sequences up to two tokens in 15 contexts (sampled in the quick tier), mutated stylesheets, 45 large inputs; a compilation has to end within 30 s'),
 'S02': (TV, CSS + 'selectors, An+B and media queries derived by TLC, random stylesheets', 'grammar derivations up to the given depth, random stylesheets; two known findings'),
 'S03': (TV, CSS + 'every slot of eight templates in every layout (CssGen), random stylesheets in three layouts', 'one slot at a time in the quick tier, pairs in the thorough tier'),
 'S04': (TV, CSS + 'malformed declarations derived by TLC next to good ones; text has to come out verbatim', 'derivations of depth 3 and 4, random stylesheets'),
 'S05': (TV, CSS + 'outputs are compiled again: byte equality checked by TLC', 'random stylesheets under all 32 transform combinations, without + and - in calc (known finding of S02)'),
 'S07': (TV, CSS + 'token sequences derived by TLC in context, stylesheets with tokens lost, doubled, exchanged or inserted, and with edited bytes: where no error is reported, the output has to mean the same', 'derivations of up to two tokens in 15 contexts (sampled), up to three edits of random stylesheets; transforms off, or any but custom properties'),
 'T01': (TV, CSS + 'random stylesheets under all 32 option combinations', 'random; documents without a feature under its transform'),
 'T02': (TV, CSS + 'selectors with :any-link derived by TLC', 'derivations up to depth 5, random stylesheets'),
 'T03': (TV, CSS + 'definitions and uses derived by TLC', 'derivations of depth 3, random stylesheets; cyclic definitions only for termination (S01)'),
 'T04': (TV, CSS + 'definitions and uses derived by TLC', 'derivations up to depth 5, random stylesheets; no not/or around custom media'),
 'T05': (TV, CSS + 'range features derived by TLC', 'derivations of depth 4 (exhaustive in the thorough tier), random stylesheets'),
 'T06': (TV, CSS + 'calc expressions derived by TLC and evaluated with exact fractions', 'derivations up to depth 5, random stylesheets; numbers compared up to 2/10000'),
 'T07': (TV, CSS + 'random projects, compared with the transforms of the textually inlined project', 'random import graphs of up to 6 files'),
 'T08': (TV, CSS + 'stylesheets using several features under all combinations of two or more transforms', 'random stylesheets and TLC derivations'),
 'C07': (TV, CSS + 'random projects, compared with Expand (recursive textual inlining) in TLA+', 'random import graphs of up to 6 files, with cycles and failures'),
 'C08': (TV, CSS + 'random projects in passthrough and follow mode', 'random import graphs of up to 6 files, with cycles and failures'),
}
ENG = 'TLA+ state machine of a compilation (Compile.tla, refined by the design in Engine.tla) checked by TLC; schedules simulated by TLC (EngineSim) are replayed into the real api.Compile with a controlled resolver and reporter, and every recorded trace is checked by TLC against the machine (CompileTrace); '
C.update({
 'C01': (MC, ENG + 'every trace has to end with a return', 'design checked exhaustively for up to 3 files; replays of random import graphs of up to 8 files, chains and fans of hundreds of files, under schedules'),
 'C02': (MC, ENG + 'set and keys of outputs', 'replays of random import graphs in three modes, entries spelled in several ways'),
 'C03': (MC, ENG + 'each graph is run under several schedules and the printed bytes have to be equal (Deterministic.tla)', 'sampled schedules, GOMAXPROCS 1 to 8'),
 'C04': (MC, ENG + 'reports compared with those the graph requires', 'missing, unreadable, unparsable files and unresolvable imports at random places'),
 'C05': (MC, ENG + 'begin and end of every reporter call are events of the trace; also run under the race detector with an unsynchronized reporter', 'sampled schedules; slow and unsynchronized reporters'),
 'C06': (MC, ENG + 'files change while they are compiled: every use has to show one version', 'sampled schedules, versions written between loads'),
 'C09': (MC, ENG + 'outputs of healthy files compared with compilations without the failing ones', 'failures at random places'),
 'C10': (MC, ENG + 'several compilations at once, each checked as if alone; race detector', 'up to 6 concurrent compilations'),
})
RES = 'TLA+: declarative definition of node resolution and a machine for it (Resolver.tla, ResolverMachine.tla), checked against each other by TLC; the directory trees TLC enumerates and random ones are laid out on disk and resolved by the real NodeResolver, and each recorded answer is checked by TLC (ResolverCheck); '
C.update({
 'R01': (MC, RES + 'relative and absolute imports', 'families of small trees enumerated by TLC, random trees, with symbolic links'),
 'R02': (MC, RES + 'packages found upwards in node_modules, main and style fields, scopes', 'families of small trees enumerated by TLC, random trees'),
 'R03': (MC, RES + 'what is not there, not a file or not readable', 'families of small trees enumerated by TLC, random trees; odd package.json files only for soundness'),
 'M01': (TV, 'TLA+ (SourceMap.tla): a machine decodes the mappings, and each rule of the output, whose origin is known from the reference semantics of the transforms, has to have the mapping of its place', 'random stylesheets with all kinds of newlines under all transforms, large and huge ones, import projects; outputs that mean something else are left to S02 and T01-T08'),
 'S06': (TV, 'TLA+ (Positions, Location.tla): problems planted at known offsets after arbitrary text; TLC computes the line, byte column and line text of each and compares them with those of the reported errors', 'random texts with all kinds of newlines, one or several problems, entry and imported files'),
 'A01': (MC, 'TLA+ state machine of the default reporter (Defaults.tla) that has to account for everything the real one printed, and comparison of two recorded compilations, with defaults left out and spelled out', 'random projects of up to 4 files with planted problems, packages and missing imports; any subset of reporter, resolver and transforms left out'),
 'E01': (MC, 'TLA+ state machine of concurrent loads (Plugin.tla) checked by TLC; schedules it generates are replayed into the real load callback with a gated resolver, and PluginCheck.tla compares each load with what Compile returns; whole esbuild builds; race detector', 'up to 6 scheduled loads, 40 free ones; esbuild v0.8.6'),
 'E02': (MC, 'TLA+ (Plugin.tla, PluginCheck.tla, Location.tla): messages compared as bags with the errors of Compile, and their locations with those of planted problems', 'scheduled and free loads, planted problems; esbuild v0.8.6'),
})
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
checks = [dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p,
               technique=C[p][1], level=C[p][0], level_note=C[p][2]) for p in ids if p in C]
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in ids if p not in C]
m = dict(version=1, setup_cmd='bash harness/build.sh .build/plain && bash harness/build.sh .build/race race', checks=checks, not_applicable=na)
with open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
