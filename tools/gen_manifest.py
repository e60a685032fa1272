#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that are registered in the harness."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("runtime monitor: crash, hang, deadlock and memory watchdogs over hostile byte inputs",
         "Random, mutated and pathological inputs under random options; a hang is 20 s of CPU time or all goroutines blocked. No claim beyond the inputs explored."),
 "C02": ("runtime monitor: set accounting of outputs and errors against an oracle of planted faults",
         "Random sets of entries with planted faults (missing, unreadable, unparsable, failing and panicking resolvers excluded); good entries are compared with their compilation alone."),
 "C03": ("differential monitoring: independent selector parser compares source and output",
         "Random selector lists; trusts the independent CSS tokenizer and selector canonicaliser in harness/css. No claim beyond the inputs explored."),
 "C04": ("differential monitoring: independent CSS parser compares declarations of source and output",
         "Random declaration lists; math functions are compared without their whitespace, which cssc loses (known finding)."),
 "C05": ("differential monitoring: independent CSS parser compares rule structure of source and output",
         "Random rule trees; style rules without declarations may be dropped."),
 "C06": ("metamorphic monitoring: two renderings of the same tokens are compiled and compared canonically",
         "Random token sequences and formattings; equivalence is equality of canonical forms of the independent parser."),
 "C07": ("metamorphic monitoring: repeated compilation byte by byte, recompilation of outputs",
         "Random stylesheets; sums in math functions are left out of recompiled ones (known finding)."),
 "C08": ("runtime monitor: independent source map decoder checks every rule's position",
         "Random stylesheets, formattings and file names; every rule of the output is found in the source by an independent parser. No claim beyond the inputs explored."),
 "C09": ("differential monitoring: outputs of random import graphs against a concatenation model",
         "Random import graphs of up to 6 files; the reference concatenates files by the documented import rules and compiles the concatenation. No claim beyond the graphs explored."),
 "C10": ("runtime monitor: outputs of random import graphs against reachability and solo compilations",
         "Random import graphs of up to 6 files, several entries; trusts the model of import resolution in harness/checks/graph.go."),
 "C11": ("race detector and schedule perturbation, with outputs and errors compared to sequential compilations",
         "Random graphs, GOMAXPROCS, injected delays in resolver and reporter, concurrent compilations; distinct interleavings of resolver and reporter calls are counted. Only the schedules that occurred are covered."),
 "C12": ("runtime monitor: positions and rendering of diagnostics for problems planted at known offsets",
         "Random faults of every kind in random formattings; offsets are known because the harness plants them."),
 "C13": ("model-based monitoring: resolver calls against a reference lookup on random directory trees",
         "Random trees with links, package.json variants and node_modules; about 40 lookups per tree against an independent model of the documented order."),
 "C14": ("semantic monitoring: selectors of source and output are matched against random documents",
         "Every rule's selectors are evaluated by an independent matcher on random element trees before and after."),
 "C15": ("semantic monitoring: media queries of source and output are evaluated in probing environments",
         "An independent evaluator compares each query in 60 environments that include bounds and their neighbourhood."),
 "C16": ("semantic monitoring: media queries with custom media are evaluated in probing environments",
         "An independent evaluator compares each query, with the last definitions, in 60 environments per case."),
 "C17": ("differential monitoring: independent token-level substitution of custom properties",
         "Random definitions and uses with cycles, fallbacks and imports against an independent implementation of substitution."),
 "C18": ("differential monitoring: independent exact rational evaluation of calc()",
         "Random expressions are evaluated in exact arithmetic with bounds for floating point errors."),
 "C19": ("metamorphic monitoring: combinations of transforms compared with each other, rule by rule",
         "Random stylesheets of rules with known features under 10 combinations of transforms and import modes per case."),
 "C20": ("runtime monitor: plugin callbacks and real esbuild builds against direct compilations, under the race detector",
         "Random stylesheets with and without faults; esbuild's own CSS parser is only used for simple stylesheets, because it does not end for some others."),
 "C21": ("differential monitoring: an independent model of what browsers keep and ignore compares source and output",
         "Random stylesheets with one or two tokens spoiled; the model follows css-syntax-3, selectors-4 and mediaqueries-4, and does not judge property names and values."),
 "C22": ("runtime monitor: captured standard error and outputs with options left out, against spelled-out options",
         "Random stylesheets and import graphs with faults; descriptor 2 of the process is redirected during each compilation."),
 "C23": ("runtime monitor: files, goroutines, descriptors, output streams, environment and late callbacks around compilations; histories of changed files against fresh compilations",
         "Random graphs and changes of files between up to four compilations in one process."),
 "C24": ("runtime monitor: allocations and CPU time at two sizes",
         "Random repeated constructs at sizes n and 16n; the limit is 2.5 times (memory) and 5 times (CPU time) of proportional growth, so only worse-than-linear growth that dominates at about 0.5 MB is seen."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in NOTES: continue
    t, n = NOTES[i]
    checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
na = [{"property": i, "reason": "its check is not built yet"} for i in ids if i not in NOTES]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every monitor observes cssc through its public API, so the checks build /repo as it is."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
