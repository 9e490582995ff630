#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
"T01": "stateful property-based testing: random definition histories against a reference model of nested scopes",
"T02": "stateful property-based testing: random type definition histories against a reference model",
"T03": "stateful property-based testing: random reduction histories against a reference model of scopes, tags and hiding",
"T04": "property-based testing: random reduction graphs, derive_type against exhaustive path enumeration",
"T05": "property-based testing: random type graphs, resolve_type against exhaustive path enumeration",
"T06": "stateful property-based testing: introspection trees against the model of the definition history",
"T07": "property-based testing: generated name sets and interleaved databases against exact string comparison",
"T08": "API fuzzing: random calls with arbitrary arguments under ASan/UBSan, with state comparison after refused calls",
"L01": "property-based testing: random lexer declarations and texts, tokens against a reference longest match tokenizer",
"L02": "property-based testing: random placement of comments, ignored tokens and white space; reference tokenizer and metamorphic relation",
"L03": "property-based testing: random indented sources against a reference off-side rule tokenizer",
"G01": "property-based testing: random grammars and token sequences, generated parser against an Earley recognizer",
"G02": "differential testing: conflict reports against an independent LALR(1) construction and an ambiguity search",
"G03": "property-based testing: random operator tables and expressions against a precedence climbing reference",
"G04": "property-based testing: AST of random grammars against the tree of a reference LR parser, invariants on scopes and steps",
"G05": "property-based testing: mutated sentences, error position and expected tokens against an Earley recognizer",
"G06": "fuzzing: structured mutation of grammar files under ASan/UBSan, injected mistakes against expected refusal",
"G07": "round-trip testing: generated grammars with arbitrary strings, generated compiler behaviour against the grammar",
"G08": "round-trip testing: generated grammars, -l table and -s stub evaluated in Lua against the grammar model",
"G09": "differential testing: random ambiguous grammars with random priorities, refusal and parse trees against an independent LALR(1) automaton with the conflicts decided as documented",
"R01": "stateful property-based testing: random histories of succeeding and failing runs, metamorphic comparison with single runs",
"R02": "property-based testing: random templates and printed values against a reference substitution",
"R03": "property-based testing over size: generated large and deep sources, complete tree or clean error",
"R04": "property-based testing: generated error messages and places, round trip of the message",
"R05": "stateful property-based testing: generated histories repeated, memory in use counted by allocation hooks must not grow",
"R06": "metamorphic testing: runs with and without debug output; traces replayed against the derivation the source was made of and the dumped tables",
"U01": "property-based testing over IEEE values against bit exact reference",
"U02": "round-trip testing: generated Lua values through mewa.tostring and load",
"U03": "property-based testing: generated call chains in generated files against the expected stack trace",
}
CLAIMED = os.environ.get("CLAIMED", "").split() or open(os.path.join(here, "tools/claimed.txt")).read().split()
NOTE = ("Sampled, not exhaustive: holds on all generated cases (counts, distribution and samples in the evidence file). "
        "Black box through the Lua API and the mewa program, compiled from the working tree with AddressSanitizer and parts of UBSan. "
        "Trusts the reference model in harness/, Lua 5.2 and clang's sanitizers.")
m = dict(version=1, setup_cmd="./run.sh setup", checks=[], not_applicable=[])
for p in props:
    if p in CLAIMED:
        m["checks"].append(dict(property=p, quick_cmd="./run.sh %s" % p, thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p,
            evidence_file="evidence/%s.json" % p, technique=TECH[p], level="exploration", level_note=NOTE))
    else:
        m["not_applicable"].append(dict(property=p, reason="not claimed yet: the check of this property is under construction"))
m["notes"] = "No hooks: all checks are black box. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.txt."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
