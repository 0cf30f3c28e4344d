#!/usr/bin/env python3
"""MANIFEST.json from the check modules that exist (checks/cNN.py) and properties.jsonl"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential PBT: generated programs, layouts (size/align/offsets) from rustc vs gcc/g++ compiled header", "rustc 1.101 nightly, gcc 13, g++ 13 on x86-64"),
 "C02": ("PBT against a reference model: _Generic/is_same of every declaration vs typedef-chain model of the Rust type", "the typedef-chain type model in lib/rs.py"),
 "C03": ("PBT: generated dependency graphs, compiled headers (-Wall -Werror) as C, C++ and C-with-cpp_compat, once and twice", "gcc/g++ 13 as the judge of well-formedness"),
 "C04": ("PBT against a reference model of the export set, cross-checked with rustc's symbol table (nm)", "the export model in checks/c04.py"),
 "C05": ("differential PBT: values of generated constant expressions, rustc vs compiled header, in several expression contexts", "rustc and gcc/g++ evaluation"),
 "C06": ("differential PBT: discriminants of generated enums, rustc vs compiled header", "rustc and gcc/g++ evaluation"),
 "C07": ("metamorphic PBT: generic program vs its hand-expanded equivalent; mangling injectivity", "the expansion in checks/c07.py"),
 "C08": ("PBT: generated cfg trees, gcc -E under every define assignment vs boolean evaluation", "the cfg evaluator in checks/c08.py"),
 "C09": ("metamorphic PBT: repeated runs and permuted sources", ""),
 "C10": ("PBT against a reference model of names; compiled uses", "the naming model in checks/c10.py"),
 "C11": ("metamorphic PBT: token equality across formatting options", "the tokenizer in lib/hdr.py"),
 "C12": ("stateful model-based PBT over histories of write/verify/edit/fail operations", "mtime granularity of the scratch file system"),
 "C13": ("differential PBT: files read by rustc (--emit=dep-info) vs cbindgen's depfile over generated module trees; make as depfile judge", "rustc dep-info"),
 "C14": ("fuzzing: grammar-based, mutational and corrupting generation; no panic / clean error / isolation oracle", ""),
 "C15": ("PBT against a reference model of representability; sizeof probes compiled", "the representability model in checks/c15.py"),
 "C16": ("PBT: generated C++ programs executing the helpers against field-wise reference semantics", "g++ 13"),
 "C17": ("PBT: generated doc texts vs comment extraction; token equality with docs stripped", "the tokenizer in lib/hdr.py"),
 "C18": ("differential PBT across back ends; Cython compiled against the C header", "Cython 3.0.2, gcc"),
 "C19": ("metamorphic PBT: equivalent settings via annotation, config, CLI and Builder API", ""),
 "C20": ("PBT over generated dependency graphs of path crates against a reference model", "cargo metadata offline"),
 "C21": ("differential PBT: flag values from a bitflags reference expansion vs compiled headers; executed operators", "reference semantics of bitflags in checks/c21.py"),
 "C22": ("metamorphic PBT: token-insertion model over the header generated without the settings", "the tokenizer in lib/hdr.py"),
 "C23": ("PBT against a reference model of the frame around an invariant body", "the tokenizer in lib/hdr.py"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd="python3-vt run.py %s --tier quick" % i, thorough_cmd="python3-vt run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="exploration",
                           level_note="Held on every generated case of the run (counts, rule and samples in the evidence file); no proof beyond the explored cases."
                                      + (" Trusts: " + n + "." if n else "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every check drives the built cbindgen binary or the public library API. Repairs are the fix: commits listed in known_findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
