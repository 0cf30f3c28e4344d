#!/opt/veriftools/pyvenv/bin/python3
"""DESIGN.md from the prose below, the check modules (RULE, ASSUMPTIONS, N), properties.jsonl, known_findings.txt and seeded/*/meta.json"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

HEAD = """# Design

One technique decides every property: property-based testing. Each check draws structured inputs (Rust programs as data, configurations, file
trees, dependency graphs, operation histories), renders them, runs the real cbindgen binary (or, where the API is the subject, a helper linked
against the library), and compares what comes out with an explicit oracle. No check looks at cbindgen's source text and none compares with
stored output, so behaviour-preserving edits are invisible to them.

## Machinery

- `run.py CNN [--tier quick|thorough] [--n N] [--seed S] [--replay FILE]` runs one check. `lib/vp.py` builds cbindgen (and `helper/` when the check
  declares `HELPER`) from /repo's current working tree into `/verif/build`, then distributes N cases over 8 worker processes, each a Hypothesis run
  (`@given` on the check's strategy) with a seed derived from VERIF_SEED; `--seed` overrides. Hypothesis shrinks a failing case; the minimal
  case is written as JSON to `build/replay/<id>-<hash>.json` and can be re-run with `--replay`.
- `lib/rs.py` (model of Rust items and types, rendering), `lib/gen.py` (strategies for whole programs; "swarm" feature selection per case),
  `lib/cc.py` (cbindgen, gcc, g++, rustc drivers), `lib/cfgs.py` (random configurations), `lib/hdr.py` (tokenizer), `lib/junk.py` (odd Rust items).
- `known_findings.txt`: `fixed:` lines, and JSON lines `{"status": "known", property, part, what, case}`. A known finding is one concrete case:
  every run replays it first; if it still violates the property it prints KNOWN-FINDING, and if it no longer does the line is only noted.
  The generators avoid the *shape* of a known finding by construction (stated per check under "assumptions"); any violating generated case is
  reported whether or not it resembles a listed one, so a finding suppresses nothing but its own replay.
- Evidence (`evidence/<id>.json`): cases generated, distinct non-trivial cases by the rule quoted below, discarded cases, label histogram (which
  constructs / options / languages were hit), oracle evaluations, samples, seeds, wall time.
- Exit status: 0 held, 1 violation (VIOLATION line), 3 harness error (e.g. cbindgen does not build).
- A case may use a compiler; costs here: cbindgen 3 ms, gcc 20 ms, g++ 30-300 ms, rustc check 20 ms, rustc build+run 70 ms, cargo metadata 80 ms,
  cython 0.7 s. Quick runs take 15-45 s each on 8 cores, thorough runs 10-20 times as many cases (5-15 min).
- No hooks: /repo carries only `fix:` commits.

## Properties
"""

# property -> (oracle and why it reaches what tests cannot, limits)
PROSE = {
 "C01": "Differential. The same generated types are compiled by rustc (a program printing size_of, align_of and offset_of! of everything, including tagged-enum payloads) and by gcc/g++ through the header (sizeof/_Alignof/offsetof compiled as static data). The tests only compile headers; layout agreement over combinations of repr, packed/align, generics and nesting is never measured.",
 "C02": "Reference model: the C type of every Rust type is built from single-step typedefs (`typedef u8 *t1; typedef const t1 t2; ...`), which cannot get declarator precedence wrong, and compared to the header's declaration with `_Generic`/`__builtin_types_compatible_p` (C) or `std::is_same` (C++). This decides every declarator nesting instead of the forms in tests/rust.",
 "C03": "The compilers are the oracle: -Wall -Werror, as C, as C++ through cpp_compat and as C++, once and included twice. The generated part is the dependency graph and the order of items and modules, which determine the emission order.",
 "C04": "Reference model of the export set from the documentation, cross-checked against reality: the sources are compiled by rustc and `nm` must list every function or static the header declares; the symbol file must list exactly these.",
 "C05": "Differential evaluation: rustc's value of each constant vs the compiled header's, in C, C++ (constexpr / static const / macro) and with the macro embedded in larger expressions (so that missing parentheses show).",
 "C06": "Differential evaluation of discriminants and of the size of the enum, per variant, all reprs; also the sentinel, enum_class, and tags of data-carrying enums.",
 "C07": "Metamorphic: a generic program and the program in which this check substituted the arguments by hand must give the same C declarations up to a bijective renaming of instances (a non-injective mangling shows as a lost declaration); C++ templates are measured against the expansion.",
 "C08": "An independent evaluator resolves the cfg attributes under an assignment of the defines; the preprocessed header must be the header of the resolved program. Assignments are enumerated up to 4 atoms, sampled above.",
 "C09": "Determinism is checked by re-running in fresh processes (std's hash seeds differ per process); ordering by a model of sort_by and by permuting sources.",
 "C10": "An independent implementation of the documented naming rules (prefix, rename table, case rules, reserved words, qualified variants) predicts every name; a probe compiled against the header uses the predicted names with the predicted types, so that definition and use must agree.",
 "C11": "Metamorphic: tokens (and comment texts) under three random formatting settings must equal those of the default formatting; line terminators, brace placement, indentation and argument layout follow the setting.",
 "C12": "Stateful: histories of edits, tampering and runs against a model of (content, mtime, inode, exit status, reported change). Failing runs (syntax error, bad configuration, missing file) are interleaved with good ones.",
 "C13": "Differential: rustc's own dep-info is the reference for the set of files; GNU make is the reference reader of the depfile, and is run to see that touching each input rebuilds. Decoy files stand at every other path a wrong resolution would find.",
 "C14": "Fuzzing with grammar-based, splicing, mutational and corrupting generators; the oracle is the process outcome (exit status, panic text, signal, time), plus isolation (supported items next to unsupported ones stay) and no output on error.",
 "C15": "Decision table (complete / opaque) written from the documentation; probes need `sizeof` to fail for exactly the opaque types; the complete ones must have rustc's size and alignment (a guessed layout shows).",
 "C16": "A generated C++ program executes the helpers on generated values against field-wise reference semantics; payloads that count live instances check destructors and copies; an overridden assert macro checks that As/Is casts fire exactly on the wrong variant.",
 "C17": "Token equality with documentation off (the declarations cannot be altered), plus an exact model of which comment lines stand before which entity. Texts are built from comment delimiters, backslashes, directives and so on.",
 "C18": "Differential between back ends: three small declaration parsers bring the C, C++ and Cython texts to one form. A sample is built by cython and gcc against the C header and asked for sizes, enum values and constants, which are compared with rustc's.",
 "C19": "Metamorphic between the ways of giving a setting (annotation / configuration / flag / Builder / default); rejection of corrupted configurations.",
 "C20": "Reference reachability model over generated dependency graphs, fed to cbindgen as cargo metadata (fast) and as real path crates resolved by cargo; `parse.expand` with features on real crates.",
 "C21": "Differential with the real bitflags crate (in the cargo cache): flag values; operators executed in C++ on generated bit patterns.",
 "C22": "Token-insertion model: the tokens of the header without the settings, with the expected texts inserted at the modelled places, must be the tokens of the header with them. That covers 'exactly there', 'once' and 'nowhere else' in one comparison.",
 "C23": "Line model of the frame around the lines of the frameless header; the extern \"C\" region is checked to contain exactly the functions and statics; a cpp_compat header read as C must be the plain C header; samples are compiled.",
}

TAIL = """
## Known findings (genuine, recorded, not repaired)

The concrete failing case of each is in `known_findings.txt` and is replayed by every run of the check.

"""

TAIL2 = """
Observed and left alone, without a property that claims otherwise: in C the member of an inlined single-field tuple variant follows
struct.rename_fields rather than rename_variants; `cbindgen:field-names=[]` is one empty name; associated constants in an impl block in the parent
module of the type's module become free constants; [enum] must_use is not written in C; cargo itself rejects parse.expand.features with several
expanded packages; a tuple-struct literal with a PhantomData that is not last gets the wrong fields; pointers to dynamically sized structs are thin.

## Repaired defects

%s

## False alarms met while building, and what was corrected

- C12 "--verify never writes" was too strong (the depfile and symbol file are still written): the property speaks of the header.
- C13: make has no way to escape `=`, `~`, tabs or newlines in prerequisites; the generator avoids these.
- C11: the Auto layout measures the line including documentation and prefix; it is only judged for undocumented functions.
- C16: the harness's reference types for pointer and function-pointer fields were wrong (const), corrected.
- C17: the locator of constants in Cython and of tagged enums (the documentation stands before the tag enum) was wrong, corrected.
- C19: an empty `using_namespaces = []` only leaves a blank line; blank lines are ignored in the "default" part.
- C20: associated constants belong to their type and follow it; `--crate` is ambiguous with two packages of one name unless the directory decides;
  the order of the operands of a merged condition is not fixed; cargo refuses features for dependency packages.
- C22: Box is a template of the user's in C++ (no pointer to mark); Cython output carries prefix and postfix only.
- C23: a Cython header without the libc cimports needs them from its includer.

## Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, meta). All were confirmed to build, to pass the 172 stable tests and to fail their demonstration.

"""

out = HEAD
for p in props:
    i = p["id"]
    m = importlib.import_module(i.lower())
    out += "\n### %s %s\n\n%s\n\n- Generated: %s\n- Bounds: %d cases quick, %d thorough.\n" % (i, p["title"], PROSE[i], m.RULE, m.N["quick"], m.N["thorough"])
    for a in getattr(m, "ASSUMPTIONS", []):
        out += "- Assumes: %s\n" % a
kf = [json.loads(l) for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("{")]
out += TAIL + "".join("- %s: %s\n" % (k["property"], k["what"]) for k in kf)
fx = [l.strip()[len("fixed: property="):] for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:")]
out += TAIL2 % "\n".join("- " + x for x in fx)
out += "| id | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"]))
extra = os.path.join(V, "tools", "design_mutation.md")
if os.path.exists(extra):
    out += open(extra).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)
print(len(out))
