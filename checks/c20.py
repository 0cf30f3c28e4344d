"""C20: which crates of a dependency graph contribute what to the header."""
import json, os, re
from hypothesis import strategies as st
import cc, vp

PROP = "C20"
N = {"quick": 5000, "thorough": 80000}
RULE = ("parts: graph = dependency graph of up to 6 crates (any target kind, dashes in names, several versions of a package, renamed / target-specific / repeated / dev dependencies, cycles through dev dependencies), written as cargo metadata + lock "
        "file, x bound crate (--crate) x parse_deps (key or flag) / include / exclude / extra_bindings; after preprocessing under every combination of the target defines, the defined types, functions, constants and statics must be exactly those of "
        "an independent reachability model, and reordering packages and dependency entries or adding unrelated packages must leave the header's lines unchanged. cargo = the same as real manifests resolved by cargo. expand = real crate with "
        "features and macro-generated items read through parse.expand with random feature settings: exactly the items of the selected features appear, and no temporary files are left behind. "
        "non-trivial = at least one dependency contributes and at least one is kept out (graph, cargo), or a feature setting is given (expand)")
ASSUMPTIONS = ["a type defined by several dependencies under the same name is only generated when the bound crate defines it too (the bound crate wins)", "two versions of one package are never both dependencies of the bound crate",
               "a dependency with a target condition is reached only through that condition"]
B = st.booleans()
S = st.sampled_from
NAMES = ["dep-a", "depb", "dep_c", "web-render-x", "e2", "corelib"]
COND = {"unix": "VP_UNIX", "windows": "VP_WIN"}


def st_deps(draw, n):
    edges = []
    for i in range(n):
        for j in range(i + 1, n):
            if draw(S([True, False, False])) or (j == i + 1 and draw(S([True, True, True, False]))):
                e = {"f": i, "t": j}
                k = draw(st.integers(0, 9))
                if k == 0:
                    e["cond"] = [["unix"]]
                elif k == 1:
                    e["cond"] = [["unix"], ["windows"]]          # two target tables
                elif k == 2:
                    e["cond"] = draw(S([[None, ["unix"]], [["windows"], None]]))     # a plain table and a target table
                    e["cond"] = [c for c in e["cond"]]
                elif k == 3:
                    e["rename"] = True
                elif k == 4:
                    e["dev"] = True
                edges.append(e)
    if n > 1 and draw(st.integers(0, 5)) == 0:
        edges.append({"f": draw(st.integers(1, n - 1)), "t": 0, "dev": True})
    return edges


@st.composite
def graph(draw, real):
    n = draw(S([1, 2, 3, 3, 4, 4, 5, 6]))
    names = draw(st.permutations(NAMES))[:n]
    crates = []
    for i in range(n):
        kind = draw(S(["lib"] * 6 + ["staticlib", "cdylib", "dylib", "rlib", "proc-macro", "bin"]))
        if real and kind in ("proc-macro", "bin") or (i == 0 and kind in ("proc-macro", "bin")):
            kind = "lib"
        crates.append({"name": names[i], "kind": kind, "mod": draw(B), "twin": (not real) and draw(st.integers(0, 5)) == 0, "shared": draw(S([True, False, False])), "ver": draw(S(["0.1.0", "1.2.3", "2.0.0-alpha.1"]))})
    edges = st_deps(draw, n)
    if real:
        edges = [e for e in edges if e["t"] > e["f"]]
    # the bound crate is 0 usually
    bound = draw(st.integers(0, n - 1)) if draw(st.integers(0, 3)) == 0 else 0
    if crates[bound]["kind"] in ("proc-macro", "bin"):
        crates[bound]["kind"] = "lib"
    # conditions only where the dependency (and all that hangs on it) has no other way in
    reach = closure(n, edges)
    for e in edges:
        if "cond" in e and any(c for c in e["cond"]) and not (None in e["cond"]):
            sub = reach[e["t"]] | {e["t"]}
            if e["f"] in sub or any(x["t"] in sub and x is not e and x["f"] not in sub for x in edges) or 0 in sub or bound in sub:
                e.pop("cond")
    if not crates[bound]["shared"]:
        first = True
        for c in crates:
            if c["shared"]:
                c["shared"] = first
                first = False
    fields = []
    for i in range(n):
        outs = sorted({e["t"] for e in edges if e["f"] == i and not e.get("dev")})
        fields.append([[t, draw(S(["val", "ptr", "gen", "alias", "enum"]))] for t in outs if draw(S([True, True, False]))])
    uses = []
    for i in range(n):
        uses.append([t for t in [i] + sorted(closure(n, [e for e in edges if not e.get("dev")])[i]) if draw(B)])
    names2 = [c["name"] for c in crates] + ["absent"]
    sub = lambda: draw(st.lists(S(names2), max_size=4, unique=True))
    return {"real": real, "crates": crates, "edges": edges, "bound": bound, "fields": fields, "uses": uses, "deps": draw(S([True] * 7 + [False])), "flag": draw(B), "include": sub() + sub() if draw(S([True, False, False, False])) else None,
            "exclude": sub()[:2] if draw(B) else [], "extra": sub() if draw(B) else [], "lock": draw(S([4, 4, 3, 1])), "perm": draw(st.integers(0, 10**6)), "lang": draw(S(["C++", "C"]))}


def closure(n, edges):
    r = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for e in edges:
            new = {e["t"]} | r[e["t"]]
            if not new <= r[e["f"]]:
                r[e["f"]] |= new
                ch = True
    return r


def source(case, i, tag=""):
    """the items of crate i; tag distinguishes the twin version"""
    f = "".join(" pub d%d: %s," % (t, {"val": "Ty%d", "ptr": "*const Ty%d", "gen": "Gen%d<u8>", "alias": "Al%d", "enum": "En%d"}[k] % t) for t, k in case["fields"][i])
    types = "#[repr(C)] pub struct Ty%d { pub mark%s_%d: u16,%s }\n" % (i, tag, i, f)
    types += "#[repr(C)] pub struct Gen%d<T> { pub gmark%s_%d: T }\n" % (i, tag, i)
    types += "pub type Al%d = Ty%d;\n#[repr(u8)] pub enum En%d { V%d%s = 1 }\n#[repr(C)] pub struct Unused%d { pub x: u8 }\n" % (i, i, i, i, tag.upper(), i)
    if case["crates"][i]["shared"] or tag:
        types += "#[repr(C)] pub struct Shared { pub shared%s_%d: u32 }\n" % (tag, i)
    args = ["p%d: %s" % (t, ["Ty%d", "*mut Gen%d<u16>", "En%d"][(t + i) % 3] % t) for t in case["uses"][i]]
    fns = '#[no_mangle] pub extern "C" fn func%s_%d(%s) {}\n' % (tag, i, ", ".join(args))
    fns += "pub const KONST%s_%d: u32 = %d;\n#[no_mangle] pub static STAT%s_%d: u8 = 3;\n" % (tag.upper(), i, i + 10, tag.upper(), i)
    types += "impl Ty%d { pub const ASSOC%s_%d: u8 = 7; }\n" % (i, tag.upper(), i)
    if case["crates"][i]["shared"]:
        fns += '#[no_mangle] pub extern "C" fn use_shared_%d(p: *const Shared) {}\n' % i
    return types, fns


def write_crate(d, case, i, tag=""):
    types, fns = source(case, i, tag)
    c = case["crates"][i]
    sd = os.path.join(d, "c%d%s" % (i, tag))
    if c["mod"]:
        vp.write(os.path.join(sd, "src", "inner.rs"), types)
        vp.write(os.path.join(sd, "src", "lib.rs"), "pub mod inner;\npub use inner::*;\n" + fns)
    else:
        vp.write(os.path.join(sd, "src", "lib.rs"), types + fns)
    return sd


def shuffled(l, k):
    l = list(l)
    out = []
    while l:
        out.append(l.pop(k % len(l)))
        k = k // 7 + 3
    return out


def cond_str(c):
    return None if c is None else ("cfg(%s)" % c[0] if len(c) == 1 else "cfg(any(%s))" % ", ".join(c))


def synth(d, case, perm, extra_pkg):
    """cargo metadata and lock file"""
    pk, lock = [], []
    multi = {c["name"] for c in case["crates"] if c["twin"]}

    def pkg(name, ver, sd, kind, deps):
        tg = [{"name": name.replace("-", "_"), "kind": [kind], "crate_types": [kind], "src_path": os.path.join(sd, "src", "lib.rs")}]
        if perm % 2:
            tg.insert(0, {"name": "ex", "kind": ["example"], "crate_types": ["bin"], "src_path": os.path.join(sd, "examples", "ex.rs")})
        if perm % 3 == 0:
            tg.append({"name": "build-script-build", "kind": ["custom-build"], "crate_types": ["bin"], "src_path": os.path.join(sd, "build.rs")})
        return {"name": name, "version": ver, "id": "path+file://%s#%s@%s" % (sd, name, ver), "source": None, "dependencies": deps, "targets": tg, "features": {}, "manifest_path": os.path.join(sd, "Cargo.toml")}
    vp.write(os.path.join(d, "nolib", "src", "lib.rs"), "")
    for i, c in enumerate(case["crates"]):
        sd = os.path.join(d, "c%d" % i)
        deps, ls = [], []
        for e in case["edges"]:
            if e["f"] != i:
                continue
            t = case["crates"][e["t"]]
            for cnd in e.get("cond", [None]):
                deps.append({"name": t["name"], "source": None, "req": "*", "kind": "dev" if e.get("dev") else None, "rename": "renamed_x" if e.get("rename") else None, "optional": False, "uses_default_features": True, "features": [], "target": cond_str(cnd), "registry": None})
            s = t["name"]
            if s in multi or case["lock"] == 1:
                s += " " + t["ver"]
                if case["lock"] == 1:
                    s += " (registry+https://github.com/rust-lang/crates.io-index)"
            ls.append(s)
        deps, ls = (shuffled(deps, perm), shuffled(ls, perm)) if perm else (deps, sorted(ls))
        pk.append(pkg(c["name"], c["ver"], sd, c["kind"], deps))
        lock.append((c["name"], c["ver"], ls))
        if c["twin"]:
            pk.append(pkg(c["name"], "9.9.9", os.path.join(d, "c%dtwin" % i), "lib", []))
            lock.append((c["name"], "9.9.9", []))
    if extra_pkg:
        pk.append(pkg("unrelated", "0.0.1", os.path.join(d, "nolib"), "lib", []))
        lock.append(("unrelated", "0.0.1", [case["crates"][-1]["name"]]))
    if perm:
        pk = shuffled(pk, perm // 3)
        lock = shuffled(lock, perm // 5)
    meta = {"packages": pk, "workspace_members": [], "resolve": None, "target_directory": os.path.join(d, "target"), "version": 1, "workspace_root": d}
    t = "" if case["lock"] == 1 else "version = %d\n\n" % case["lock"]
    root = case["crates"][0]
    for n, v, ls in lock:
        old = case["lock"] == 1 and n == root["name"] and v == root["ver"]
        head = "[root]\n" if old else "[[package]]\n"
        b = head + 'name = "%s"\nversion = "%s"\n' % (n, v) + ("dependencies = [\n%s]\n" % "".join(' "%s",\n' % x for x in ls) if ls else "") + "\n"
        t = b + t if old else t + b
    vp.write(os.path.join(d, "meta%d.json" % perm), json.dumps(meta))
    vp.write(os.path.join(d, "lock%d" % perm), t)
    return ["--metadata", "meta%d.json" % perm, "--lockfile", "lock%d" % perm]


def manifests(d, case):
    for i, c in enumerate(case["crates"]):
        t = '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n\n[lib]\npath = "src/lib.rs"\n' % (c["name"], c["ver"])
        if c["kind"] != "lib":
            t += 'crate-type = ["%s"]\n' % c["kind"]
        tabs = {}
        for e in case["edges"]:
            if e["f"] != i:
                continue
            dep = case["crates"][e["t"]]
            for cnd in e.get("cond", [None]):
                tab = "dev-dependencies" if e.get("dev") else "dependencies"
                if cnd:
                    tab = "target.'%s'.%s" % (cond_str(cnd), tab)
                key, pk = (dep["name"], "") if not e.get("rename") else ("renamed%d" % e["t"], ', package = "%s"' % dep["name"])
                tabs.setdefault(tab, []).append('"%s" = { path = "../c%d"%s }' % (key, e["t"], pk))
        for tab in sorted(tabs):
            t += "\n[%s]\n" % tab + "\n".join(tabs[tab]) + "\n"
        if i == 0:
            t += "\n[workspace]\nmembers = [%s]\n" % ", ".join('"../c%d"' % j for j in range(1, len(case["crates"])))
        else:
            t = t.replace('edition = "2021"', 'edition = "2021"\nworkspace = "../c0"')
        vp.write(os.path.join(d, "c%d" % i, "Cargo.toml"), t)


def model(case, on):
    """what the preprocessed header must define; on = set of conditions that are true"""
    cr = case["crates"]
    ok = lambda n: case["deps"] and (case["include"] is None or n in case["include"]) and n not in case["exclude"]
    parsed, live = set(), {}

    def visit(i, cond):
        parsed.add(i)
        live[i] = cond
        for e in case["edges"]:
            if e["f"] == i and e["t"] not in parsed and ok(cr[e["t"]]["name"]):
                c = e.get("cond", [None])
                visit(e["t"], cond and any(x is None or any(y in on for y in x) for x in c))
    visit(case["bound"], True)
    contrib = {i for i in parsed if cr[i]["kind"] not in ("proc-macro", "bin")}
    top = {i for i in contrib if i == case["bound"] or cr[i]["name"] in case["extra"]}
    funcs, consts, stats, assoc = set(), set(), set(), set()
    types, todo = set(), []
    order = [case["bound"]] + [i for i in range(len(cr)) if i != case["bound"]]
    shared_owner = next((i for i in order if i in contrib and cr[i]["shared"]), None)
    mono = set()
    for i in top:
        if live[i]:
            funcs.add("func_%d" % i)
            consts.add("KONST_%d" % i)
            stats.add("STAT_%d" % i)
            if cr[i]["shared"]:
                funcs.add("use_shared_%d" % i)
        # reachability ignores conditions
        for t in case["uses"][i]:
            todo.append((["Ty%d", "Gen%d_u16", "En%d"][(t + i) % 3] % t, t))
        if cr[i]["shared"]:
            todo.append(("Shared", shared_owner))
    seen = set()
    while todo:
        nm, i = todo.pop()
        if nm in seen or i not in contrib:
            continue
        seen.add(nm)
        if nm.startswith("Ty"):
            for t, k in case["fields"][i]:
                todo.append(({"val": "Ty%d", "ptr": "Ty%d", "gen": "Gen%d_u8", "alias": "Al%d", "enum": "En%d"}[k] % t, t))
        if nm.startswith("Al"):
            todo.append(("Ty%d" % i, i))
    for nm in seen:
        i = shared_owner if nm == "Shared" else int(re.match(r"[A-Za-z]+(\d+)", nm).group(1))
        if live.get(i):
            types.add(nm)
    marks = {("shared_%d" % shared_owner)} if "Shared" in types else set()
    for nm in types:
        i = None if nm == "Shared" else int(re.match(r"[A-Za-z]+(\d+)", nm).group(1))
        if nm.startswith("Ty"):
            marks.add("mark_%d" % i)
            assoc.add("Ty%d_ASSOC_%d" % (i, i))      # part of the type
    return {"types": types, "functions": funcs, "constants": consts | assoc, "statics": stats, "marks": marks}, contrib, parsed


def observed(pre, lang):
    """the definitions in preprocessed text"""
    types = set(re.findall(r"\bstruct\s+(\w+)\s*\{", pre)) | set(re.findall(r"\benum(?:\s+class)?\s+(En\w+)\s*:\s*\w+\s*\{", pre)) | set(re.findall(r"\busing\s+(Al\w+)\s*=", pre)) | set(re.findall(r"\btypedef\s+[^;{}]*?\b(\w+)\s*;", pre))
    if lang == "C":
        types |= set(re.findall(r"\benum\s+(En\w+)\s*(?::\s*\w+\s*)?\{", pre))
    g = set()
    for x in types:
        if lang == "C++" and re.fullmatch(r"Gen\d+", x):
            g.add(x)
    types -= g
    return {"types": types, "functions": set(re.findall(r"\b(func\w*|use_shared\w*)\s*\(", pre)), "constants": set(re.findall(r"\b((?:Ty\d+_)?(?:KONST|ASSOC)\w*)\s*=", pre)) | set(re.findall(r"#define ((?:Ty\d+_)?(?:KONST|ASSOC)\w*) ", pre)),
            "statics": set(re.findall(r"\b(STAT\w*)\s*;", pre)), "marks": set(re.findall(r"\b((?:mark|shared)\w*_\d+)\s*;", pre)), "gen": g}


def generate(ctx, d, case, cfg, args, out):
    vp.write(os.path.join(d, "cfg.toml"), cc.toml(cfg))
    a = ["-q", "-c", "cfg.toml", "-o", out] + args
    if case["deps"] and case["flag"]:
        a.append("-d")
    b = case["crates"][case["bound"]]["name"]
    env = dict(vp.ENV, CARGO_NET_OFFLINE="true")
    env.pop("TARGET", None)
    if case["real"]:
        p = ctx.bindgen(d, a + (["--crate", b] if case["bound"] else []) + [os.path.join(d, "c0")], env=env)
    else:
        # the input directory tells apart two packages of the bound crate's name
        sd = "c%d" % (case["bound"] if case["crates"][case["bound"]]["twin"] else 0)
        vp.write(os.path.join(d, sd, "Cargo.toml"), '[package]\nname = "%s"\nversion = "0.1.0"\n' % case["crates"][int(sd[1:])]["name"])
        p = ctx.bindgen(d, a + (["--crate", b] if sd == "c0" and case["bound"] or case["perm"] % 2 else []) + [[os.path.join(d, sd), sd][case["perm"] // 2 % 2]], env=env)
    if p.returncode != 0:
        cc.fail("cbindgen failed (exit %d): %s" % (p.returncode, p.stderr[-600:]), None, cfg, json.dumps(case))
    return vp.read(os.path.join(d, out))


def check_graph(case, ctx):
    d = ctx.fresh()
    for i, c in enumerate(case["crates"]):
        if c["kind"] != "bin":
            write_crate(d, case, i)
        if c["twin"]:
            write_crate(d, case, i, "twin")
    parse = {}
    if not case["flag"]:
        parse["parse_deps"] = case["deps"]
    if case["include"] is not None:
        parse["include"] = case["include"]
    if case["exclude"]:
        parse["exclude"] = case["exclude"]
    if case["extra"]:
        parse["extra_bindings"] = case["extra"]
    cfg = {"language": case["lang"], "no_includes": True, "parse": parse, "defines": {"unix": "VP_UNIX", "windows": "VP_WIN"}, "const": {"allow_constexpr": False}}
    if case["real"]:
        manifests(d, case)
        h = generate(ctx, d, case, cfg, [], "out.h")
    else:
        h = generate(ctx, d, case, cfg, synth(d, case, 0, False), "out.h")
        h2 = generate(ctx, d, case, cfg, synth(d, case, 1 + case["perm"], True), "out2.h")
        lines = lambda t: sorted("".join(sorted(l)) if l.startswith("#if") else l for l in t.split("\n"))
        if lines(h) != lines(h2):
            cc.fail("reordering packages and dependencies or adding an unrelated package changes the header", None, cfg, json.dumps(case) + "\n--- first\n" + h + "\n--- second\n" + h2)
    conds = sorted({y for e in case["edges"] for x in e.get("cond", []) if x for y in x})
    for m in range(1 << len(conds)):
        on = {c for k, c in enumerate(conds) if m >> k & 1}
        want, contrib, parsed = model(case, on)
        pre = vp.run(["gcc", "-E", "-dD", "-P", "-x", "c"] + ["-D" + COND[c] for c in on] + ["out.h"], cwd=d).stdout
        got = observed(pre, case["lang"])
        gen = got.pop("gen")
        if case["lang"] == "C++":
            # templates: monomorphs are not spelled out
            want["types"] = {re.sub(r"^(Gen\d+)_.*", r"\1", t) for t in want["types"]}
            got["types"] |= gen
        for k in want:
            if want[k] != got[k]:
                cc.fail("bound crate %s, %s: %s missing %s, unexpected %s" % (case["crates"][case["bound"]]["name"], sorted(on), k, sorted(want[k] - got[k]), sorted(got[k] - want[k])), None, cfg, json.dumps(case) + "\n" + h)
        ctx.evaluated(5)
    ctx.label("contributing:%d" % len(contrib), "conds:%d" % len(conds), "lock:%d" % case["lock"])
    ctx.nontrivial(len(contrib) > 1 and len(contrib) < len(case["crates"]))


# ------------------------------------------------------------------ expansion
FEATS = ["fa", "fb", "fc"]


@st.composite
def expand_case(draw):
    dep = draw(B)
    c = {"default": draw(st.lists(S(FEATS), max_size=2, unique=True)), "all": draw(S([True, False, False])), "dflt": draw(S([None, True, False])), "features": draw(S([None, draw(st.lists(S(FEATS), max_size=3, unique=True))])), "short": draw(st.integers(0, 5)) == 0,
            "dep": dep, "expdep": draw(B), "clean": draw(S([None, None, "key", "flag"])), "profile": draw(S([None, None, "debug", "release"])), "exclude": draw(B)}
    if dep and c["expdep"] and not c["short"]:
        c["features"] = None        # cargo does not accept the root's features for another package
    return c


def check_expand(case, ctx):
    d = ctx.fresh()
    body = "macro_rules! mk { ($n:ident, $f:ident) => { #[repr(C)] pub struct $n { pub made: u32 } #[no_mangle] pub extern \"C\" fn $f(p: $n) {} } }\nmk!(Always, use_always);\n"
    for f in FEATS:
        body += '#[cfg(feature = "%s")] mk!(Made%s, use_%s);\n#[cfg(not(feature = "%s"))] #[repr(C)] pub struct Not%s { pub x: u8 }\n#[cfg(not(feature = "%s"))] #[no_mangle] pub extern "C" fn not_%s(p: *const Not%s) {}\n' % (f, f, f, f, f, f, f, f)
    body += "#[cfg(debug_assertions)] mk!(Debug, use_debug);\n"
    man = '[package]\nname = "root-x"\nversion = "0.3.0"\nedition = "2021"\n\n[features]\ndefault = %s\n%s\n[workspace]\n' % (json.dumps(case["default"]), "".join("%s = []\n" % f for f in FEATS))
    if case["dep"]:
        man += '[dependencies]\ndep-y = { path = "dep" }\n'
        vp.write(os.path.join(d, "c", "dep", "Cargo.toml"), '[package]\nname = "dep-y"\nversion = "1.0.0"\nedition = "2021"\n')
        vp.write(os.path.join(d, "c", "dep", "src", "lib.rs"), "macro_rules! mk { ($n:ident) => { #[repr(C)] pub struct $n { pub dep_field: u32 } } }\nmk!(DepMade);\n#[repr(C)] pub struct DepPlain { pub y: u8 }\n")
        body += '#[no_mangle] pub extern "C" fn use_dep(a: *const dep_y::DepMade, b: *const dep_y::DepPlain) {}\n'
    vp.write(os.path.join(d, "c", "Cargo.toml"), man)
    vp.write(os.path.join(d, "c", "src", "lib.rs"), body)
    crates = ["root-x"] + (["dep-y"] if case["dep"] and case["expdep"] else [])
    parse = {"parse_deps": True}
    if case["exclude"]:
        parse["exclude"] = ["dep-y"]
    if case["short"]:
        parse["expand"] = crates
    else:
        ex = {"crates": crates}
        if case["all"]:
            ex["all_features"] = True
        if case["dflt"] is not None:
            ex["default_features"] = case["dflt"]
        if case["features"] is not None:
            ex["features"] = case["features"]
        if case["profile"]:
            ex["profile"] = case["profile"]
        parse["expand"] = ex
    if case["clean"] == "key":
        parse["clean"] = True
    cfg = {"language": "C", "no_includes": True, "parse": parse}
    vp.write(os.path.join(d, "cfg.toml"), cc.toml(cfg))
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    env = dict(vp.ENV, CARGO_NET_OFFLINE="true", TMPDIR=tmp, RUSTC_BOOTSTRAP="1")
    for k in ("TARGET", "OUT_DIR", "CARGO_EXPAND_TARGET_DIR", "CARGO_TARGET_DIR", "CARGO"):
        env.pop(k, None)
    p = ctx.bindgen(d, ["-q", "-c", "cfg.toml", "-o", "out.h"] + (["--clean"] if case["clean"] == "flag" else []) + ["c"], env=env)
    if p.returncode != 0:
        cc.fail("cbindgen failed (exit %d): %s" % (p.returncode, p.stderr[-1500:]), body, cfg)
    h = vp.read(os.path.join(d, "out.h"))
    on = set()
    if case["short"] or case["all"]:
        on = set(FEATS)
    else:
        if case["dflt"] in (None, True):
            on |= set(case["default"])
        on |= set(case["features"] or [])
    rel = case["profile"] == "release" and not case["short"]
    want = {"Always"} | {"Made" + f if f in on else "Not" + f for f in FEATS} | (set() if rel else {"Debug"})
    wantf = {"use_always"} | {"use_" + f if f in on else "not_" + f for f in FEATS} | (set() if rel else {"use_debug"})
    if case["dep"]:
        wantf.add("use_dep")
        if case["expdep"]:
            want |= {"DepMade", "DepPlain"}
        elif not case["exclude"]:
            want.add("DepPlain")
    got = set(re.findall(r"\bstruct\s+(\w+)\s*\{", h))
    gotf = set(re.findall(r"\b(\w+)\([^;]*\);", h))
    if got != want or gotf != wantf:
        cc.fail("expansion: types missing %s, unexpected %s; functions missing %s, unexpected %s" % (sorted(want - got), sorted(got - want), sorted(wantf - gotf), sorted(gotf - wantf)), body, cfg, h)
    left = os.listdir(tmp)
    if left:
        cc.fail("temporary files are left behind: %s" % left, None, cfg)
    ctx.label("expand", "clean:%s" % case["clean"])
    ctx.evaluated(2)
    ctx.nontrivial(True)


def strategies(tier):
    return [("graph", graph(False), check_graph, 88), ("cargo", graph(True), check_graph, 10), ("expand", expand_case(), check_expand, 2)]
