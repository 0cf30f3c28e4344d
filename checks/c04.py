"""C04: the set of exported declarations equals the model of what is exported."""
import os, re
from hypothesis import strategies as st
import cc, vp, hdr, rs

PROP = "C04"
N = {"quick": 4800, "thorough": 60000}
RULE = ("case = crate of up to 14 candidate items (functions with every ABI x linkage attribute x visibility x skip attribute x container, statics, "
        "constants, associated constants, foreign functions, types linked into reachability chains) x include/exclude/item_types; the declared "
        "names in the header and the symbol file are compared with a model, and with the symbols rustc really emits; non-trivial = at least two "
        "items exported and two not exported")
ASSUMPTIONS = ["identifiers are pairwise distinct", "types of functions excluded from the header by no-export may or may not be emitted"]
B = st.booleans()

ABIS = ["", "extern ", 'extern "C" ', 'unsafe extern "C" ', 'extern "C-unwind" ', 'extern "Rust" ', 'extern "system" ', "unsafe ", 'extern r#"C"# ']
C_ABI = {"extern ", 'extern "C" ', 'unsafe extern "C" ', 'extern "C-unwind" ', 'extern r#"C"# '}
FOREIGN_C = ("extern ", 'extern "C" ', 'unsafe extern "C" ', 'extern "C-unwind" ')
LINK = ["", "no_mangle", "no_mangle", "unsafe(no_mangle)", "export_name", "unsafe(export_name)"]
SKIP = ["", "", "", "", "", "cfg_test", "ignore", "ignore_attr", "noexport"]
VIS = ["pub ", "", "pub(crate) "]
# containers: name -> (skipped?, is_impl)
CONT = ["root", "root", "root", "mod", "nested", "mod_test", "mod_ignored", "impl", "impl_second", "impl_test", "impl_trait", "privmod"]
KINDS = ["functions", "globals", "constants", "structs", "enums", "unions", "typedefs", "opaque"]


@st.composite
def cases(draw):
    items = []
    nt = draw(st.integers(0, 6))
    types = []
    for i in range(nt):
        k = draw(st.sampled_from(["struct", "enum", "union", "type", "opaque", "tagged", "transparent"]))
        deps = []
        for j in draw(st.lists(st.integers(0, nt - 1), max_size=2, unique=True)):
            if j < i:
                deps.append([j, draw(st.sampled_from(["ptr", "val", "arr", "fnarg", "fnret", "optref", "pp", "gen"]))])
        if k in ("enum", "opaque"):
            deps = []
        if k in ("type", "transparent"):
            deps = deps[:1]
        for d in deps:
            if types[d[0]]["k"] in ("opaque",) and d[1] in ("val", "arr"):
                d[1] = "ptr"
            if types[d[0]]["skip"] and d[1] in ("val", "arr"):
                d[1] = "ptr"
        types.append({"k": k, "name": "Ty" + rs.cap(rs.word(i)), "deps": deps, "vis": draw(st.sampled_from(VIS)),
                      "skip": draw(st.sampled_from(["", "", "", "", "", "", "", "ignore", "noexport"])),
                      "cont": draw(st.sampled_from(["root", "mod", "nested", "privmod"]))})
        if k == "type" and types[-1]["skip"] == "noexport":
            types[-1]["skip"] = ""       # annotations on an alias are transferred to the aliased type (documented feature)
    n = draw(st.integers(2, 14))
    for i in range(n):
        k = draw(st.sampled_from(["fn", "fn", "fn", "fn", "static", "const", "foreign", "assoc"]))
        it = {"k": k, "i": i, "vis": draw(st.sampled_from(VIS)), "skip": draw(st.sampled_from(SKIP)),
              "cont": draw(st.sampled_from(CONT))}
        if k == "fn":
            it["abi"] = draw(st.sampled_from(ABIS + ['extern "C" '] * 9))
            it["link"] = draw(st.sampled_from(LINK))
            it["test"] = draw(st.integers(0, 15)) == 0
        if k == "static":
            it["link"] = draw(st.sampled_from(LINK))
            it["mut"] = draw(B)
        if k == "foreign":
            it["abi"] = draw(st.sampled_from(['extern "C" ', "extern ", 'unsafe extern "C" ', 'extern "system" ', 'extern "Rust" ', 'extern "C-unwind" ']))
            it["blockskip"] = draw(st.sampled_from(["", "", "", "", "cfg_test", "ignore"]))
            it["second"] = draw(B)
        if k == "assoc":
            it["vis"] = draw(st.sampled_from(["pub ", "pub ", ""]))
        if k in ("static", "const", "foreign") and it["cont"].startswith("impl"):
            it["cont"] = draw(st.sampled_from(["root", "mod", "nested", "mod_test", "privmod"]))
        if k == "assoc":
            it["cont"] = draw(st.sampled_from(["impl", "impl_second", "impl_test"]))
        uses = []
        if k in ("fn", "static", "foreign") and nt:
            for j in draw(st.lists(st.integers(0, nt - 1), max_size=2, unique=True)):
                uses.append([j, draw(st.sampled_from(["ptr", "val", "fnarg", "fnret", "optref", "pp", "gen"]))])
                if types[j]["k"] == "opaque" or types[j]["skip"]:
                    uses[-1][1] = "ptr"
        it["uses"] = uses
        items.append(it)
    cfg = {}
    allnames = [t["name"] for t in types] + [names(i)[1] for i in items]
    if draw(st.integers(0, 2)) == 0 and types:
        cfg["include"] = draw(st.lists(st.sampled_from([t["name"] for t in types]), min_size=1, max_size=2, unique=True))
    if draw(st.integers(0, 2)) == 0:
        cfg["exclude"] = draw(st.lists(st.sampled_from(allnames), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 4)) == 0:
        cfg["item_types"] = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=7, unique=True))
    return {"types": types, "items": items, "export": cfg, "lang": draw(st.sampled_from(["C", "C", "C++"])),
            "style": draw(st.sampled_from(["both", "tag", "type"])), "perm": draw(st.integers(0, 999))}


def strategy(tier):
    return cases()


def names(it):
    """(rust identifier, C name)"""
    w = rs.word(it["i"])
    k = it["k"]
    if k == "fn":
        n = "fun_" + w
        return n, ("sym_" + w if "export_name" in it["link"] else n)
    if k == "static":
        n = "GLOB_" + w.upper()
        return n, ("sym_" + w if "export_name" in it["link"] else n)
    if k == "const":
        return "CONST_" + w.upper(), "CONST_" + w.upper()
    if k == "assoc":
        return "ASSOC_" + w.upper(), "ASSOC_" + w.upper()
    return "foreign_" + w, "foreign_" + w


MODPATH = {"root": [], "mod": ["m_one"], "nested": ["m_one", "m_two"], "mod_test": ["m_test"], "mod_ignored": ["m_ign"], "privmod": ["m_priv"],
           "impl": [], "impl_second": [], "impl_test": [], "impl_trait": []}


def skip_attr(s):
    return {"": "", "cfg_test": "#[cfg(test)]\n", "ignore": "/// cbindgen:ignore\n", "ignore_attr": '#[doc = "cbindgen:ignore"]\n',
            "noexport": "/// cbindgen:no-export\n"}[s]


def use_ty(u, types):
    n = types[u[0]]["name"]
    return {"ptr": "*const " + n, "val": n, "arr": "[%s; 2]" % n, "fnarg": 'extern "C" fn(*mut %s) -> i32' % n,
            "fnret": 'Option<extern "C" fn(i32) -> *mut %s>' % n, "optref": "Option<&'static %s>" % n, "pp": "*mut *const " + n, "gen": "*const GenBox<%s>" % n}[u[1]]


def link_attr(it):
    l = it.get("link")
    c = names(it)[1]
    return {"": "", None: "", "no_mangle": "#[no_mangle]\n", "unsafe(no_mangle)": "#[unsafe(no_mangle)]\n",
            "export_name": '#[export_name = "%s"]\n' % c, "unsafe(export_name)": '#[unsafe(export_name = "%s")]\n' % c}[l]


def type_text(t, types):
    pre = skip_attr(t["skip"])
    f = ["f%d: %s" % (i, use_ty(u, types)) for i, u in enumerate(t["deps"])]
    n, v = t["name"], t["vis"] if t["vis"] != "" else ""
    v = "pub " if True else v
    k = t["k"]
    if k == "struct":
        return pre + "#[repr(C)] #[derive(Clone, Copy)] %sstruct %s { %s }\n" % (v, n, ", ".join(f + ["z: i32"]))
    if k == "transparent":
        return pre + "#[repr(transparent)] #[derive(Clone, Copy)] %sstruct %s { %s }\n" % (v, n, f[0] if f else "z: i32")
    if k == "union":
        return pre + "#[repr(C)] #[derive(Clone, Copy)] %sunion %s { %s }\n" % (v, n, ", ".join(f + ["z: i32"]))
    if k == "enum":
        return pre + "#[repr(C)] #[derive(Clone, Copy)] %senum %s { V%sOne, V%sTwo }\n" % (v, n, n, n)
    if k == "tagged":
        return pre + "#[repr(C)] #[derive(Clone, Copy)] %senum %s { V%sOne, V%sTwo(%s) }\n" % (v, n, n, n, ", ".join(use_ty(u, types) for u in t["deps"]) or "i8")
    if k == "type":
        return pre + "%stype %s = %s;\n" % (v, n, use_ty(t["deps"][0], types) if t["deps"] else "u16")
    return pre + "#[derive(Clone)] %sstruct %s { inner: Vec<u8> }\n" % (v, n)


def item_text(it, types):
    n, c = names(it)
    k = it["k"]
    pre = skip_attr(it["skip"])
    if it.get("test"):
        pre += "#[test]\n"
    if k == "fn":
        args = ", ".join("a%d: %s" % (i, use_ty(u, types)) for i, u in enumerate(it["uses"])) if not it.get("test") else ""
        return "%s%s%s%sfn %s(%s) { }\n" % (pre, link_attr(it), "" if it["cont"] == "impl_trait" else it["vis"], it["abi"], n, args)
    if k == "static":
        u = it["uses"][:1]
        ty = "Option<%s>" % use_ty([u[0][0], "fnarg"], types) if u else "i32"
        return "%s%s%sstatic %s%s: %s = %s;\n" % (pre, link_attr(it), it["vis"], "mut " if it["mut"] else "", n, ty, "None" if u else "7")
    if k in ("const", "assoc"):
        return "%s%sconst %s: i32 = %d;\n" % (pre, it["vis"], n, it["i"])
    args = ", ".join("a%d: %s" % (i, use_ty(u, types)) for i, u in enumerate(it["uses"]))
    blk = "%s%s{\n" % (skip_attr(it["blockskip"]), it["abi"])
    if it["second"]:
        blk += "    fn foreign_other%d(x: i32);\n" % it["i"]
    return blk + "    %s%sfn %s(%s);\n}\n" % (pre.replace("\n", "\n    "), it["vis"], n, args)


def render(case):
    import random
    types, items = case["types"], case["items"]
    cells = {}
    todo = [("t", i) for i in range(len(types))] + [("i", j) for j in range(len(items))]
    random.Random(case["perm"]).shuffle(todo)
    impls = {"impl": [], "impl_second": [], "impl_test": [], "impl_trait": []}
    for k, i in todo:
        if k == "t":
            cells.setdefault(types[i]["cont"], []).append(type_text(types[i], types))
        else:
            it = items[i]
            tx = item_text(it, types)
            if it["cont"] in impls:
                impls[it["cont"]].append(tx)
            else:
                cells.setdefault(it["cont"], []).append(tx)
    g = lambda c: "".join(cells.get(c, []))
    root = cells.get("root", [])
    h = len(root) // 2
    use = "use super::*;\n"
    s = rs.RUST_HEAD + "pub use m_one::*; pub use m_one::m_two::*; pub use m_priv::*;\n"
    s += "#[repr(C)] #[derive(Clone, Copy)] pub struct Holder { h: i32 }\n#[repr(C)] #[derive(Clone, Copy)] pub enum Second { SecA }\n"
    s += "#[repr(C)] pub struct GenBox<T> { g: *const T }\n"
    s += "".join(root[:h])
    s += "pub mod m_one {\n%s%spub mod m_two {\n%s%s}\n}\n" % (use, g("mod"), use, g("nested"))
    s += "#[cfg(test)]\nmod m_test {\n%s%s}\n" % (use, g("mod_test"))
    s += "/// cbindgen:ignore\nmod m_ign {\n%s%s}\n" % (use, g("mod_ignored"))
    s += "mod m_priv {\n%s%s}\n" % (use, g("privmod"))
    s += "impl Holder {\n%s}\n" % "".join(impls["impl"])
    s += "impl Second {\n%s}\n" % "".join(impls["impl_second"])
    s += "#[cfg(test)]\nimpl Holder {\n%s}\n" % "".join(impls["impl_test"])
    tr = [names(i) for i in items if i["cont"] == "impl_trait" and i["k"] == "fn"]
    if tr:
        decl = ""
        for i in items:
            if i["cont"] == "impl_trait" and i["k"] == "fn":
                decl += (skip_attr("cfg_test") if i["skip"] == "cfg_test" else "") + "%sfn %s(%s);\n" % (i["abi"], names(i)[0], ", ".join("a%d: %s" % (j, use_ty(u, types)) for j, u in enumerate(i["uses"])) if not i.get("test") else "")
        s += "pub trait Tr {\n%s}\nimpl Tr for Holder {\n%s}\n" % (decl, "".join(impls["impl_trait"]))
    s += "".join(root[h:])
    s += '#[no_mangle] pub extern "C" fn anchor_fn(h: Holder, s: Second) {}\n'
    return s


SKIPPED_CONT = {"mod_test", "mod_ignored", "impl_test"}
SKIPPED = {"cfg_test", "ignore", "ignore_attr"}


def model(case):
    """-> (fns, statics, consts, must types, may types) : sets of C names"""
    types, items, ex = case["types"], case["items"], case["export"]
    excl = set(ex.get("exclude", []))
    it_types = ex.get("item_types") or KINDS
    on = lambda k: k in it_types
    fns, stats, consts = set(), set(), set()
    roots, mayroots = set(), set()
    if on("functions"):
        fns.add("anchor_fn")
    for it in items:
        n, c = names(it)
        if (it["k"] == "foreign" and it["second"] and on("functions") and it["cont"] not in SKIPPED_CONT and not it["blockskip"]
                and it["abi"] in FOREIGN_C):
            fns.add("foreign_other%d" % it["i"])
        if it["skip"] in SKIPPED or it["cont"] in SKIPPED_CONT or it.get("test"):
            continue
        k = it["k"]
        if k == "fn":
            if it["abi"] not in C_ABI or not it["link"]:
                continue
        elif k == "static":
            if not it["link"]:
                continue
        elif k in ("const", "assoc"):
            if it["vis"] != "pub ":
                continue
        else:
            if it["blockskip"] or it["abi"] not in FOREIGN_C:
                continue
        if c in excl:
            continue
        noexp = it["skip"] == "noexport"
        u = {x[0] for x in it["uses"]} if k != "static" else {x[0] for x in it["uses"][:1]}
        if k in ("fn", "foreign"):
            # functions contribute their types whether or not functions are printed
            (mayroots if noexp or not on("functions") else roots).update(u)
            if not noexp and on("functions"):
                fns.add(c)
        elif k == "static":
            (mayroots if noexp or not on("globals") else roots).update(u)
            if not noexp and on("globals"):
                stats.add(c)
        elif k == "const" and on("constants") and not noexp:
            consts.add(c)
        elif k == "assoc":
            # associated constants: of a struct they travel with the struct, of an enum they are constants named <Type>_<NAME>
            pass
    for i, t in enumerate(types):
        if t["name"] in ex.get("include", []):
            roots.add(i)
    KIND = {"struct": "structs", "transparent": "structs", "union": "unions", "enum": "enums", "tagged": "enums", "type": "typedefs", "opaque": "opaque"}

    def avail(i):
        t = types[i]
        return t["skip"] != "ignore" and on(KIND[t["k"]]) and t["name"] not in excl

    def close(start):
        seen = set()
        work = list(start)
        while work:
            i = work.pop()
            if i in seen or not avail(i):
                continue
            seen.add(i)
            work += [d[0] for d in types[i]["deps"]]
        return seen
    must, may = close(roots), close(roots | mayroots)
    nm = lambda s: {types[i]["name"] for i in s if types[i]["skip"] != "noexport"}
    return fns, stats, consts, nm(must), nm(may)


def check(case, ctx):
    types, items = case["types"], case["items"]
    d = ctx.fresh()
    src = render(case)
    cfg = {"language": case["lang"], "export": case["export"]}
    cfg.update(cc.CXX_INC)
    if case["lang"] == "C":
        cfg["style"] = case["style"]
    h = cc.bindgen(ctx, d, src, cfg, extra=["--symfile", "out.sym"])
    ds = hdr.decls(h)
    fns, stats, consts, must, may = model(case)
    got = {"fn": {}, "static": {}, "const": {}, "type": {}}
    for x in ds:
        k = {"fn": "fn", "static": "static", "const": "const", "define": "const", "struct": "type", "union": "type", "enum": "type",
             "typedef": "type", "fwd": "type"}.get(x["kind"])
        if k:
            got[k].setdefault(x["name"], []).append(x)

    def bad(m):
        cc.fail(m, src, cfg, h)

    def cmp(what, have, want, upper=None):
        upper = want if upper is None else upper
        if want - have:
            bad("%s missing from the header: %s" % (what, sorted(want - have)))
        if have - upper:
            bad("%s in the header that must not be exported: %s" % (what, sorted(have - upper)))
    cmp("functions", set(got["fn"]), fns)
    cmp("statics", set(got["static"]), stats)
    cons = {n for n in got["const"] if n.startswith("CONST_")}
    cmp("constants", cons, consts)
    # associated constants
    allids = set(hdr.tokens(h))
    holder = "Holder" in got["type"]
    ex = case["export"]
    its = ex.get("item_types") or KINDS
    for it in items:
        if it["k"] != "assoc":
            continue
        n = names(it)[0]
        want = it["vis"] == "pub " and it["skip"] not in SKIPPED and it["skip"] != "noexport" and it["cont"] not in SKIPPED_CONT
        present = [x for x in got["const"] if x == "Holder_" + n or x == "Second_" + n]
        if it["cont"] == "impl_second" and want and "constants" in its:
            if present != ["Second_" + n]:
                bad("associated constant %s missing" % n)
        elif it["cont"] == "impl" and want and "constants" in its and holder:
            if present != ["Holder_" + n]:
                bad("associated constant %s missing" % n)
        elif not want and present:
            bad("associated constant %s must not be exported" % n)
    tnames = {t["name"] for t in types}
    have_t = {n for n in got["type"] if n in tnames}
    cmp("types", have_t, must, may)
    # nothing else that we named may be declared or even mentioned as a declared type
    for n, l in list(got["fn"].items()) + list(got["static"].items()) + list(got["const"].items()):
        if len(l) != 1:
            bad("%s is declared %d times" % (n, len(l)))
    for n in have_t:
        bodies = [x for x in got["type"][n] if x["kind"] != "fwd"]
        if len([x for x in bodies if x["kind"] != "typedef"]) > 1 or len([x for x in bodies if x["kind"] == "typedef"]) > 1:
            bad("type %s is declared more than once" % n)
    # ignored rust-side names of renamed symbols never leak
    for it in items:
        n, c = names(it)
        if n != c and n in allids:
            bad("%s is exported under its Rust name instead of %s" % (n, c))
    sym = vp.read(os.path.join(d, "out.sym"))
    m = re.match(r"\{\n((?:\w+;\n)*)\};\s*$", sym)
    if not m:
        bad("malformed symbol file: %r" % sym)
    syms = [x.rstrip(";") for x in m.group(1).split()]
    if sorted(syms) != sorted(fns | stats):
        bad("symbol file lists %s, expected %s" % (sorted(syms), sorted(fns | stats)))
    # independent cross-check with the symbols rustc emits (definitions only)
    if case["perm"] % 4 == 0 and not any(i.get("test") for i in items):
        vp.write(d + "/o.rs", src)
        p = vp.run([vp.rustc_path(), "--edition", "2021", "--crate-type=lib", "--emit=obj", "-Awarnings", "-Ccodegen-units=1", "-o", "o.o", "o.rs"], cwd=d)
        if p.returncode != 0:
            ctx.label("rustc-rejects")
            if os.environ.get("VP_DEBUG"):
                print(re.findall(r"error.*", p.stderr)[:2])
        else:
            nmo = vp.run(["nm", "--defined-only", "o.o"], cwd=d).stdout
            defined = {l.split()[-1] for l in nmo.splitlines() if l.strip()}
            declared = {s for s in syms if not s.startswith("foreign_")}
            if declared - defined:
                bad("the header exports symbols rustc does not emit: %s" % sorted(declared - defined))
            ctx.label("nm-checked")
    nexp = len(fns) + len(stats) + len(consts)
    ctx.label("exported:%d" % min(nexp, 8), "types:%d/%d" % (len(must), len(types)))
    for it in items:
        if it["k"] == "fn":
            ctx.label("cont:" + it["cont"])
    ctx.nontrivial(nexp >= 2 and len(items) + 1 - nexp >= 2)
