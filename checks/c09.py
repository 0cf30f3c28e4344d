"""C09: determinism across processes/directories/environments, and the promised order of declarations."""
import os, random, shutil
from hypothesis import strategies as st
import cc, vp, hdr, rs, gen, cfgs
import c05, c08

PROP = "C09"
N = {"quick": 8000, "thorough": 200000}
RULE = ("determinism: case = generated program (types/generics of lib/gen.py, the constants of C05 with struct literals, or the cfg trees of C08) x configuration "
        "with renames, defines and bodies; it is run in 4 processes (fresh hash seeds) in different directories, environments, with and without an old output file and to "
        "stdout, and all outputs must be byte-identical; order: case = functions, statics and constants with random names spread over nested modules x sort_by settings; "
        "the header must list each group in the promised order, and a permuted source must give the same set of declarations; non-trivial = at least 4 declarations")
ASSUMPTIONS = ["hash seeds differ between processes (std RandomState)", "parse order = the items of a module in order, then its submodules depth first"]
B = st.booleans()


# ------------------------------------------------------------- determinism
@st.composite
def det_cases(draw):
    kind = draw(st.sampled_from(["prog", "prog", "consts", "consts", "cfg"]))
    c = {"kind": kind, "seed": draw(st.integers(0, 999))}
    if kind == "prog":
        c["prog"] = draw(gen.program(drop=("box", "wrap"), max_items=7, max_fns=4))
        lang = draw(st.sampled_from(["C", "C", "C++", "Cython"]))
        cfg = cc.merge({"language": lang}, draw(cfgs.formatting()))
        names = [i["name"] for i in c["prog"]["items"] if i["k"] in ("struct", "union", "enum", "opaque", "type")]
        exp = {}
        if names and draw(B):
            exp["rename"] = {n: "Re" + n for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=5))}
        if names and draw(B):
            exp["body"] = {n: "/* body of %s */" % n for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=4))}
        if draw(B):
            exp["prefix"] = "Pre"
        if draw(st.integers(0, 3)) == 0:
            exp["mangle"] = {"remove_underscores": True}
        if exp:
            cfg["export"] = exp
        if lang == "C":
            cfg["cpp_compat"] = draw(B)
            cfg["style"] = draw(st.sampled_from(["both", "tag", "type"]))
        c["cfg"] = cfg
    elif kind == "consts":
        c["prog"] = draw(c05.cases())
    else:
        c["prog"] = draw(c08.cases())
    c["sort"] = draw(st.sampled_from([None, "Name", "None"]))
    return c


def det_source(case):
    p = case["prog"]
    if case["kind"] == "prog":
        return rs.rust_program(p["items"]), dict(case["cfg"])
    if case["kind"] == "consts":
        return c05.render(p), c05.config(p)
    defined = [i for i, a in enumerate(c08.ATOMS) if a[2] and i not in p["undef"]]
    cfg = dict(p["cfg"])
    cfg["defines"] = {c08.ATOMS[i][1]: c08.ATOMS[i][2] for i in defined}
    cfg["export"] = {"include": sorted(set(c08.type_names(p["items"])))}
    return c08.R(set(defined), None).program(p["items"]), cfg


def det_check(case, ctx):
    d = ctx.fresh()
    src, cfg = det_source(case)
    if case["sort"]:
        cfg["sort_by"] = case["sort"]
    rnd = random.Random(case["seed"])
    outs = []
    a = os.path.join(d, "a")
    os.makedirs(a)
    outs.append(("plain run", cc.bindgen(ctx, a, src, cfg)))
    p = ctx.bindgen(a, ["-q", "-c", "out.h.toml", "lib.rs"])
    outs.append(("to stdout, next to an existing header", p.stdout))
    p = ctx.bindgen(a, ["-q", "-c", "out.h.toml", "-o", "out.h", "lib.rs"])
    outs.append(("second run over the same output", vp.read(os.path.join(a, "out.h"))))
    b = os.path.join(d, "deep dir", "x" * rnd.randint(1, 30), "zz")
    vp.write(os.path.join(b, "conf.toml"), cc.toml(cfg))
    vp.write(os.path.join(b, "elsewhere.rs"), src)
    vp.write(os.path.join(b, "o.h"), rnd.choice(["", "garbage\n" * 50, outs[0][1][:-1], outs[0][1] + "x"]))
    env = dict(vp.ENV)
    env.update({"HOME": d, "TZ": rnd.choice(["UTC", "Asia/Tokyo"]), "LANG": rnd.choice(["C", "tr_TR.UTF-8"]), "LC_ALL": "C", "COLUMNS": "20", "USER": "someone", "TMPDIR": b,
                "VP_X%d" % rnd.randint(0, 99): "1"})
    p = ctx.bindgen(d, ["-q", "-c", os.path.join(b, "conf.toml"), "-o", os.path.join(b, "o.h"), os.path.join(b, "elsewhere.rs")], env=env)
    if p.returncode != 0:
        cc.fail("run from another directory failed: " + p.stderr[-500:], src, cfg)
    outs.append(("other directory, environment and old output", vp.read(os.path.join(b, "o.h"))))
    for what, o in outs[1:]:
        ctx.evaluated()
        if o != outs[0][1]:
            cc.fail("output differs between processes (%s)" % what, src, cfg, outs[0][1], o)
    ctx.label("det:" + case["kind"])
    ctx.nontrivial(len(hdr.decls(outs[0][1])) >= 4 if cfg.get("language") != "Cython" else outs[0][1].count("\n") > 12)


# ------------------------------------------------------------------- order
NAMES = ["a", "b", "aa", "ab", "a_b", "a1", "a10", "a2", "z", "zz", "_a", "a_", "m", "mid", "mod_x", "n9", "n10", "q", "q_q", "y"]


@st.composite
def tree(draw, pool, d, n):
    items = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["fn", "fn", "static", "const", "sconst", "impl", "extern"]))
        if not pool:
            break
        w = pool.pop(draw(st.integers(0, len(pool) - 1)))
        up = draw(B)
        items.append([k, w.upper() if up and k != "fn" else ("A" + w if up else w)])
    mods = []
    if d > 0:
        for _ in range(draw(st.integers(0, 2))):
            n[0] += 1
            mods.append(["mod", "md%d" % n[0], draw(tree(pool, d - 1, n))])
    # submodules interleaved with items
    for m in mods:
        items.insert(draw(st.integers(0, len(items))), m)
    return items


@st.composite
def ord_cases(draw):
    t = draw(tree(list(NAMES), 2, [0]))
    lang = draw(st.sampled_from(["C", "C++", "Cython"]))
    cfg = {"language": lang}
    keys = st.sampled_from([None, "Name", "None"])
    for sec in [None, "fn", "const"]:
        k = draw(keys)
        if k:
            if sec is None:
                cfg["sort_by"] = k
            else:
                cfg[sec] = {"sort_by": k}
    return {"tree": t, "cfg": cfg, "perm": draw(st.integers(0, 9999))}


def names_of(k, w):
    if k in ("fn", "extern"):
        return "f_" + w
    if k == "static":
        return "S_" + w
    if k == "impl":
        return "i_" + w
    if k == "sconst":
        return "KS_" + w
    return "K_" + w


def ord_render(items):
    out = ""
    for it in items:
        k, w = it[0], it[1]
        n = names_of(k, w) if k != "mod" else None
        if k == "mod":
            out += "pub mod %s { use super::*;\n%s}\n" % (w, ord_render(it[2]))
        elif k == "fn":
            out += '#[no_mangle] pub extern "C" fn %s(a: u8) {}\n' % n
        elif k == "static":
            out += "#[no_mangle] pub static %s: u8 = 1;\n" % n
        elif k == "const":
            out += "pub const %s: i32 = 5;\n" % n
        elif k == "sconst":
            out += "pub const %s: TyBase = TyBase { x: 1 };\n" % n
        elif k == "impl":
            out += 'impl TyBase { #[no_mangle] pub extern "C" fn %s(a: u8) {} }\n' % n
        elif k == "extern":
            out += 'extern "C" { pub fn %s(a: u8); }\n' % n
    return out


def parse_order(items):
    out = [(it[0], names_of(it[0], it[1])) for it in items if it[0] != "mod"]
    for it in items:
        if it[0] == "mod":
            out += parse_order(it[2])
    return out


def shuffled(items, rnd):
    l = [[it[0], it[1], shuffled(it[2], rnd)] if it[0] == "mod" else it for it in items]
    rnd.shuffle(l)
    return l


HEAD = "#![allow(warnings)]\n#[repr(C)] pub struct TyBase { pub x: u8 }\n#[no_mangle] pub extern \"C\" fn use_base(a: *const TyBase) {}\n"


def positions(h, names):
    toks = hdr.tokens(h)
    pos = {}
    for i, t in enumerate(toks):
        if t.startswith("#define"):
            t = t.split()[1]
        if t in names:
            pos.setdefault(t, []).append(i)
    return pos


def ord_check(case, ctx):
    d = ctx.fresh()
    cfg = case["cfg"]
    src = HEAD + ord_render(case["tree"])
    h = cc.bindgen(ctx, d, src, cfg)
    text = h if cfg["language"] != "Cython" else "\n".join(l.split("#")[0] for l in h.split("\n"))
    exp = parse_order(case["tree"])
    pos = positions(text, {n for _, n in exp})
    groups = {"functions": ["fn", "impl", "extern"], "statics": ["static"], "constants": ["const"], "struct constants": ["sconst"]}
    glob = cfg.get("sort_by", "None")
    for g, ks in groups.items():
        want = [n for k, n in exp if k in ks]
        key = cfg.get("fn" if g == "functions" else "const", {}).get("sort_by", glob)
        if key == "Name":
            want = sorted(want, key=lambda s: s.encode())
        got = sorted((p[0], n) for n, p in pos.items() if n in want)
        got = [n for _, n in got]
        if any(len(pos[n]) != 1 for n in got):
            cc.fail("declared more than once: %s" % [n for n in got if len(pos[n]) != 1], src, cfg, h)
        if got != want:
            cc.fail("%s are in the order %s, sort_by=%s promises %s" % (g, got, key, want), src, cfg, h)
        ctx.evaluated()
    # permuting the source never changes the set of declarations
    src2 = HEAD + ord_render(shuffled(case["tree"], random.Random(case["perm"])))
    h2 = cc.bindgen(ctx, d, src2, cfg, out="p.h", srcname="p.rs")
    if cfg["language"] == "Cython":
        a, b = sorted(h.split("\n")), sorted(h2.split("\n"))
    else:
        a = sorted(str((x["kind"], x["name"], x["toks"])) for x in hdr.decls(h))
        b = sorted(str((x["kind"], x["name"], x["toks"])) for x in hdr.decls(h2))
    if a != b:
        cc.fail("permuting the source changes the declarations: %s" % sorted(set(a) ^ set(b)), src, cfg, h, src2 + h2)
    ctx.label("order:" + cfg["language"], "fn:" + cfg.get("fn", {}).get("sort_by", glob), "const:" + cfg.get("const", {}).get("sort_by", glob))
    ctx.nontrivial(len(exp) >= 4)


def strategies(tier):
    return [("det", det_cases(), det_check, 2), ("order", ord_cases(), ord_check, 1)]
