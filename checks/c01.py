"""C01: layout of emitted type bodies vs rustc (size_of / align_of / offset_of!)."""
from hypothesis import strategies as st
import gen, rs, cc, vp

PROP = "C01"
N = {"quick": 1600, "thorough": 24000}
RULE = ("case = generated Rust program (structs, unions, fieldless and tagged enums, transparent structs, aliases, generics, "
        "packed/align) plus language/style; non-trivial = at least one multi-field or payload-carrying type whose offsets were "
        "compared with rustc in every generated header")
ASSUMPTIONS = ["x86_64 Linux ABI, gcc/g++ 13 and the installed nightly rustc", "empty structs are excluded (no C equivalent)",
               "repr(packed)/repr(align) are generated with layout.packed/aligned_n configured, as documented"]


@st.composite
def cases(draw):
    p = draw(gen.program(max_items=6, max_fns=1))
    p["style"] = draw(st.sampled_from(["type", "tag", "both"]))
    p["cpp_compat"] = draw(st.booleans())
    p["c23"] = draw(st.integers(0, 5)) == 0
    p["enum_class"] = draw(st.booleans())
    p["usz"] = draw(st.booleans())
    return p


def strategy(tier):
    return cases()


def probe_targets(items):
    """-> list of (rust type text, C name key, item, substitution) to measure"""
    out = []
    byname = {i["name"]: i for i in items}
    for it in items:
        if it["k"] in ("struct", "union", "enum", "type") and not it.get("gen"):
            out.append((it["name"], it["name"], it))
    return out


def with_instances(items):
    inst = gen.instances(items)
    extra = []
    alias = {}
    for i, t in enumerate(inst):
        n = "Inst" + rs.cap(rs.word(i))
        alias[rs.rust(t)] = n
        extra.append({"k": "type", "name": n, "ty": t, "inst": True})
    if extra:
        extra.append({"k": "fn", "name": "use_inst", "args": [["i%d" % i, ["ptr", "mut", ["path", e["name"], []]]] for i, e in enumerate(extra)], "ret": None})
    return items + extra, alias


def layout_lines(items):
    """rust probe statements"""
    byname = {i["name"]: i for i in items}
    body = ""
    for it in items:
        if it["k"] not in ("struct", "union", "enum", "type") or it.get("gen"):
            continue
        n = it["name"]
        body += 'println!("S %s {} {}", ::std::mem::size_of::<%s>(), ::std::mem::align_of::<%s>());\n' % (n, n, n)
        t = it
        if it.get("inst"):
            t = byname[it["ty"][1]]
        if t["k"] in ("struct", "union") and t.get("repr") != ["transparent"]:
            for f in t["fields"]:
                if f[1][0] in ("phantom", "pinned"):
                    continue
                body += 'println!("O %s %s {}", ::std::mem::offset_of!(%s, %s));\n' % (n, f[0], n, f[0])
        elif t["k"] == "enum" and t.get("tagged"):
            for v in t["variants"]:
                for j in range(len(v.get("tuple") or [])):
                    body += 'println!("O %s %s.%d {}", ::std::mem::offset_of!(%s, %s.%d));\n' % (n, v["name"], j, n, v["name"], j)
                for f, _ in v.get("named") or []:
                    body += 'println!("O %s %s.%s {}", ::std::mem::offset_of!(%s, %s.%s));\n' % (n, v["name"], f, n, v["name"], f)
    return body


def c_path(it, key, cxx):
    """C access path of a rust field key; tuple fields are numbered after dropping zero-sized markers as in Rust (original index)"""
    if it["k"] in ("struct", "union"):
        if key.isdigit():
            # zero-sized marker fields are dropped and the others renumbered
            return "_%d" % sum(1 for f in it["fields"][:int(key)] if f[1][0] not in ("phantom", "pinned"))
        return key
    vn, f = key.split(".")
    v = [x for x in it["variants"] if x["name"] == vn][0]
    if v.get("tuple") is not None:
        if len(v["tuple"]) == 1 and not cxx:
            return v["snake"]
        return v["snake"] + "._" + f
    return v["snake"] + "." + f


def check(case, ctx):
    items, alias = with_instances(case["items"])
    byname = {i["name"]: i for i in items}
    d = ctx.fresh()
    src = rs.rust_program(items)
    out = cc.rust_run(d, src + "fn main() {\n" + layout_lines(items) + "}\n", features="#![feature(offset_of_enum)]\n")
    langs = [("c", False)]
    if not any(f in case["feats"] for f in gen.CXX_UNSAFE):
        langs.append(("cxx", True))
    multi = False
    for lang, cxx in langs:
        cfg = {"language": "C++" if cxx else "C", "layout": cc.LAYOUT, "after_includes": cc.ALIGN_DEF,
               "usize_is_size_t": case["usz"]}
        if cxx:
            cfg.update(cc.CXX_INC)
            cfg["enum"] = {"enum_class": case["enum_class"]}
        else:
            # a self pointer needs a tag
            cfg["style"] = style = style_of(case)
            cfg["cpp_compat"] = case["cpp_compat"]
        h = cc.bindgen(ctx, d, src, cfg, out=lang + ".h")
        names = cc.c_names(items, lang, None if cxx else cfg["style"])
        al, sa = ("alignof", "static_assert") if cxx else ("_Alignof", "_Static_assert")
        t = '#include "%s.h"\n#include <stddef.h>\n' % lang
        n = 0
        for line in out.splitlines():
            w = line.split()
            it = byname[w[1]]
            cn = names[w[1]]
            if w[0] == "S":
                t += '%s(sizeof(%s) == %s, "VPFAIL size of %s must be %s");\n' % (sa, cn, w[2], w[1], w[2])
                t += '%s(%s(%s) == %s, "VPFAIL alignment of %s must be %s");\n' % (sa, al, cn, w[3], w[1], w[3])
                n += 2
            else:
                base = byname[it["ty"][1]] if it.get("inst") else it
                t += '%s(offsetof(%s, %s) == %s, "VPFAIL offset of %s.%s must be %s");\n' % (sa, cn, c_path(base, w[2], cxx), w[3], w[1], w[2], w[3])
                n += 1
                if w[3] != "0":
                    multi = True
        p = cc.compile_c(d, "p_" + lang, t, cxx=cxx)
        if p.returncode != 0:
            cc.fail("layout of the %s header differs from rustc" % lang, src, cfg, h, p.stderr[:3000])
        if not cxx and case["c23"]:
            # C23: enums get a fixed underlying type
            p = vp.run(["clang", "-std=c23", "-fsyntax-only", "-w", "p_c.c"], cwd=d)
            ctx.label("c23")
            if p.returncode != 0:
                cc.fail("layout of the C header (C23) differs from rustc", src, cfg, h, p.stderr[:3000])
        ctx.evaluated(n)
        if not cxx and case["cpp_compat"]:
            # the same C header seen by a C++ compiler
            t2 = t.replace("_Static_assert", "static_assert").replace("_Alignof", "alignof")
            p = cc.compile_c(d, "p_compat", t2, cxx=True)
            if p.returncode != 0:
                cc.fail("layout of the cpp_compat header compiled as C++ differs from rustc", src, cfg, h, p.stderr[:3000])
        ctx.label("lang:" + lang)
    for it in items:
        ctx.label("item:" + it["k"] + (":tagged" if it.get("tagged") else "") + (":generic" if it.get("gen") else "")
                  + (":packed" if it.get("packed") else "") + (":align" if it.get("align") else ""))
    ctx.nontrivial(multi)


def has_self(items):
    for it in items:
        for t in gen.item_types(it):
            for x in rs.walk(t):
                if x[0] == "path" and x[1] == it["name"] and it["k"] != "fn":
                    return True
    return False


def style_of(case):
    if case["style"] == "type" and has_self(case["items"]):
        return "both"
    return case["style"]
