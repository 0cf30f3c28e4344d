"""C03: every generated header compiles on its own, in every language it is meant for."""
from hypothesis import strategies as st
import gen, rs, cc, vp, cfgs
from c01 import style_of, has_self

PROP = "C03"
N = {"quick": 3200, "thorough": 50000}
RULE = ("case = generated program (up to 9 types, by-value/pointer/fn-pointer/alias/generic dependencies, shuffled source order, items "
        "spread over nested modules, optional pointer cycles) x random configuration; the header alone is compiled with -Wall -Werror as C, "
        "as C++ (cpp_compat) and as C++, once and included twice; non-trivial = at least 3 types with at least 2 dependency edges between them")
ASSUMPTIONS = ["gcc/g++ 13", "style=type cannot express a struct pointing to itself (documented), so such programs use both/tag",
               "pointer cycles between different types are generated for tag/both C only (KF-C03-1: C++ output has no forward declarations) and "
               "never mix with by-value edges (KF-C03-2)"]
MODS = [[], ["m_a"], ["m_a", "m_b"], ["m_c"]]


@st.composite
def cases(draw):
    p = draw(gen.program(max_items=9, max_fns=3))
    for it in p["items"]:
        it["mod"] = draw(st.integers(0, 3)) if draw(st.booleans()) else 0
    p["style"] = draw(st.sampled_from(["type", "tag", "both"]))
    p["cfg"] = cc.merge(draw(cfgs.formatting()), draw(cfgs.framing(False)))
    p["cfg"]["usize_is_size_t"] = draw(st.booleans())
    p["cpp_compat"] = draw(st.booleans())
    p["ns"] = draw(st.sampled_from([None, "nsalpha", ["nsb", "nsc"]]))
    p["enum"] = {"prefix_with_name": draw(st.booleans()), "enum_class": draw(st.booleans()), "add_sentinel": draw(st.integers(0, 3)) == 0}
    if p["enum"]["add_sentinel"]:
        p["enum"]["prefix_with_name"] = True     # otherwise two C enums both define Sentinel
    p["sort_by"] = draw(st.sampled_from(["Name", "None"]))
    p["dflt_includes"] = draw(st.integers(0, 9)) == 0
    return p


@st.composite
def cycles(draw):
    """structs/unions/tagged enums with arbitrary pointer edges, C with tags only"""
    n = draw(st.integers(2, 6))
    names = ["Ty" + rs.cap(rs.word(i)) for i in range(n)]
    items = []
    for i, nm in enumerate(names):
        k = draw(st.sampled_from(["struct", "union", "tagged"]))
        m = draw(st.integers(1, 3))
        def ty():
            t = ["path", draw(st.sampled_from(names)), []]
            t = ["ptr", draw(st.sampled_from(["const", "mut"])), t]
            if draw(st.booleans()):
                t = ["ptr", "const", t]
            if draw(st.integers(0, 3)) == 0:
                t = ["arr", t, 3]
            return t
        if k == "tagged":
            it = {"k": "enum", "name": nm, "tagged": True, "repr": draw(st.sampled_from([["C"], ["u8"], ["C", "u8"]])),
                  "variants": [{"name": rs.cap(rs.word(i)) + rs.cap(rs.word(j)), "snake": rs.word(i) + "_" + rs.word(j),
                                "tuple": [ty() for _ in range(draw(st.integers(1, 2)))]} for j in range(m)]}
        else:
            it = {"k": k, "name": nm, "repr": ["C"], "tuple": False, "fields": [["f_" + rs.word(j), ty()] for j in range(m)]}
        it["copy"] = True
        items.append(it)
    items.append({"k": "fn", "name": "use_some", "args": [["a", ["ptr", "mut", ["path", draw(st.sampled_from(names)), []]]]], "ret": None})
    items.append({"k": "fn", "name": "use_all", "args": [["a%d" % i, ["path", x, []]] for i, x in enumerate(draw(st.permutations(names)))], "ret": None})
    items = draw(st.permutations(items))
    return {"items": items, "feats": sorted(gen.CXX_UNSAFE), "style": draw(st.sampled_from(["tag", "both"])), "cfg": draw(cfgs.formatting()),
            "cpp_compat": draw(st.booleans()), "ns": None, "enum": {}, "sort_by": "None", "dflt_includes": False, "cyclic": True}


def render(items):
    """render with items distributed over nested inline modules"""
    tree = {}
    for it in items:
        tree.setdefault(it.get("mod", 0), []).append(it)
    def body(i):
        return "".join(rs.rust_item(x) for x in tree.get(i, []))
    s = rs.RUST_HEAD
    root = body(0)
    half = len(tree.get(0, [])) // 2
    r0 = "".join(rs.rust_item(x) for x in tree.get(0, [])[:half])
    r1 = "".join(rs.rust_item(x) for x in tree.get(0, [])[half:])
    s += "pub use m_a::*; pub use m_a::m_b::*; pub use m_c::*;\n" + r0
    s += "pub mod m_a {\nuse super::*;\n" + body(1) + "pub mod m_b {\nuse super::*;\n" + body(2) + "}\n}\n" + r1
    s += "pub mod m_c {\nuse super::*;\n" + body(3) + "}\n"
    return s


WALL = ["-Wall", "-Werror", "-Wno-attributes", "-Wno-unused-variable", "-Wno-unused-const-variable", "-Wno-packed-not-aligned", "-Wno-pragmas"]


def compile_header(d, lang_cxx, header, twice, std):
    inc = '#include "%s"\n' % header
    text = inc + (inc if twice else "") + "int vp_main_%s;\n" % ("x" if lang_cxx else "c")
    ext = ".cpp" if lang_cxx else ".c"
    name = "t_%s%s" % (header.replace(".", "_"), ext)
    vp.write(d + "/" + name, text)
    return vp.run([("g++" if lang_cxx else "gcc"), "-std=" + std, "-fsyntax-only"] + WALL + [name], cwd=d)


def edges(items):
    names = {i["name"] for i in items if i["k"] in ("struct", "union", "enum", "type", "opaque")}
    n = 0
    for it in items:
        if it["name"] in names:
            n += len({x[1] for t in gen.item_types(it) for x in rs.walk(t) if x[0] == "path" and x[1] in names and x[1] != it["name"]})
    return len(names), n


def check(case, ctx):
    items = case["items"]
    d = ctx.fresh()
    src = render(items)
    langs = ["c"]
    if not any(f in case["feats"] for f in gen.CXX_UNSAFE):
        langs.append("cxx")
    for lang in langs:
        cxx = lang == "cxx"
        cfg = cc.merge({"language": "C++" if cxx else "C", "layout": cc.LAYOUT, "sort_by": case["sort_by"]}, case["cfg"])
        cfg["after_includes"] = cfg.get("after_includes", "") + "\n" + cc.ALIGN_DEF
        if case["enum"]:
            cfg["enum"] = case["enum"]
        if not (case["dflt_includes"] or not cxx):
            cfg.update(cc.CXX_INC)
        if cxx:
            if isinstance(case["ns"], str):
                cfg["namespace"] = case["ns"]
            elif case["ns"]:
                cfg["namespaces"] = case["ns"]
        else:
            cfg["style"] = style_of(case)
            cfg["cpp_compat"] = case["cpp_compat"]
            if cfg["usize_is_size_t"] if "usize_is_size_t" in cfg else False:
                cfg["sys_includes"] = ["stddef.h"]
        twice = bool(cfg.get("include_guard") or cfg.get("pragma_once"))
        h = cc.bindgen(ctx, d, src, cfg, out=lang + ".h")
        runs = [(cxx, "c++17" if cxx else "gnu11")]
        if not cxx and case["cpp_compat"]:
            runs.append((True, "c++11"))
        for iscxx, std in runs:
            p = compile_header(d, iscxx, lang + ".h", twice, std)
            if p.returncode != 0:
                cc.fail("the %s header does not compile as %s%s" % (lang, std, " (included twice)" if twice else ""), src, cfg, h, p.stderr[:3000])
            ctx.evaluated()
        ctx.label("lang:" + lang, "twice" if twice else "once")
    nt, ne = edges(items)
    ctx.label("types:%d" % nt)
    ctx.nontrivial(nt >= 3 and ne >= 2)


def strategies(tier):
    return [("main", cases(), check, 5), ("cycles", cycles(), check, 1)]
