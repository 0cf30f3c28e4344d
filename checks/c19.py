"""C19: annotations, configuration keys, command-line flags and the Builder API are equivalent ways of giving a setting."""
import json, os, re
from hypothesis import strategies as st
import cc, vp, cfgs

PROP = "C19"
HELPER = True
N = {"quick": 6000, "thorough": 60000}
RULE = ("parts: annot = up to 4 items (structs, unions, fieldless/tagged enums, functions), each with its own effective option values, given partly by a random global configuration and partly by annotations; the text of every item must equal the text produced "
        "when its values are all given globally. cli = random configuration plus flags vs. the configuration with the flags' keys set (flags win), -c vs. cbindgen.toml found beside the source, file vs. stdout. builder = random Builder calls (any order, "
        "on top of a random configuration) vs. the command line with the merged configuration. default = random subsets of the documented defaults spelled out vs. an empty configuration, and alternative spellings of values. reject = valid "
        "configuration with one unknown key, unknown value or ill-typed value: must be refused without output, by the command line and by Config::from_file. non-trivial = at least one non-default setting takes effect (the output differs from the one without it)")
ASSUMPTIONS = ["derive-neq/lt/lte/gt/gte annotations of enums concern the enum, not its variant bodies (bodies follow the global struct options)"]
B = st.booleans()
S = st.sampled_from
RULES = ["None", "GeckoCase", "LowerCase", "UpperCase", "PascalCase", "CamelCase", "SnakeCase", "ScreamingSnakeCase", "QualifiedScreamingSnakeCase", "prefix:m_"]

SRC = {
    "st2": "#[repr(C)]\npub struct ItemTwo { pub a_field: u32, pub other: *const u8 }\nimpl ItemTwo { pub const ASSOC: u32 = 5; }\n",
    "st1": "#[repr(C)]\npub struct ItemOne { pub only_one: i32 }\n",
    "tup": "#[repr(C)]\npub struct ItemTup(pub f32, pub bool);\n",
    "gen": "#[repr(C)]\npub struct ItemGen<T> { pub a_gen: T }\n",
    "un": "#[repr(C)]\npub union ItemUnion { pub first_u: u32, pub second_u: f32 }\n",
    "en": "#[repr(u8)]\npub enum ItemEnum { FirstV, SecondV = 5 }\n",
    "enc": "#[repr(C)]\npub enum ItemEnumC { FirstC, SecondC }\n",
    "tag": "#[repr(C)]\npub enum ItemTag { FirstT(i32), SecondT { a_payload: u8, b_payload: f64 }, ThirdT }\n",
    "tag8": "#[repr(u8)]\npub enum ItemTagEight { FirstE(i32), SecondE { a_payload: u8 }, ThirdE(u8, u16) }\n",
    "fn": "#[no_mangle]\npub extern \"C\" fn item_fn(first_arg: u32, second_arg: *const u8) -> u32 { 0 }\n",
    "fn2": "#[no_mangle]\npub extern \"C\" fn item_fn_two(cb_arg: extern \"C\" fn(in_arg: u8)) {}\n",
}
USE = {"st2": "*const ItemTwo", "st1": "*const ItemOne", "tup": "*const ItemTup", "gen": "*const ItemGen<u8>", "un": "*const ItemUnion", "en": "ItemEnum", "enc": "ItemEnumC", "tag": "*const ItemTag", "tag8": "*const ItemTagEight"}
BOOL_S = ["derive_eq", "derive_neq", "derive_lt", "derive_lte", "derive_gt", "derive_gte", "derive_constructor", "derive_ostream"]
BOOL_E = ["add_sentinel", "prefix_with_name", "enum_class", "derive_helper_methods", "derive_const_casts", "derive_mut_casts", "derive_ostream", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor",
          "derive_tagged_enum_copy_assignment", "private_default_tagged_enum_constructor"]
SECT = {"st2": "struct", "st1": "struct", "tup": "struct", "gen": "struct", "un": "union", "en": "enum", "enc": "enum", "tag": "enum", "tag8": "enum", "fn": "fn", "fn2": "fn"}
# option -> annotation name
KEYS = {
    "struct": dict({k: k.replace("_", "-") for k in BOOL_S}, rename_fields="rename-all", rename_associated_constant="rename-associated-constant"),
    "union": {"rename_fields": "rename-all"},
    "enum": dict({k: k.replace("_", "-") for k in BOOL_E}, rename_variants="rename-all", rename_variant_name_fields="rename-variant-name-fields"),
    "fn": {"rename_args": "rename-all", "prefix": "prefix", "postfix": "postfix"},
}


@st.composite
def opts(draw, sect):
    o = {}
    for k in KEYS[sect]:
        if k.startswith("rename"):
            o[k] = draw(S(RULES if draw(B) else ["None"]))
        elif k in ("prefix", "postfix"):
            o[k] = draw(S([None, "VP_PRE", "VP_OTHER"]))
        else:
            o[k] = draw(B)
    return o


@st.composite
def annot_case(draw):
    names = draw(st.lists(S(sorted(SRC)), min_size=1, max_size=4, unique=True))
    g = {"struct": draw(opts("struct")), "enum": draw(opts("enum")), "fn": draw(opts("fn"))}
    items = []
    for n in names:
        sect = SECT[n]
        gsect = g["struct" if sect == "union" else sect]
        o = {}
        for k in KEYS[sect]:
            o[k] = gsect[k]
        ann = {}
        for k in sorted(KEYS[sect]):
            w = draw(st.integers(0, 3))
            if w == 0:
                o[k] = ann[k] = draw(opts(sect))[k]
            elif w == 1:
                ann[k] = o[k]
        if sect == "enum" and n.startswith("tag") and draw(B):
            o["eq"] = ann["eq"] = draw(B)
        for k in ("prefix", "postfix"):
            if k in ann and ann[k] is None:
                ann.pop(k)
                o[k] = gsect[k]
        items.append({"n": n, "opts": o, "ann": ann, "perm": draw(st.integers(0, 5)), "sp": draw(st.integers(0, 3))})
    return {"part": "annot", "items": items, "g": g, "lang": draw(S(["C++", "C++", "C++", "C", "Cython"]))}


def annot_lines(it):
    out = []
    for k, v in sorted(it["ann"].items()):
        a = "derive-eq" if k == "eq" else KEYS[SECT[it["n"]]][k]
        if v is True and it["sp"] & 1:
            t = a
        elif isinstance(v, bool):
            t = "%s=%s" % (a, str(v).lower())
        else:
            t = "%s=%s" % (a, v)
        if it["sp"] & 2 and "=" in t:
            t = t.replace("=", " = ")
        out.append("/// cbindgen:%s\n" % t)
    k = it["perm"] % (len(out) or 1)
    return "".join(out[k:] + out[:k])


def annot_source(case, ann):
    s = ""
    for i, it in enumerate(case["items"]):
        s += "/// VPITEM%d\n" % i + (annot_lines(it) if ann else "") + SRC[it["n"]]
    s += "/// VPEND\n#[no_mangle] pub extern \"C\" fn use_items(%s) {}\n" % ", ".join("u%d: %s" % (i, USE[it["n"]]) for i, it in enumerate(case["items"]) if it["n"] in USE)
    return s


def conf(case, g):
    c = {"language": case["lang"], "no_includes": True, "documentation_style": "c99"}
    for sect in ("struct", "enum", "fn"):
        c[sect] = {k: v for k, v in g[sect].items() if v is not None}
    return c


def blocks(h):
    parts_ = re.split(r"^[ \t]*(?://|#) ?(VPITEM\d+|VPEND)\n", h, flags=re.M)
    r = {}
    for i in range(1, len(parts_) - 1, 2):
        if parts_[i] in r:
            r[parts_[i]] += "\n----\n" + parts_[i + 1]
        else:
            r[parts_[i]] = parts_[i + 1]
    return r


def clean(t):
    t = re.sub(r'extern "C" \{|^\}\s*// extern "C".*', "", t, flags=re.M)
    return "\n".join(l.rstrip() for l in t.split("\n") if l.strip())


def check_annot(case, ctx):
    d = ctx.fresh()
    src = annot_source(case, True)
    cfg = conf(case, case["g"])
    h = cc.bindgen(ctx, d, src, cfg, out="a.h")
    plain = annot_source(case, False)
    hp = cc.bindgen(ctx, d, plain, cfg, out="p.h", srcname="plain.rs")
    ba, bp = blocks(h), blocks(hp)
    differs = False
    for i, it in enumerate(case["items"]):
        g2 = {k: dict(v) for k, v in case["g"].items()}
        sect = "struct" if SECT[it["n"]] == "union" else SECT[it["n"]]
        for k, v in it["opts"].items():
            if k == "eq":
                g2["struct"]["derive_eq"] = v
            else:
                g2[sect][k] = v
        c2 = conf(case, g2)
        h2 = cc.bindgen(ctx, d, None, c2, out="g%d.h" % i, srcname="plain.rs")
        b2 = blocks(h2)
        key = "VPITEM%d" % i
        if key not in ba or key not in b2:
            cc.fail("item %s is missing" % it["n"], src, cfg, h + "\n======== all settings global:\n" + h2)
        if clean(ba[key]) != clean(b2[key]):
            cc.fail("item %s: annotations do not have the effect of the corresponding global options %s" % (it["n"], json.dumps(it["ann"])), src, cfg, clean(ba[key]) + "\n======== with the settings given globally:\n" + clean(b2[key]))
        differs = differs or clean(ba[key]) != clean(bp.get(key, ""))
        ctx.label("item:" + it["n"])
    if ba.get("VPEND") != bp.get("VPEND"):
        cc.fail("annotations of some items change another function", src, cfg, h)
    ctx.evaluated(len(case["items"]))
    ctx.nontrivial(differs)


# ------------------------------------------------------------------ command line
POOL = "".join("/// Documentation of %s\n" % k + v for k, v in SRC.items()) + "".join('#[no_mangle] pub extern "C" fn use_%s(a: %s) {}\n' % (k, v) for k, v in USE.items()) + """
pub const VP_CONST: u32 = 7;
pub const VP_STR: &str = "text";
#[no_mangle] pub static VP_STATIC: u8 = 3;
#[cfg(unix)] #[no_mangle] pub extern "C" fn only_unix(p: &u8, q: *mut u8, n: usize) {}
#[cfg(feature = "x")] #[repr(C)] pub struct ItemCfg { a: u8 }
pub struct ItemOpaque { v: Vec<u8> }
#[must_use] #[deprecated] #[no_mangle] pub extern "C" fn opaque_fn(p: *mut ItemOpaque) -> bool { false }
"""
NAMES = ["ItemTwo", "ItemOne", "ItemUnion", "ItemEnum", "ItemTag", "item_fn", "VP_CONST", "ItemOpaque", "ItemGen"]
LANGS = {"c": "C", "C": "C", "c++": "C++", "C++": "C++", "cython": "Cython", "Cython": "Cython"}


@st.composite
def cli_case(draw):
    c = draw(cfgs.anyconfig(NAMES, p=5))
    c.pop("parse", None)
    f = {}
    if draw(B):
        f["lang"] = draw(S(sorted(LANGS)))
    if draw(B):
        f["style"] = draw(S(["Both", "both", "Tag", "tag", "Type", "type"]))
    if draw(B):
        f["cpp-compat"] = True
    if draw(st.integers(0, 3)) == 0:
        f["package-version"] = True
    return {"part": "cli", "cfg": c, "flags": f, "beside": draw(B), "short": draw(B), "stdout": draw(B), "d": draw(st.integers(0, 5)) == 0}


def check_cli(case, ctx):
    d = ctx.fresh()
    cfg = json.loads(json.dumps(case["cfg"]))
    merged = json.loads(json.dumps(cfg))
    args = []
    for k, v in case["flags"].items():
        if k == "lang":
            merged["language"] = LANGS[v]
            args += ["-l" if case["short"] else "--lang", v]
        elif k == "style":
            merged["style"] = v.lower()
            args += ["-s" if case["short"] else "--style", v]
        elif k == "cpp-compat":
            merged["cpp_compat"] = True
            args.append("--cpp-compat")
        else:
            merged["package_version"] = True
            args.append("--package-version")
    if case["d"]:
        args.append("--parse-dependencies")     # a single file has none
    want = cc.bindgen(ctx, d, POOL, merged, out="want.h")
    os.makedirs(os.path.join(d, "w"))
    vp.write(os.path.join(d, "w", "lib.rs"), POOL)
    if case["beside"]:
        vp.write(os.path.join(d, "w", "cbindgen.toml"), cc.toml(cfg))
    else:
        vp.write(os.path.join(d, "w", "other.toml"), cc.toml(cfg))
        vp.write(os.path.join(d, "w", "cbindgen.toml"), "header = \"// not this configuration\"\n")
        args += ["-c" if case["short"] else "--config", "w/other.toml"]
    if case["stdout"]:
        p = ctx.bindgen(d, ["-q"] + args + ["w/lib.rs"], binary=True) if False else ctx.bindgen(d, ["-q"] + args + ["w/lib.rs"])
        got = p.stdout
        norm = lambda t: t.replace("\r\n", "\n").replace("\r", "\n")
        want, got = norm(want), norm(got)
    else:
        p = ctx.bindgen(d, ["-q"] + args + ["-o" if case["short"] else "--output", "got.h", "w/lib.rs"])
        got = vp.read(os.path.join(d, "got.h")) if os.path.exists(os.path.join(d, "got.h")) else None
    if p.returncode != 0 or got is None:
        cc.fail("cbindgen %s failed (exit %d): %s" % (" ".join(args), p.returncode, p.stderr[-500:]), POOL, cfg)
    if got != want:
        cc.fail("flags %s over the configuration differ from the configuration that contains them" % " ".join(args), None, cfg, first_diff(got, want))
    ctx.label("cli", *["flag:" + k for k in case["flags"]])
    ctx.evaluated(1)
    ctx.nontrivial(bool(case["flags"]) or bool(cfg))


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "first difference in line %d:\n  got  %r\n  want %r" % (i + 1, x, y)
    return "one output is longer: %d and %d lines" % (len(la), len(lb))


# ------------------------------------------------------------------ Builder API
TXT = S(["/* t */", "// u", "#define W 1"])
CALLS = {
    "with_header": (TXT, lambda c, v: c.__setitem__("header", v)),
    "with_trailer": (TXT, lambda c, v: c.__setitem__("trailer", v)),
    "with_after_include": (TXT, lambda c, v: c.__setitem__("after_includes", v)),
    "with_no_includes": (st.just(None), lambda c, v: c.__setitem__("no_includes", True)),
    "with_include": (S(["a.h", "b/c.h"]), lambda c, v: c.__setitem__("includes", c.get("includes", []) + [v])),
    "with_sys_include": (S(["d.h", "e.h"]), lambda c, v: c.__setitem__("sys_includes", c.get("sys_includes", []) + [v])),
    "with_include_guard": (S(["G_H", "g2"]), lambda c, v: c.__setitem__("include_guard", v)),
    "with_pragma_once": (B, lambda c, v: c.__setitem__("pragma_once", v)),
    "with_autogen_warning": (TXT, lambda c, v: c.__setitem__("autogen_warning", v)),
    "with_include_version": (B, lambda c, v: c.__setitem__("include_version", v)),
    "with_namespace": (S(["nsa", "nsb"]), lambda c, v: c.__setitem__("namespace", v)),
    "with_namespaces": (st.lists(S(["p", "q"]), max_size=2), lambda c, v: c.__setitem__("namespaces", v)),
    "with_using_namespaces": (st.lists(S(["u", "w"]), max_size=2), lambda c, v: c.__setitem__("using_namespaces", v)),
    "with_braces": (S(["SameLine", "NextLine"]), lambda c, v: c.__setitem__("braces", v)),
    "with_line_length": (st.integers(0, 150), lambda c, v: c.__setitem__("line_length", v)),
    "with_tab_width": (st.integers(0, 8), lambda c, v: c.__setitem__("tab_width", v)),
    "with_language": (S(["C", "C++", "Cython"]), lambda c, v: c.__setitem__("language", v)),
    "with_cpp_compat": (B, lambda c, v: c.__setitem__("cpp_compat", v)),
    "with_style": (S(["both", "tag", "type"]), lambda c, v: c.__setitem__("style", v)),
    "include_item": (S(NAMES), lambda c, v: ex(c).__setitem__("include", ex(c).get("include", []) + [v])),
    "exclude_item": (S(NAMES), lambda c, v: ex(c).__setitem__("exclude", ex(c).get("exclude", []) + [v])),
    "rename_item": (st.tuples(S(NAMES), S(["R1", "R2"])).map(list), lambda c, v: ex(c).setdefault("rename", {}).__setitem__(v[0], v[1])),
    "with_item_prefix": (S(["PF_", "pf"]), lambda c, v: ex(c).__setitem__("prefix", v)),
    "with_documentation": (B, lambda c, v: c.__setitem__("documentation", v)),
    "with_line_endings": (S(["LF", "CR", "CRLF", "Native"]), lambda c, v: c.__setitem__("line_endings", v)),
    "with_define": (S([["feature", "x", "VP_X"], ["target_os", "linux", "VP_L"]]), lambda c, v: c.setdefault("defines", {}).__setitem__("%s = %s" % (v[0], v[1]), v[2])),
    "with_target_os_define": (S([["linux", "VP_L2"]]), lambda c, v: c.setdefault("defines", {}).__setitem__("target_os = " + v[0], v[1])),
    "with_parse_deps": (B, lambda c, v: c.setdefault("parse", {}).__setitem__("parse_deps", v)),
    "with_parse_include": (st.lists(S(["aa"]), max_size=1), lambda c, v: c.setdefault("parse", {}).__setitem__("include", v)),
    "with_parse_exclude": (st.lists(S(["aa"]), max_size=1), lambda c, v: c.setdefault("parse", {}).__setitem__("exclude", v)),
}


def ex(c):
    return c.setdefault("export", {})


@st.composite
def builder_case(draw):
    calls = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(S(sorted(CALLS)))
        calls.append([k, draw(CALLS[k][0])])
    cfg = None
    if draw(B):
        cfg = draw(cfgs.anyconfig(NAMES, p=6))
        cfg.pop("parse", None)
        if cfg.get("defines"):
            cfg["defines"] = {k: v for k, v in cfg["defines"].items() if k != "target_os = linux"}
    return {"part": "builder", "calls": calls, "cfg": cfg}


def check_builder(case, ctx):
    d = ctx.fresh()
    merged = json.loads(json.dumps(case["cfg"] or {}))
    for k, v in case["calls"]:
        CALLS[k][1](merged, json.loads(json.dumps(v)))
    want = cc.bindgen(ctx, d, POOL, merged, out="want.h")
    req = {"src": ["lib.rs"], "calls": case["calls"], "out": "got.h"}
    if case["cfg"] is not None:
        vp.write(os.path.join(d, "cfg.toml"), cc.toml(case["cfg"]))
        req["config"] = "cfg.toml"
    p = ctx.helper(d, req)
    if p.returncode != 0:
        cc.fail("the Builder failed: " + p.stderr[-500:], None, merged)
    got = vp.read(os.path.join(d, "got.h"))
    if got != want:
        cc.fail("Builder calls %s%s produce another header than the equivalent configuration" % (json.dumps(case["calls"]), " over a configuration" if case["cfg"] is not None else ""), None, merged, first_diff(got, want))
    ctx.label("builder", *["call:" + k for k, _ in case["calls"]])
    ctx.evaluated(1)
    ctx.nontrivial(bool(case["calls"]))


# ------------------------------------------------------------------ defaults and spellings
DEFAULTS = {"language": "C++", "pragma_once": False, "include_version": False, "namespaces": [], "using_namespaces": [], "sys_includes": [], "includes": [], "no_includes": False, "cpp_compat": False, "braces": "SameLine", "line_length": 100,
            "tab_width": 2, "documentation": True, "documentation_style": "auto", "documentation_length": "full", "style": "both", "usize_is_size_t": False, "package_version": False, "line_endings": "LF", "sort_by": "None", "only_target_dependencies": False,
            "export.include": [], "export.exclude": [], "export.item_types": [], "export.renaming_overrides_prefixing": False, "export.rename": {}, "export.pre_body": {}, "export.body": {},
            "export.mangle.rename_types": "None", "export.mangle.remove_underscores": False,
            "fn.args": "auto", "fn.rename_args": "None", "fn.sort_by": "None", "struct.rename_fields": "None", "struct.associated_constants_in_body": False, "struct.rename_associated_constant": "None",
            "enum.rename_variants": "None", "enum.cast_assert_name": "assert", "const.allow_static_const": True, "const.allow_constexpr": True, "const.sort_by": "None", "macro_expansion.bitflags": False,
            "parse.parse_deps": False, "parse.exclude": [], "parse.clean": False, "parse.extra_bindings": [], "parse.expand.crates": [], "parse.expand.all_features": False, "parse.expand.default_features": True, "parse.expand.features": [],
            "cython.header": "*", "cython.cimports": {}, "defines": {}}
for _k in BOOL_S:
    DEFAULTS["struct." + _k] = False
for _k in BOOL_E:
    DEFAULTS["enum." + _k] = _k == "enum_class"
# groups of spellings of the same value
SPELL = [("language", [["C", "c"], ["C++", "c++", "cxx", "Cxx", "CXX", "cpp", "Cpp", "CPP"], ["Cython", "cython"]]),
         ("braces", [["SameLine", "same_line"], ["NextLine", "next_line"]]), ("style", [["Both", "both"], ["Tag", "tag"], ["Type", "type"]]), ("documentation_style", [["c++", "cxx"], ["doxy", "Doxy"], ["c", "C"], ["c99", "C99"]]),
         ("fn.args", [["Horizontal", "horizontal"], ["Vertical", "vertical"], ["Auto", "auto"]]), ("line_endings", [["lf", "LF"], ["crlf", "CRLF"], ["cr", "CR"]])]
RSPELL = [["none", "None"], ["mGeckoCase", "GeckoCase", "gecko_case"], ["lowercase", "LowerCase", "lower_case"], ["UPPERCASE", "UpperCase", "upper_case"], ["PascalCase", "pascal_case"], ["camelCase", "CamelCase", "camel_case"], ["snake_case", "SnakeCase"],
          ["SCREAMING_SNAKE_CASE", "ScreamingSnakeCase", "screaming_snake_case"], ["QUALIFIED_SCREAMING_SNAKE_CASE", "QualifiedScreamingSnakeCase", "qualified_screaming_snake_case"]]
SPELL += [(k, RSPELL) for k in ("fn.rename_args", "struct.rename_fields", "enum.rename_variants", "enum.rename_variant_name_fields", "struct.rename_associated_constant", "export.mangle.rename_types")]


def put(c, key, v):
    ks = key.split(".")
    for k in ks[:-1]:
        c = c.setdefault(k, {})
    c[ks[-1]] = v


@st.composite
def default_case(draw):
    if draw(B):
        return {"part": "default", "kind": "default", "keys": draw(st.lists(S(sorted(DEFAULTS)), min_size=1, max_size=8, unique=True)), "lang": draw(S([None, "C", "C++", "Cython"]))}
    key, groups = draw(S(SPELL))
    g = draw(S(groups))
    return {"part": "default", "kind": "spell", "key": key, "a": draw(S(g)), "b": draw(S(g)), "lang": draw(S(["C", "C++", "Cython"]))}


def check_default(case, ctx):
    d = ctx.fresh()
    a, b = {}, {}
    if case["kind"] == "default":
        for k in case["keys"]:
            put(b, k, DEFAULTS[k])
        if case["lang"]:
            a["language"] = b["language"] = case["lang"]
    else:
        put(a, case["key"], case["a"])
        put(b, case["key"], case["b"])
        if case["key"] != "language":
            a["language"] = b["language"] = case["lang"]
    ha = cc.bindgen(ctx, d, POOL, a, out="a.h")
    hb = cc.bindgen(ctx, d, None, b, out="b.h")
    lines = lambda t: [l for l in re.split(r"\r\n|\r|\n", t) if l.strip()]
    if case["kind"] == "default" and lines(ha) == lines(hb):
        pass        # blank lines may differ (an empty list of `using` declarations leaves one)
    elif ha != hb:
        cc.fail("spelling out a documented default (or another spelling of a value) changes the output\n--- first configuration\n%s--- second" % cc.toml(a), None, b, first_diff(ha, hb))
    ctx.label("default:" + case["kind"])
    ctx.evaluated(1)
    ctx.nontrivial(True)


# ------------------------------------------------------------------ rejection
@st.composite
def reject_case(draw):
    c = draw(cfgs.anyconfig(NAMES, p=8))
    c.pop("parse", None)
    k = draw(S(["key", "key", "value", "value", "type", "type", "syntax"]))
    if k == "key":
        sec = draw(S([None, "export", "export.mangle", "layout", "fn", "struct", "enum", "const", "macro_expansion", "parse", "parse.expand", "ptr", "cython"]))
        name = draw(S(["bogus", "Header", "derive-eq", "rename_fieldss", "language2", "derive_eqq", "prefixx", "struct_", "headers", "packed_n"]))
        key = (sec + "." if sec else "") + name
        v = draw(S([True, "x", 1]))
    elif k == "value":
        key = draw(S(["language", "braces", "style", "documentation_style", "documentation_length", "line_endings", "fn.args", "fn.rename_args", "struct.rename_fields", "enum.rename_variants", "const.sort_by", "fn.sort_by", "sort_by", "export.item_types",
                      "struct.rename_associated_constant", "enum.rename_variant_name_fields"]))
        v = draw(S(["", "bogus", "C#", "Same Line", "names", "snakeCase2", "Functions!"]))
        if key == "export.item_types":
            v = ["functions", v]
    elif k == "type":
        key, v = draw(S([("language", 3), ("pragma_once", "yes"), ("line_length", "wide"), ("line_length", -1), ("tab_width", True), ("includes", "x.h"), ("namespaces", "a"), ("header", 7), ("documentation", "false"), ("no_includes", 1), ("struct.derive_eq", "true"),
                         ("enum.enum_class", 0), ("fn.prefix", True), ("export.include", "Foo"), ("export.rename", ["a"]), ("const.allow_constexpr", "no"), ("parse.parse_deps", "x"), ("cython.cimports", [1]), ("defines", "x"), ("ptr.non_null_attribute", 3), ("enum", 3),
                         ("struct", "x"), ("usize_is_size_t", 2), ("layout.packed", False)]))
    else:
        key, v = "", draw(S(["language = ", "= 3", "[fn", "a b c", "header = \"x", "[fn]\n[fn]\nprefix=1\nprefix=2"]))
    return {"part": "reject", "cfg": c, "kind": k, "key": key, "v": v, "beside": draw(B)}


def check_reject(case, ctx):
    d = ctx.fresh()
    c = json.loads(json.dumps(case["cfg"]))
    if case["kind"] == "syntax":
        t = cc.toml({k: v for k, v in c.items() if not isinstance(v, dict)}) + case["v"] + "\n"
    else:
        if case["kind"] == "type" and "." not in case["key"] and isinstance(c.get(case["key"]), dict):
            c.pop(case["key"])
        put(c, case["key"], case["v"])
        t = cc.toml(c)
    vp.write(os.path.join(d, "lib.rs"), POOL)
    name = "cbindgen.toml" if case["beside"] else "bad.toml"
    vp.write(os.path.join(d, name), t)
    vp.write(os.path.join(d, "got.h"), "previous contents")
    p = ctx.bindgen(d, ["-q", "-o", "got.h"] + ([] if case["beside"] else ["-c", name]) + ["lib.rs"])
    if p.returncode == 0:
        cc.fail("a configuration with the invalid setting %s = %r is accepted" % (case["key"], case["v"]), None, None, t)
    if p.returncode not in (1, 2):
        cc.fail("cbindgen crashes on an invalid configuration (exit %d): %s" % (p.returncode, p.stderr[-400:]), None, None, t)
    if vp.read(os.path.join(d, "got.h")) != "previous contents":
        cc.fail("output is written although the configuration is invalid", None, None, t)
    if not case["beside"]:
        q = ctx.helper(d, {"config": name, "src": ["lib.rs"], "out": "got2.h"})
        if q.returncode != 4:
            cc.fail("Config::from_file accepts (or crashes on) an invalid configuration (exit %d)" % q.returncode, None, None, t)
    ctx.label("reject:" + case["kind"])
    ctx.evaluated(1)
    ctx.nontrivial(True)


def strategies(tier):
    return [("annot", annot_case(), check_annot, 40), ("cli", cli_case(), check_cli, 15), ("builder", builder_case(), check_builder, 15), ("default", default_case(), check_default, 15), ("reject", reject_case(), check_reject, 15)]
