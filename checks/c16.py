"""C16: generated C++ helpers are compiled, executed and compared with what they should compute."""
import os, re
from hypothesis import strategies as st
import cc, vp, rs

PROP = "C16"
N = {"quick": 900, "thorough": 20000}
RULE = ("case = up to 3 structs, 1 fieldless enum and up to 3 tagged enums (every repr, unit/tuple/named variants; some generic, some with a payload that counts its live instances) with field types from integers, floats, bool, pointers, "
        "function pointers, arrays, nested structs/enums, x every derive option given by configuration and/or overridden by annotation, fn.rename_args, enum_class. A generated C++ program checks presence (exactly the requested helpers exist) and "
        "behaviour of operators on generated value pairs, constructors, Is/As (assertion fires exactly on the wrong variant), copies, assignment, destructors (live count) and stream output. non-trivial = at least one tagged enum with helpers or two kinds of operators executed")
ASSUMPTIONS = ["combinations that documented dependencies rule out are not requested (copy assignment needs the copy constructor, helper methods of enums with derived copy constructors need the private default constructor)",
               "operators over fields whose own type lacks the operator (KF-C16-1) are not generated"]
B = st.booleans()
PRIMS = {"u8": "uint8_t", "i32": "int32_t", "u64": "uint64_t", "i16": "int16_t", "f32": "float", "f64": "double", "bool": "bool"}
OPS = [("eq", "=="), ("neq", "!="), ("lt", "<"), ("lte", "<="), ("gt", ">"), ("gte", ">=")]
SN = ["Sa", "Sbig", "ScLong"]
EN = ["TagOne", "Tt", "TagThree"]
VN = ["Alpha", "BetaTwo", "Gamma", "Delta", "LongerName"]
FN = ["x", "value_two", "z3"]
PCH = "#include <sstream>\n#include <ostream>\n#include <iostream>\n#include <new>\n#include <type_traits>\n#include <cstdint>\n#include <cstdlib>\n#include <cstdarg>\n#include <string>\n"
TRACK = "VpTracked"


# ------------------------------------------------------------------ generation
@st.composite
def a_type(draw, env, allow):
    ks = ["prim"] * 5 + ["ptr", "fn"]
    if "arr" in allow:
        ks += ["arr"]
    if env["structs"] and "st" in allow:
        ks += ["st", "st"]
    if env["fe"] and "fe" in allow:
        ks += ["fe"]
    if "T" in allow:
        ks += ["T", "T", "T"]
    if "tracked" in allow:
        ks += ["tracked"] * 3
    k = draw(st.sampled_from(ks))
    if k == "prim":
        return ["prim", draw(st.sampled_from(sorted(PRIMS)))]
    if k == "ptr":
        return ["ptr", draw(B)]
    if k == "arr":
        return ["arr", draw(st.sampled_from(["u8", "i32", "f64"])), draw(st.integers(1, 4))]
    if k == "st":
        return ["st", draw(st.sampled_from(env["structs"]))]
    if k == "fe":
        return ["fe", env["fe"]]
    return [k]


@st.composite
def strategy_(draw):
    case = {"cs": {}, "ce": {}, "structs": [], "enums": [], "fe": None}
    has_enums = draw(st.integers(0, 4)) > 0
    for k in ("eq", "neq", "lt", "lte", "gt", "gte", "ostream"):
        case["cs"][k] = draw(B)
    case["cs"]["constructor"] = not has_enums and draw(B)
    for k in ("helper_methods", "const_casts", "mut_casts", "ostream"):
        case["ce"][k] = draw(st.integers(0, 2)) > 0
    for k in ("destructor", "copy_constructor", "copy_assignment", "private"):
        case["ce"][k] = draw(st.integers(0, 3)) == 0
    case["enum_class"] = draw(st.integers(0, 3)) > 0
    case["rename_args"] = draw(st.sampled_from([None, None, "GeckoCase", "PascalCase", "ScreamingSnakeCase", "prefix:p_"]))
    case["rename_fields"] = draw(st.sampled_from([None, None, "PascalCase", "prefix:m_"]))
    env = {"structs": [], "fe": None}
    if draw(B):
        case["fe"] = {"name": "Fe", "n": draw(st.integers(1, 4)), "ostream": draw(B), "ann": draw(B), "repr": draw(st.sampled_from(["C", "u8", "i32"]))}
        env["fe"] = "Fe"
    for i in range(draw(st.integers(0 if has_enums else 1, 3))):
        gen = draw(st.integers(0, 5)) == 0
        eff = {k: draw(B) for k in ("eq", "neq", "lt", "lte", "gt", "gte", "ostream")}
        eff["constructor"] = draw(st.integers(0, 2)) == 0
        allow = ["arr", "st", "fe"] + (["T"] if gen else [])
        fs = [draw(a_type(env, allow)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
        if gen and ["T"] not in fs:
            fs[0] = ["T"]
        case["structs"].append({"name": SN[i], "fields": fs, "eff": eff, "ann": draw(st.integers(0, 255)), "gen": gen})
        if not gen:
            env["structs"].append(SN[i])
    for i in range(draw(st.integers(1, 3)) if has_enums else 0):
        gen = draw(st.integers(0, 5)) == 0
        tracked = not gen and draw(st.integers(0, 3)) == 0
        eff = {k: draw(st.integers(0, 2)) > 0 for k in ("helper_methods", "const_casts", "mut_casts", "ostream", "eq", "neq")}
        eff.update({k: draw(st.integers(0, 2)) == 0 for k in ("destructor", "copy_constructor", "copy_assignment", "private")})
        if tracked:
            eff.update(helper_methods=True, destructor=True, copy_constructor=True, copy_assignment=True, private=True)
        allow = ["arr", "st", "fe"] + (["T"] if gen else []) + (["tracked"] if tracked else [])
        vs = []
        for j in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(["unit", "tuple", "tuple", "named"]))
            n = 0 if kind == "unit" else draw(st.sampled_from([1, 1, 2, 3]))
            vs.append({"name": VN[j], "kind": kind, "fields": [draw(a_type(env, allow)) for _ in range(n)]})
        if all(v["kind"] == "unit" for v in vs):
            vs[-1] = {"name": vs[-1]["name"], "kind": "tuple", "fields": [["prim", "i32"]]}
        if gen and not any(["T"] in v["fields"] for v in vs):
            [v for v in vs if v["fields"]][0]["fields"][0] = ["T"]
        case["enums"].append({"name": EN[i], "repr": draw(st.sampled_from(["C", "C", "u8", "C, u8", "i32", "C, i16"])), "variants": vs, "eff": eff, "ann": draw(st.integers(0, 4095)), "gen": gen, "tracked": tracked})
    case["k"] = [draw(st.integers(0, 3)) for _ in range(6)]
    return normalise(case)


def strategy(tier):
    return strategy_()


def normalise(case):
    """make the requested combination one that documented dependencies allow"""
    byname = {}
    payload = {f[1] for e in case["enums"] for v in e["variants"] for f in v["fields"] if f[0] == "st"}
    for s in case["structs"]:
        e = s["eff"]
        if e["constructor"] and (any(f[0] == "arr" for f in s["fields"]) or s["name"] in payload):
            e["constructor"] = False
        if any(f[0] == "st" and byname[f[1]]["eff"]["constructor"] for f in s["fields"]) and s["name"] in payload:
            for i, f in enumerate(s["fields"]):
                if f[0] == "st" and byname[f[1]]["eff"]["constructor"]:
                    s["fields"][i] = ["prim", "u64"]
        for i, f in enumerate(s["fields"]):
            if f[0] != "st":
                continue
            t = byname[f[1]]
            bad = (e["eq"] and not has(t, "eq")) or (e["neq"] and not has(t, "neq")) or (e["ostream"] and not can_stream(t, byname, case))
            if len(s["fields"]) == 1:
                bad = bad or any(e[o] and not has(t, o) for o in ("lt", "lte", "gt", "gte"))
            if bad:
                s["fields"][i] = ["prim", "u8"]
        if e["ostream"]:
            for i, f in enumerate(s["fields"]):
                if f[0] == "arr" or f[0] == "fe" and not fe_stream(case):
                    s["fields"][i] = ["prim", "i32"]
        byname[s["name"]] = s
    fix = True
    while fix:          # a constructor struct inside a payload struct makes the payload non-trivial
        fix = False
        for s in case["structs"]:
            if s["name"] in payload:
                for i, f in enumerate(s["fields"]):
                    if f[0] == "st" and byname[f[1]]["eff"]["constructor"]:
                        s["fields"][i] = ["prim", "u8"]
                        fix = True
                    elif f[0] == "st" and f[1] not in payload:
                        payload.add(f[1])
                        fix = True
    for e in case["enums"]:
        f = e["eff"]
        if f["copy_assignment"] and not f["copy_constructor"]:
            f["copy_assignment"] = False
        if f["copy_constructor"]:
            f["private"] = True
        if f["private"]:
            f["helper_methods"] = True
        if f["destructor"] and not f["copy_constructor"] and e["tracked"]:
            f["copy_constructor"] = True
        for v in e["variants"]:
            for i, t in enumerate(v["fields"]):
                if t[0] == "st":
                    s = byname[t[1]]
                    # body operators follow the struct configuration unless the enum overrides them
                    bad = s["eff"]["constructor"] or ((f["eq"] or case["cs"]["eq"]) and not has(s, "eq")) or ((f["neq"] or case["cs"]["neq"]) and not has(s, "neq")) or ((f["ostream"] or case["cs"]["ostream"]) and not can_stream(s, byname, case))
                    if len(v["fields"]) == 1:
                        bad = bad or any(case["cs"][o] and not has(s, o) for o in ("lt", "lte", "gt", "gte"))
                    if bad:
                        v["fields"][i] = ["prim", "u64"]
                elif t[0] == "arr" and (f["ostream"] or case["cs"]["ostream"]):
                    v["fields"][i] = ["prim", "i32"]
                elif t[0] == "fe" and (f["ostream"] or case["cs"]["ostream"]) and not fe_stream(case):
                    v["fields"][i] = ["prim", "i32"]
                elif t[0] == "tracked":
                    pass
    if any(e["eff"]["helper_methods"] for e in case["enums"]):
        case["enum_class"] = True       # KF-C16-2
    if any(e["tracked"] for e in case["enums"]):
        # the counting payload is an ordinary struct: let the configuration give it what the enums need
        case["cs"].update(eq=True, neq=True, ostream=True)
        return normalise2(case, byname)
    return case


def normalise2(case, byname):
    """struct configuration changed: payload structs that lack an operator are replaced"""
    for e in case["enums"]:
        for v in e["variants"]:
            for i, t in enumerate(v["fields"]):
                if t[0] == "st":
                    v["fields"][i] = ["prim", "u64"]
                elif t[0] == "arr" or t[0] == "fe" and not fe_stream(case):
                    v["fields"][i] = ["prim", "i32"]
    return case


def fe_stream(case):
    return bool(case["fe"]) and case["fe"]["ostream"]


def orderable(t):
    return t[0] in ("prim", "ptr", "st", "fe", "T", "tracked") and t != ["prim", "bool"]


def has(s, op):
    """does struct s get this operator?"""
    if not s["eff"][op]:
        return False
    if op in ("eq", "neq"):
        return bool(s["fields"]) and not any(f[0] == "arr" for f in s["fields"])
    return len(s["fields"]) == 1 and orderable(s["fields"][0])


def can_stream(s, byname, case):
    return s["eff"]["ostream"]


def enum_has(e, op):
    f = e["eff"]
    ok = all(v["kind"] == "unit" or v["fields"] and not any(t[0] == "arr" for t in v["fields"]) for v in e["variants"])
    if op == "eq":
        return f["eq"] and ok
    return f["eq"] and f["neq"] and ok


# ------------------------------------------------------------------ Rust
def rust_ty(t):
    return {"prim": lambda: t[1], "ptr": lambda: "*const u8" if t[1] else "*mut i32", "fn": lambda: "Option<extern \"C\" fn(a: u8) -> u8>", "arr": lambda: "[%s; %d]" % (t[1], t[2]), "st": lambda: t[1], "fe": lambda: t[1],
            "T": lambda: "T", "tracked": lambda: TRACK}[t[0]]()


SKEY = {"eq": "derive-eq", "neq": "derive-neq", "lt": "derive-lt", "lte": "derive-lte", "gt": "derive-gt", "gte": "derive-gte", "ostream": "derive-ostream", "constructor": "derive-constructor"}
EKEY = {"helper_methods": "derive-helper-methods", "const_casts": "derive-const-casts", "mut_casts": "derive-mut-casts", "ostream": "derive-ostream", "destructor": "derive-tagged-enum-destructor",
        "copy_constructor": "derive-tagged-enum-copy-constructor", "copy_assignment": "derive-tagged-enum-copy-assignment", "private": "private-default-tagged-enum-constructor", "eq": "derive-eq", "neq": "derive-neq"}


def annots(eff, conf, keys, bits):
    out = ""
    for i, (k, a) in enumerate(sorted(keys.items())):
        if eff[k] != conf.get(k) or bits >> i & 1:
            out += "/// cbindgen:%s%s\n" % (a, "=false" if not eff[k] else "=true" if bits >> (i + 1) & 1 else "")
    return out


def rust_src(case):
    out = ""
    if case["fe"]:
        f = case["fe"]
        out += annots({"ostream": f["ostream"]}, case["ce"], {"ostream": "derive-ostream"}, 3 if f["ann"] else 0)
        out += "#[repr(%s)]\npub enum Fe { %s }\n#[no_mangle] pub extern \"C\" fn use_fe(a: Fe) {}\n" % (f["repr"], ", ".join("Fe%d" % i for i in range(f["n"])))
    if any(e["tracked"] for e in case["enums"]):
        out += "#[repr(C)]\npub struct %s { id: u32 }\n#[no_mangle] pub extern \"C\" fn use_t(a: *const %s) {}\n" % (TRACK, TRACK)
    for s in case["structs"]:
        g = "<T>" if s["gen"] else ""
        out += annots(s["eff"], case["cs"], SKEY, s["ann"]) + "#[repr(C)]\npub struct %s%s { %s }\n" % (s["name"], g, ", ".join("%s: %s" % (FN[i], rust_ty(t)) for i, t in enumerate(s["fields"])))
        out += "#[no_mangle] pub extern \"C\" fn use_%s(a: *const %s) {}\n" % (s["name"], s["name"] + ("<u8>" if g else ""))
    for e in case["enums"]:
        g = "<T>" if e["gen"] else ""
        vs = []
        for v in e["variants"]:
            if v["kind"] == "unit":
                vs.append(v["name"])
            elif v["kind"] == "tuple":
                vs.append("%s(%s)" % (v["name"], ", ".join(map(rust_ty, v["fields"]))))
            else:
                vs.append("%s { %s }" % (v["name"], ", ".join("%s: %s" % (FN[i], rust_ty(t)) for i, t in enumerate(v["fields"]))))
        conf = dict(case["ce"], eq=case["cs"]["eq"], neq=case["cs"]["neq"])
        out += annots(e["eff"], conf, EKEY, e["ann"]) + "#[repr(%s)]\npub enum %s%s { %s }\n" % (e["repr"], e["name"], g, ", ".join(vs))
        out += "#[no_mangle] pub extern \"C\" fn use_%s(a: *const %s) {}\n" % (e["name"], e["name"] + ("<u8>" if g else ""))
    return out


def config(case):
    cs, ce = case["cs"], case["ce"]
    c = {"language": "C++", "sys_includes": [], "after_includes": "static int vp_live = 0; static int vp_asserts = 0;\n#define VP_ASSERT(x) do { if (!(x)) vp_asserts++; } while (0)",
         "struct": {"derive_" + k: v for k, v in cs.items()},
         "enum": {"enum_class": case["enum_class"], "cast_assert_name": "VP_ASSERT", "derive_helper_methods": ce["helper_methods"], "derive_const_casts": ce["const_casts"], "derive_mut_casts": ce["mut_casts"], "derive_ostream": ce["ostream"],
                  "derive_tagged_enum_destructor": ce["destructor"], "derive_tagged_enum_copy_constructor": ce["copy_constructor"], "derive_tagged_enum_copy_assignment": ce["copy_assignment"],
                  "private_default_tagged_enum_constructor": ce["private"]}}
    if case["rename_args"]:
        c["fn"] = {"rename_args": case["rename_args"]}
    if case["rename_fields"]:
        c["struct"]["rename_fields"] = case["rename_fields"]
    if any(e["tracked"] for e in case["enums"]):
        c["export"] = {"body": {TRACK: "  %s() : %s(0) { vp_live++; }\n  %s(const %s& o) : %s(o.%s) { vp_live++; }\n  ~%s() { vp_live--; }\n  %s& operator=(const %s&) = default;" % (
            (TRACK, field_name(case, "id"), TRACK, TRACK, field_name(case, "id"), field_name(case, "id")) + (TRACK,) * 3)}}
    return c


def field_name(case, n):
    r = case["rename_fields"]
    if r == "PascalCase":
        return "".join(w.capitalize() for w in n.split("_"))
    if r == "prefix:m_":
        return "m_" + n
    return n


# ------------------------------------------------------------------ C++
def cxx_ty(t, case):
    return {"prim": lambda: PRIMS[t[1]], "ptr": lambda: "const uint8_t*" if t[1] else "int32_t*", "fn": lambda: "vp_fnptr", "arr": lambda: "vp_arr<%s, %d>" % (PRIMS[t[1]], t[2]), "st": lambda: t[1], "fe": lambda: t[1],
            "T": lambda: "uint8_t", "tracked": lambda: TRACK}[t[0]]()


def val(t, k, case):
    """C++ expression for the k-th value of a type (k small; equal k <=> equal value, order follows k for ordered types)"""
    if t[0] == "prim":
        n = t[1]
        if n == "bool":
            return "true" if k % 2 else "false"
        if n == "u64":
            return "UINT64_C(%d)" % ((1 << 63) + k)
        if n in ("f32", "f64"):
            return "(%s)%s" % (PRIMS[n], -1.5 + k)
        if n == "u8":
            return "(uint8_t)%d" % (126 + k)
        return "(%s)%d" % (PRIMS[n], -2 + k)
    if t[0] == "T":
        return "(uint8_t)%d" % (126 + k)
    if t[0] == "ptr":
        return "(const uint8_t*)&vp_mem[%d]" % k if t[1] else "&vp_mem[%d]" % k
    if t[0] == "fn":
        return "vp_fnv[%d]" % (k % 4)
    if t[0] == "fe":
        return "Fe::Fe%d" % min(k, case["fe"]["n"] - 1)
    if t[0] == "st":
        return "mk_%s(%d)" % (t[1], k)
    if t[0] == "tracked":
        return "mk_tracked(%d)" % k
    return "vp_arrv%d_%d_%s" % (k % 4, t[2], t[1])


def same(t, a, b, case, byname):
    """do values number a and b of type t coincide?"""
    if t == ["prim", "bool"]:
        return a % 2 == b % 2
    if t[0] == "fe":
        n = case["fe"]["n"] - 1
        return min(a, n) == min(b, n)
    if t[0] == "st":
        return all(same(x, a, b, case, byname) for x in byname[t[1]]["fields"])
    return a == b


def less(t, a, b, case, byname):
    if t[0] == "fe":
        n = case["fe"]["n"] - 1
        return min(a, n) < min(b, n)
    if t[0] == "st":
        return less(byname[t[1]]["fields"][0], a, b, case, byname)
    return a < b


def streamed(t, k, case, byname):
    """C++ expression (std::string) of how the value should be printed"""
    if t[0] == "st":
        return '(' + struct_text(byname[t[1]], [k] * 3, case, byname) + ')'
    if t[0] == "fe":
        if not case["fe"]["ostream"]:
            return "vp_str((int64_t)%s)" % val(t, k, case) if not case["fe"]["repr"] == "u8" else "vp_str(+(uint8_t)%s)" % val(t, k, case)
        return 'std::string("Fe%d")' % min(k, case["fe"]["n"] - 1)
    if t[0] == "tracked":
        return '(std::string("{ %s=") + vp_str(%d) + " }")' % (field_name(case, "id"), k)
    return "vp_str(%s)" % val(t, k, case)


def struct_text(s, ks, case, byname):
    parts = ['std::string("{ ")']
    for i, t in enumerate(s["fields"]):
        parts.append('"%s%s="' % (", " if i else "", field_name(case, FN[i])))
        parts.append(streamed(t, ks[i], case, byname))
    return " + ".join(parts) + ' + " }"'


def member(v, i):
    return FN[i] if v["kind"] == "named" else "_%d" % i


def program(case):
    byname = {s["name"]: s for s in case["structs"]}
    k = case["k"]
    o = ['#include "h.hpp"', "#define CHECK(c, d) do { if (!(c)) { std::cout << d << std::endl; } } while (0)",
         "typedef uint8_t (*vp_fnptr)(uint8_t); template<class T, int N> using vp_arr = T[N];",
         "static int32_t vp_mem[8]; " + " ".join('extern "C" uint8_t vp_fn%d(uint8_t a) { return a + %d; }' % (i, i) for i in range(4)) + " static vp_fnptr vp_fnv[4] = {vp_fn0, vp_fn1, vp_fn2, vp_fn3};",
         "template<class T> std::string vp_str(const T& t) { std::ostringstream s; s << t; return s.str(); }",
         "#define VP_DETECT(name, expr) template<class T, class = void> struct name : std::false_type {}; template<class T> struct name<T, std::void_t<decltype(expr)>> : std::true_type {};"]
    for n, op in OPS:
        o.append("VP_DETECT(has_%s, std::declval<const T&>() %s std::declval<const T&>())" % (n, op))
    o.append("VP_DETECT(has_stream, std::declval<std::ostream&>() << std::declval<const T&>())")
    for v in VN:
        o.append("VP_DETECT(has_Is%s, std::declval<const T&>().Is%s()) VP_DETECT(has_cAs%s, std::declval<const T&>().As%s())" % (v, v, v, v))
    for p in ("u8", "i32", "f64"):
        for n in range(1, 5):
            for j in range(4):
                o.append("static %s vp_arrv%d_%d_%s[%d] = {%s};" % (PRIMS[p], j, n, p, n, ", ".join(str(j + x) for x in range(n))))
    if any(e["tracked"] for e in case["enums"]):
        o.append("static %s mk_tracked(uint32_t k) { %s t; t.%s = k; return t; }" % (TRACK, TRACK, field_name(case, "id")))
    main = []
    C = lambda cond, d: main.append('CHECK((%s), "%s");' % (cond, d.replace('"', "'")))
    ran = set()
    # ---- structs
    for s in case["structs"]:
        n = s["name"] + ("<uint8_t>" if s["gen"] else "")
        fs = s["fields"]

        def mk(ks):
            if s["eff"]["constructor"]:
                return "%s(%s)" % (n, ", ".join(val(t, ks[i], case) for i, t in enumerate(fs)))
            return None
        # builder: works with and without a derived constructor
        o.append("static %s build_%s(%s) { %s }" % (n, s["name"], ", ".join("int k%d" % i for i in range(len(fs))), build_body(s, n, case)))
        if not s["gen"]:
            o.append("static %s mk_%s(int k) { return build_%s(%s); }" % (n, s["name"], s["name"], ", ".join(["k"] * len(fs))))
        for op, sym in OPS:
            C("has_%s<%s>::value == %s" % (op, n, str(has(s, op)).lower()), "%s: operator%s must %sexist" % (s["name"], sym, "" if has(s, op) else "not "))
        C("has_stream<%s>::value == %s" % (n, str(s["eff"]["ostream"]).lower()), "%s: stream operator presence" % s["name"])
        if not any(t[0] == "arr" for t in fs):
            C("(std::is_constructible<%s, %s>::value) == %s" % (n, ", ".join("%s const&" % cxx_ty(t, case) if t[0] != "fn" else "vp_fnptr&" for t in fs), str(s["eff"]["constructor"]).lower()), "%s: constructor presence" % s["name"])
            if s["eff"]["constructor"]:
                ks = [k[i] for i in range(len(fs))]
                main.append("{ %s a(%s);" % (n, ", ".join(val(t, ks[i], case) for i, t in enumerate(fs))))
                for i, t in enumerate(fs):
                    if t[0] != "st" or has(byname[t[1]], "eq"):
                        C("a.%s == %s" % (field_name(case, FN[i]), val(t, ks[i], case)), "%s: constructor sets %s" % (s["name"], FN[i]))
                main.append("}")
                ran.add("constructor")
        for ka, kb in ((k[:3], k[3:]), (k[:3], k[:3]), (k[:3], [k[0], k[1], k[5]]), (k[:3], [k[3], k[1], k[2]])):
            a = "build_%s(%s)" % (s["name"], ", ".join(str(x) for x in ka[:len(fs)]))
            b = "build_%s(%s)" % (s["name"], ", ".join(str(x) for x in kb[:len(fs)]))
            eq = all(same(t, ka[i], kb[i], case, byname) for i, t in enumerate(fs))
            lt = less(fs[0], ka[0], kb[0], case, byname)
            for op, sym in OPS:
                if has(s, op):
                    r = {"eq": eq, "neq": not eq, "lt": lt, "lte": lt or eq, "gt": not lt and not eq, "gte": not lt}[op]
                    C("(%s %s %s) == %s" % (a, sym, b, str(r).lower()), "%s: %s %s %s must be %s" % (s["name"], ka, sym, kb, r))
                    ran.add(op)
            if s["eff"]["ostream"]:
                C("vp_str(%s) == %s" % (a, struct_text(s, ka, case, byname)), "%s: stream output" % s["name"])
                ran.add("ostream")
    # ---- fieldless enum
    if case["fe"]:
        f = case["fe"]
        if case["enum_class"]:
            C("has_stream<Fe>::value == %s" % str(f["ostream"]).lower(), "Fe: stream operator presence")
        if f["ostream"]:
            for i in range(f["n"]):
                C('vp_str(Fe::Fe%d) == "Fe%d"' % (i, i), "Fe: stream output")
            ran.add("ostream")
    # ---- tagged enums
    for e in case["enums"]:
        n = e["name"] + ("<uint8_t>" if e["gen"] else "")
        f = e["eff"]
        name = e["name"]
        C("has_eq<%s>::value == %s" % (n, str(enum_has(e, "eq")).lower()), name + ": operator== presence")
        C("has_neq<%s>::value == %s" % (n, str(enum_has(e, "neq")).lower()), name + ": operator!= presence")
        C("has_stream<%s>::value == %s" % (n, str(f["ostream"]).lower()), name + ": stream operator presence")
        C("std::is_default_constructible<%s>::value == %s" % (n, str(not f["private"] and not f["copy_constructor"]).lower()), name + ": default constructor")
        C("std::is_trivially_destructible<%s>::value == %s" % (n, str(not f["destructor"]).lower()), name + ": destructor presence")
        if not f["destructor"]:
            C("std::is_trivially_copy_constructible<%s>::value == %s" % (n, str(not f["copy_constructor"]).lower()), name + ": copy constructor presence")
        C("std::is_trivially_copy_assignable<%s>::value == %s" % (n, str(not f["copy_assignment"]).lower()), name + ": copy assignment presence")
        for v in e["variants"]:
            C("has_Is%s<%s>::value == %s" % (v["name"], n, str(f["helper_methods"]).lower()), "%s: Is%s presence" % (name, v["name"]))
            C("has_cAs%s<%s>::value == %s" % (v["name"], n, str(bool(f["helper_methods"] and f["const_casts"] and v["fields"])).lower()), "%s: As%s presence" % (name, v["name"]))

        def make(v, ks, var):
            """statements that create `var` holding the variant"""
            if f["helper_methods"]:
                return "%s %s = %s::%s(%s);" % (n, var, n, v["name"], ", ".join(val(t, ks[i], case) for i, t in enumerate(v["fields"])))
            r = "%s %s; %s.tag = %s::Tag::%s;" % (n, var, var, n, v["name"])
            for i, t in enumerate(v["fields"]):
                m = "%s.%s.%s" % (var, snake(v["name"]), enum_field(case, e, v, i))
                if t[0] == "arr":
                    r += " for (int i = 0; i < %d; i++) %s[i] = %s[i];" % (t[2], m, val(t, ks[i], case))
                else:
                    r += " %s = %s;" % (m, val(t, ks[i], case))
            return r

        def payload_checks(var, v, ks, what):
            for i, t in enumerate(v["fields"]):
                m = "%s.%s.%s" % (var, snake(v["name"]), enum_field(case, e, v, i))
                if t[0] == "arr":
                    for j in range(t[2]):
                        C("%s[%d] == %s[%d]" % (m, j, val(t, ks[i], case), j), "%s::%s: %s, element %d" % (name, v["name"], what, j))
                elif t[0] != "st" or has(byname[t[1]], "eq"):
                    C("%s == %s" % (m, val(t, ks[i], case)), "%s::%s: %s, field %d" % (name, v["name"], what, i))
        main.append("int live_%s = vp_live; {" % name)
        for v in e["variants"]:
            ks = k[:3]
            main.append("{ vp_asserts = 0; " + make(v, ks, "a"))
            C("a.tag == %s::Tag::%s" % (n, v["name"]), "%s::%s: tag" % (name, v["name"]))
            payload_checks("a", v, ks, "payload")
            if f["helper_methods"]:
                ran.add("helper")
                for w in e["variants"]:
                    C("a.Is%s() == %s" % (w["name"], str(w is v).lower()), "%s::%s: Is%s" % (name, v["name"], w["name"]))
                for w in e["variants"]:
                    if not w["fields"]:
                        continue
                    for flag, ref, kind in (("const_casts", "static_cast<const %s&>(a)" % n, "const"), ("mut_casts", "a", "mut")):
                        if not f[flag]:
                            continue
                        if flag == "mut_casts" and not f["const_casts"]:
                            pass
                        C("(vp_asserts = 0, (void)%s.As%s(), vp_asserts) == %d" % (ref, w["name"], int(w is not v)), "%s::%s: %s As%s must %s" % (name, v["name"], kind, w["name"], "pass" if w is v else "assert"))
                        if w is v:
                            single = len(w["fields"]) == 1 and w["kind"] == "tuple" and w["fields"][0][0] not in ("arr", "fn")
                            for i, t in enumerate(w["fields"]):
                                acc = "%s.As%s()" % (ref, w["name"]) + ("" if single else "." + enum_field(case, e, w, i))
                                if t[0] == "arr":
                                    C("%s[%d] == %s[%d]" % (acc, t[2] - 1, val(t, ks[i], case), t[2] - 1), "%s: As%s element" % (name, w["name"]))
                                elif t[0] != "st" or has(byname[t[1]], "eq"):
                                    C("%s == %s" % (acc, val(t, ks[i], case)), "%s: As%s field %d" % (name, w["name"], i))
                                C("(const void*)&%s == (const void*)&a.%s.%s" % (acc, snake(w["name"]), enum_field(case, e, w, i)), "%s: As%s refers to the payload" % (name, w["name"]))
                            ran.add("casts")
            if f["mut_casts"] and f["helper_methods"] and v["fields"]:
                C("!std::is_const<std::remove_reference_t<decltype(a.As%s())>>::value" % v["name"], "%s: mutable As%s" % (name, v["name"]))
            if f["const_casts"] and f["helper_methods"] and v["fields"] :
                C("std::is_const<std::remove_reference_t<decltype(static_cast<const %s&>(a).As%s())>>::value" % (n, v["name"]), "%s: const As%s" % (name, v["name"]))
            # copies
            main.append("%s c = a;" % n)
            C("c.tag == a.tag", "%s::%s: copy tag" % (name, v["name"]))
            payload_checks("c", v, ks, "copy")
            if f["copy_constructor"]:
                ran.add("copy")
            if enum_has(e, "eq"):
                C("a == c", "%s::%s: copy equals the original" % (name, v["name"]))
            if f["ostream"]:
                ran.add("ostream")
                C("vp_str(a) == %s" % enum_text(case, e, v, ks, byname), "%s::%s: stream output" % (name, v["name"]))
                C('vp_str(a.tag) == "%s"' % v["name"], "%s::%s: stream output of the tag" % (name, v["name"]))
            for w in e["variants"]:
                for kw in (k[3:], k[:3], [k[0], k[1], k[5]]):
                    main.append("{ " + make(w, kw, "b"))
                    eq = v is w and all(same(t, ks[i], kw[i], case, byname) for i, t in enumerate(v["fields"]))
                    if enum_has(e, "eq"):
                        C("(a == b) == %s" % str(eq).lower(), "%s: %s%s == %s%s must be %s" % (name, v["name"], ks, w["name"], kw, eq))
                        ran.add("eq")
                    if enum_has(e, "neq"):
                        C("(a != b) == %s" % str(not eq).lower(), "%s: %s%s != %s%s must be %s" % (name, v["name"], ks, w["name"], kw, not eq))
                        ran.add("neq")
                    if f["copy_assignment"] or not (f["copy_constructor"] or f["destructor"]):
                        main.append("%s& r = (b = a);" % n)
                        C("&r == &b && b.tag == a.tag", "%s: assignment" % name)
                        payload_checks("b", v, ks, "assigned")
                        if f["copy_assignment"]:
                            ran.add("assign")
                            main.append("b = *&b;")
                            payload_checks("b", v, ks, "self-assigned")
                    main.append("}")
            main.append("}")
        main.append("}")
        C("vp_live == live_%s" % name, "%s: every payload must be destroyed exactly once" % name)
        if e["tracked"]:
            v = [x for x in e["variants"] if ["tracked"] in x["fields"]]
            if v:
                main.append("{ int l = vp_live; " + make(v[0], k[:3], "a"))
                C("vp_live == l + %d" % v[0]["fields"].count(["tracked"]), "%s: a constructed variant holds its payload once" % name)
                main.append("}")
                ran.add("destructor")
    o.append("int main() {")
    return "\n".join(o + main) + '\nstd::cout << "VPDONE" << std::endl; return 0; }\n', ran


def snake(v):
    return re.sub(r"(?<=[a-z])(?=[A-Z])", "_", v).lower()


def enum_field(case, e, v, i):
    if v["kind"] == "named":
        return field_name(case, FN[i])
    return "m_%d" % i if case["rename_fields"] == "prefix:m_" else "_%d" % i


def enum_text(case, e, v, ks, byname):
    inline_tag = not e["repr"].startswith("C")
    if v["kind"] == "unit":
        return 'std::string("%s")' % v["name"]
    parts = ['std::string("%s{ ")' % ("" if inline_tag else v["name"])]
    if inline_tag:
        parts.append('"tag=%s%s"' % (v["name"], ", " if v["fields"] else ""))
    for i, t in enumerate(v["fields"]):
        parts.append('"%s%s="' % (", " if i else "", enum_field(case, e, v, i)))
        parts.append(streamed(t, ks[i], case, byname))
    return " + ".join(parts) + ' + " }"'


def build_body(s, n, case):
    """create a struct from value numbers k0.. (switch per field)"""
    r = ""
    fs = s["fields"]

    def pick(t, i, f):
        return "switch (k%d) { %s }" % (i, " ".join("case %d: %s break;" % (x, f(val(t, x, case))) for x in range(4)))
    if s["eff"]["constructor"]:
        for i, t in enumerate(fs):
            ct = cxx_ty(t, case)
            if t[0] == "st":
                r += "%s v%d = mk_%s(k%d); " % (ct, i, t[1], i)
            else:
                r += "%s v%d = %s; " % (ct, i, val(t, 0, case)) + pick(t, i, lambda x, i=i: "v%d = %s;" % (i, x)) + " "
        return r + "return %s(%s);" % (n, ", ".join("v%d" % i for i in range(len(fs))))
    # plain aggregate
    init = []
    for i, t in enumerate(fs):
        if t[0] == "st":
            init.append("mk_%s(k%d)" % (t[1], i))
        elif t[0] == "arr":
            init.append("{}")
        else:
            r += "%s v%d = %s; " % (cxx_ty(t, case), i, val(t, 0, case)) + pick(t, i, lambda x, i=i: "v%d = %s;" % (i, x)) + " "
            init.append("v%d" % i)
    r += "%s s = {%s}; " % (n, ", ".join(init))
    for i, t in enumerate(fs):
        if t[0] == "arr":
            r += pick(t, i, lambda x, t=t, i=i: "for (int i = 0; i < %d; i++) s.%s[i] = %s[i];" % (t[2], field_name(case, FN[i]), x)) + " "
    return r + "return s;"


def check(case, ctx):
    d = ctx.fresh()
    pch = os.path.join(ctx.dir, "vp_pch.hpp")
    if not os.path.exists(pch + ".gch"):
        vp.write(pch, PCH)
        p = vp.run(["g++", "-std=c++17", "-w", "-O0", "-x", "c++-header", pch, "-o", pch + ".gch"])
        if p.returncode != 0:
            raise vp.HarnessError("pch: " + p.stderr[:500])
    src = rust_src(case)
    cfg = config(case)
    h = cc.bindgen(ctx, d, src, cfg, out="h.hpp")
    text, ran = program(case)
    vp.write(os.path.join(d, "t.cpp"), text)
    p = vp.run(["g++", "-std=c++17", "-w", "-O0", "-include", pch, "-o", "t", "t.cpp"], cwd=d)
    if p.returncode != 0:
        cc.fail("the helpers do not compile", src, cfg, h, "\n".join(re.findall(r"^[^\n]*error:[^\n]*\n[^\n]*", p.stderr, re.M)[:8]))
    r = vp.run(["./t"], cwd=d)
    lines = [l for l in r.stdout.splitlines() if l != "VPDONE"]
    if lines:
        cc.fail("a generated helper misbehaves: " + "; ".join(lines[:8]), src, cfg, h)
    if r.returncode != 0 or "VPDONE" not in r.stdout:
        cc.fail("the program using the helpers crashed (exit %d)" % r.returncode, src, cfg, h)
    ctx.evaluated(text.count("CHECK(") - 1)
    ctx.label(*["ran:" + x for x in ran])
    ctx.nontrivial("helper" in ran or len(ran) >= 2)
