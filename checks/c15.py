"""C15: a type without a C-compatible representation is only forward-declared; every representable type is complete."""
import re
from hypothesis import strategies as st
import cc, vp

PROP = "C15"
N = {"quick": 1600, "thorough": 40000}
RULE = ("case = 2-6 types (struct, tuple struct, unit struct, union, fieldless / data-carrying / empty enum, alias; plain or generic) with every repr combination rustc accepts (split over several attributes, any order), "
        "field types of which some cannot be translated (tuples, slices, trait objects, associated types, computed array lengths, nested under pointers, Option, arrays, function pointers), x layout.packed / aligned_n x language x style. "
        "Oracle: an independent decision table says complete or opaque; a probe compiled against the header needs sizeof(T) to fail for exactly the opaque ones, and size and alignment to equal rustc's for the others. "
        "non-trivial = the case contains both opaque and complete types")
ASSUMPTIONS = ["the decision table is written from docs.md and the documentation of the layout options", "a type holding an opaque type by value is not generated (its declaration cannot be compiled, so no layout is guessed)"]
B = st.booleans()
OK = ["u8", "i16", "u32", "i64", "f32", "f64", "bool", "usize", "*const u8", "*mut i32", "[u16; 3]", "Option<extern \"C\" fn(u8) -> u32>", "extern \"C\" fn(*const u8)", "*const *mut u8", "Option<&'static u8>", "[[u8; 2]; 3]", "&'static u32", "*const std::ffi::c_void", "char"]
BAD = ["(u8, u16)", "*const [u8]", "&'static [u8]", "*const dyn Send", "Option<&'static [u8]>", "[(u8, u8); 2]", "extern \"C\" fn((u8, u8))", "extern \"C\" fn() -> (u8, u16)", "Box<[u8]>", "*mut *const [u32]", "[u8; 2 + 2]", "&'static dyn Sync", "Option<Box<dyn Send>>",
       "<u8 as VpTr>::Out", "*const (u8, u8)", "Option<extern \"C\" fn(&[u8])>", "[*const [u8]; 2]", "[u8; { 3 }]", "[u8; !0 - !1]", "*const <u8 as VpTr>::Out", "std::marker::PhantomData<u8>"]
# the last one is only bad as an array element
PHANTOM = BAD.pop()
INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]
PRELUDE = "pub trait VpTr { type Out; }\nimpl VpTr for u8 { type Out = u64; }\npub type Out = u8;\n"


def names(i):
    return ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta"][i]


@st.composite
def a_type(draw, i):
    k = draw(st.sampled_from(["struct", "struct", "struct", "tuple", "unit", "union", "fieldless", "fieldless", "data", "data", "data", "empty", "alias", "gstruct", "gunion", "genum"]))
    badp = draw(st.integers(0, 2)) == 0
    nf = draw(st.integers(1, 3))
    T = lambda: draw(st.sampled_from(OK))
    fs = [T() for _ in range(nf)]
    if badp:
        fs[draw(st.integers(0, nf - 1))] = draw(st.sampled_from(BAD))
    t = {"k": k, "name": names(i), "fields": fs, "alg": draw(st.sampled_from([1, 2, 4, 8, 16, 64]))}
    if k in ("struct", "tuple", "unit", "gstruct"):
        t["repr"] = draw(st.sampled_from([[], ["C"], ["C"], ["C"], ["transparent"], ["packed"], ["C", "packed"], ["packed", "C"], ["C", "packed(2)"], ["C", "packed(1)"], ["C", "align"], ["align", "C"], ["align"], ["Rust"], ["packed(4)"], ["C", "align", "align2"]]))
    elif k in ("union", "gunion"):
        t["repr"] = draw(st.sampled_from([[], ["C"], ["C"], ["C", "packed"], ["C", "align"], ["align"], ["packed"], ["C", "packed(2)"], ["Rust"]]))
    elif k == "fieldless":
        t["repr"] = draw(st.sampled_from([[], ["C"], ["C"], ["int"], ["int"], ["C", "align"], ["int", "align"], ["align"], ["Rust"]]))
        t["disc"] = draw(st.sampled_from([None, None, "5", "1 + 2", "if true { 4 } else { 5 }", "{ 7 }", "vp_const(3)"]))
    elif k in ("data", "genum"):
        t["repr"] = draw(st.sampled_from([[], ["C"], ["C"], ["int"], ["int"], ["C", "int"], ["int", "C"], ["C", "align"], ["int", "align"], ["transparent"], ["Rust"], ["C", "int", "align"]]))
        t["shape"] = draw(st.sampled_from(["tuple", "named", "mixed"]))
    else:
        t["repr"] = []
    t["int"] = draw(st.sampled_from(INTS))
    t["split"] = draw(B)
    if t["repr"] == ["transparent"]:
        t["fields"] = fs[:1]
        t["ph"] = draw(st.sampled_from([None, None, "after", "before"]))
    if k == "unit" and "transparent" in t["repr"]:
        t["repr"] = ["C"]
    return t


@st.composite
def strategy_(draw):
    return {"types": [draw(a_type(i)) for i in range(draw(st.integers(2, 6)))], "packed": draw(B), "aligned": draw(B), "lang": draw(st.sampled_from(["C", "C", "C++", "Cython"])),
            "style": draw(st.sampled_from(["both", "tag", "type"])), "annot": draw(st.integers(0, 5)) == 0}


def strategy(tier):
    return strategy_()


def reprs(t):
    out = []
    for r in t["repr"]:
        out.append({"align": "align(%d)" % t["alg"], "align2": "align(%d)" % (t["alg"] * 2), "int": t["int"]}.get(r, r))
    if not out:
        return ""
    if t["split"]:
        return "".join("#[repr(%s)]\n" % r for r in out)
    return "#[repr(%s)]\n" % ", ".join(out)


def rust(t):
    n, k, fs = t["name"], t["k"], t["fields"]
    ph = t.get("ph")
    life = ""
    if k == "alias":
        return "pub type %s = %s;\n" % (n, fs[0])
    r = reprs(t)
    g = "<T: Copy>" if k.startswith("g") else ""
    if k in ("struct", "gstruct"):
        b = ["f%d: %s" % (i, f) for i, f in enumerate(fs)]
        if k == "gstruct":
            b = ["g: T"] + b if t["repr"] != ["transparent"] else ["g: *const T"]
        if ph == "after":
            b.append("ph: std::marker::PhantomData<u8>")
        elif ph == "before":
            b.insert(0, "ph: std::marker::PhantomData<u8>")
        return r + "pub struct %s%s { %s }\n" % (n, g, ", ".join(b))
    if k == "tuple":
        b = list(fs)
        if ph == "after":
            b.append("std::marker::PhantomData<u8>")
        elif ph == "before":
            b.insert(0, "std::marker::PhantomData<u8>")
        return r + "pub struct %s(%s);\n" % (n, ", ".join(b))
    if k == "unit":
        return r + "pub struct %s;\n" % n
    if k in ("union", "gunion"):
        b = ["f%d: std::mem::ManuallyDrop<%s>" % (i, f) if "Box" in f else "f%d: %s" % (i, f) for i, f in enumerate(fs)]
        if g:
            b.append("g: T")
        return r + "pub union %s%s { %s }\n" % (n, g, ", ".join(b))
    if k == "fieldless":
        vs = ["%sV0" % n, "%sV1" % n, "%sV2" % n]
        if t["disc"]:
            vs[1] += " = " + t["disc"]
        return r + "pub enum %s { %s }\n" % (n, ", ".join(vs))
    if k == "empty":
        return "pub enum %s {}\n" % n
    # data enums
    if g:
        fs = ["T"] + fs if t["repr"] != ["transparent"] else ["*const T"]
    if t["repr"] == ["transparent"]:
        return r + "pub enum %s%s { %sV0(%s) }\n" % (n, g, n, fs[0])
    vs = ["%sV0" % n]
    if t["shape"] == "tuple":
        vs.append("%sV1(%s)" % (n, ", ".join(fs)))
    elif t["shape"] == "named":
        vs.append("%sV1 { %s }" % (n, ", ".join("f%d: %s" % (i, f) for i, f in enumerate(fs))))
    else:
        vs += ["%sV%d(%s)" % (n, i + 1, f) for i, f in enumerate(fs)]
    return r + "pub enum %s%s { %s }\n" % (n, g, ", ".join(vs))


def complete(t, case):
    """the decision table"""
    k = t["k"]
    if k == "empty":
        return False
    skip = t["repr"] == ["transparent"] and k.startswith("g")
    used = t["fields"] if k not in ("fieldless", "unit") and not skip else []
    if k == "alias":
        used = t["fields"][:1]
    if any(f in BAD for f in used):
        return False
    if k == "alias":
        return True
    r = t["repr"]
    if any(x.startswith("packed(") for x in r) or "Rust" in r:
        return False
    if "align2" in r:
        return False            # several alignments are not supported
    if k in ("struct", "tuple", "unit", "gstruct"):
        if "C" not in r and "transparent" not in r:
            return False
        if "packed" in r and not case["packed"] or "align" in r and not case["aligned"]:
            return False
        return True
    if k in ("union", "gunion"):
        if "C" not in r:
            return False
        return not ("packed" in r and not case["packed"] or "align" in r and not case["aligned"])
    # enums
    if k == "fieldless" and t["disc"] in ("if true { 4 } else { 5 }", "{ 7 }", "vp_const(3)"):
        return False
    if "align" in r or "transparent" in r:
        return False
    return "C" in r or "int" in r


def tag_kw(t, comp):
    k, r = t["k"], t["repr"]
    if not comp or k in ("struct", "tuple", "unit", "gstruct"):
        return "" if r == ["transparent"] and comp else "struct "
    if k in ("union", "gunion"):
        return "union "
    if k == "fieldless":
        return "enum " if "int" not in r else ""
    if k in ("data", "genum"):
        return "struct " if "C" in r else "union "
    return ""


def prob_src(t):
    return rust(t)


def check(case, ctx):
    types = case["types"]
    if len({t["name"] for t in types}) != len(types):
        raise vp.Discard("names")
    src = PRELUDE + "pub const fn vp_const(x: isize) -> isize { x }\n"
    for i, t in enumerate(types):
        use = t["name"] + ("<u8>" if t["k"].startswith("g") else "")
        src += rust(t) + "#[no_mangle] pub extern \"C\" fn use_%d(a: *const %s, b: *mut %s) {}\n" % (i, use, use)
    if case["annot"]:
        src = "/// doc\n" + src
    d = ctx.fresh()
    body = ""
    for t in types:
        use = t["name"] + ("<u8>" if t["k"].startswith("g") else "")
        body += 'println!("%s {} {}", ::std::mem::size_of::<%s>(), ::std::mem::align_of::<%s>());\n' % (t["name"], use, use)
    src2 = src
    for x in INTS:      # vp_const in a discriminant has the enum's integer type
        src2 = src2.replace("\x00", "")
    out = cc.rust_run(d, fix_disc(src, types) + "fn main() {\n" + body + "}\n", features="#![allow(warnings)]\n")
    sizes = {l.split()[0]: l.split()[1:] for l in out.splitlines()}
    cfg = {"language": case["lang"], "layout": {}}
    if case["packed"]:
        cfg["layout"]["packed"] = cc.LAYOUT["packed"]
    if case["aligned"]:
        cfg["layout"]["aligned_n"] = cc.LAYOUT["aligned_n"]
    if case["lang"] == "Cython":
        return cython(case, ctx, d, src, cfg)
    cfg["after_includes"] = cc.ALIGN_DEF
    cxx = case["lang"] == "C++"
    if cxx:
        cfg.update(cc.CXX_INC)
    else:
        cfg["style"] = case["style"]
    h = cc.bindgen(ctx, d, src, cfg, out="o.h")
    lines = ['#include "o.h"']
    exp = {}
    for t in types:
        comp = complete(t, case)
        n = t["name"]
        if t["k"].startswith("g"):
            n = n + "<uint8_t>" if cxx else n + "_u8"
        if not cxx and (case["style"] == "tag"):
            n = tag_kw(t, comp) + n
        if not comp:
            lines.append("extern %s *vp_ptr_%s; extern char vp_%s[sizeof(%s)];" % (n, t["name"], t["name"], n))
            exp[len(lines)] = t
        elif t["k"] == "unit":
            # zero-sized: C has no such type, the body is what counts
            lines.append("extern char vp_%s[sizeof(%s) + 1];" % (t["name"], n))
        else:
            s, a = sizes[t["name"]]
            lines.append('%s(sizeof(%s) == %s && %s(%s) == %s, "layout of %s: %s bytes aligned %s");' % (
                "static_assert" if cxx else "_Static_assert", n, s, "alignof" if cxx else "_Alignof", n, a, t["name"], s, a))
    p = cc.compile_c(d, "probe", "\n".join(lines) + "\n", cxx=cxx, flags=["-fmax-errors=0"])
    errs = set()
    for m in re.finditer(r"^([^\s:]+):(\d+):(?:\d+:)? (?:fatal )?error:", p.stderr, re.M):
        if not m.group(1).startswith("probe."):
            cc.fail("the header does not compile", src, cfg, h, p.stderr[:3000])
        errs.add(int(m.group(2)))
    for l in sorted(errs | set(exp)):
        if l in errs and l not in exp:
            cc.fail("a representable type is not complete or has another layout: %s" % lines[l - 1], src, cfg, h, p.stderr[:3000])
        if l in exp and l not in errs:
            cc.fail("%s has no C-compatible representation, but its definition is emitted" % exp[l]["name"], src, cfg, h, p.stderr[:2000])
    # pointers to opaque types must work: the same probe without the sizeof lines compiles
    if exp:
        l2 = [re.sub(r"; extern char .*", ";", l) for l in lines]
        p = cc.compile_c(d, "probe2", "\n".join(l2) + "\n", cxx=cxx)
        if p.returncode != 0:
            cc.fail("pointers to the opaque types do not work", src, cfg, h, p.stderr[:2000])
    done(case, ctx, len(exp))


def fix_disc(src, types):
    return src.replace("pub const fn vp_const(x: isize) -> isize { x }", "pub const fn vp_const<T: Copy>(x: T) -> T { x }")


def done(case, ctx, nop):
    ctx.label("lang:" + case["lang"])
    for t in case["types"]:
        ctx.label("%s:%s:%s" % (t["k"], "+".join(t["repr"]) or "-", "complete" if complete(t, case) else "opaque"))
    ctx.nontrivial(0 < nop < len(case["types"]))


def cython(case, ctx, d, src, cfg):
    h = cc.bindgen(ctx, d, src, cfg, out="o.pxd")
    nop = 0
    for t in case["types"]:
        comp = complete(t, case)
        n = t["name"] + ("_u8" if t["k"].startswith("g") else "")
        m = re.search(r"^  (?:ctypedef|cdef) (?:packed )?(?:struct|union|enum) %s:\n((?:    .*\n?)*)" % n, h, re.M)
        td = re.search(r"^  ctypedef [^\n:]*[^\w]%s(\[|\)|;|$)" % n, h, re.M)
        if not comp:
            nop += 1
            if not m or m.group(1).strip() != "pass":
                cc.fail("%s must be an opaque struct in the Cython declarations" % n, src, cfg, h)
        elif t["k"] == "alias" or t["repr"] == ["transparent"]:
            if not td:
                cc.fail("%s must be a typedef in the Cython declarations" % n, src, cfg, h)
        elif t["k"] == "fieldless":
            if not (m or td) or m and m.group(1).strip() == "pass":
                cc.fail("%s must be an enum in the Cython declarations" % n, src, cfg, h)
        elif t["k"] != "unit":
            if not m or m.group(1).strip() == "pass":
                cc.fail("%s must have a body in the Cython declarations" % n, src, cfg, h)
    done(case, ctx, nop)
