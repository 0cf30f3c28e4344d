"""C06: discriminants of emitted enums and tags vs rustc."""
import re
from hypothesis import strategies as st
import cc, vp, rs, hdr
import c05

PROP = "C06"
N = {"quick": 2000, "thorough": 40000}
RULE = ("case = up to 4 enums (fieldless or data-carrying; every repr) whose discriminants mix literals in every base, negative values, byte literals, "
        "operator expressions, references to constants and implicit successors, x naming / enum_class / sentinel / cpp_compat options; the values of "
        "all variants in the compiled header, in declaration order, are compared with those rustc assigns; non-trivial = an enum with at least one "
        "explicit and one implicit discriminant")
ASSUMPTIONS = ["expressions whose literal C reading is narrower than the Rust one (KF-C05-1) are not generated", "variant names are matched modulo case and underscores (exact names are C10's subject)"]
B = st.booleans()
REPRS = ["C", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]


@st.composite
def enum(draw, i, ev, consts):
    tagged = draw(st.integers(0, 3)) == 0
    rep = draw(st.sampled_from(REPRS))
    prim = rep if rep != "C" else "i32"
    reprs = [rep]
    if tagged and rep != "C" and draw(B):
        reprs = ["C", rep]
    elif tagged and rep == "C":
        pass
    lo, hi = c05.rng(prim)
    n = draw(st.integers(1, 7))
    vs, used, cur = [], set(), -1
    for j in range(n):
        v = {"name": "Var" + rs.cap(rs.word(i)) + rs.cap(rs.word(j))}
        k = draw(st.sampled_from(["imp", "imp", "lit", "neg", "expr", "byte", "ref"]))
        nxt = cur + 1
        if tagged and rep == "C":
            k = "imp"
        if k == "imp" and (nxt in used or not lo <= nxt <= hi):
            k = "lit"
        e = None
        t = "isize" if rep == "C" else rep
        if k == "lit":
            e = c05.lit(draw, t)
            e[4] = e[4] and rep != "C"
        elif k == "neg" and lo < 0:
            e = c05.lit(draw, t)
            e[4] = e[4] and rep != "C"
            e = ["neg", t, e]
        elif k == "expr":
            e = c05.expr(draw, ev, t, draw(st.integers(1, 3)))
        elif k == "byte":
            e = ["byte", draw(st.integers(33, 126))]
            if t != "u8":
                e = ["cast", t, "u8", e]
        elif k == "ref":
            cs = [m for m, x in ev.env.items() if x[0] == t]
            if cs:
                e = ["ref", draw(st.sampled_from(cs))]
        if e is not None:
            try:
                val = ev.r(e)
                if val in used or not lo <= val <= hi or ev.c(e)[2] != val:
                    e = None
            except c05.Bad:
                e = None
        if e is None:
            if nxt in used or not lo <= nxt <= hi:
                break
            val = nxt
        else:
            v["disc"] = e
        cur = val
        used.add(val)
        if tagged:
            v["pay"] = draw(st.sampled_from(["", "(u8)", "(u32, i8)", " { x: u16 }"])) if j else "(u8)"
        vs.append(v)
    return {"name": "En" + rs.cap(rs.word(i)), "repr": reprs, "variants": vs or [{"name": "Var" + rs.cap(rs.word(i)), "pay": "(u8)"} if tagged else {"name": "Var" + rs.cap(rs.word(i))}], "tagged": tagged, "last": cur, "hi": hi}


@st.composite
def cases(draw):
    ev = c05.Ev(False, {})
    ev.evs = []
    consts = []
    for i in range(draw(st.integers(0, 3))):
        t = draw(st.sampled_from(["isize", "u8", "i32", "u64", "i16", "u32"]))
        e = c05.expr(draw, ev, t, draw(st.integers(0, 2)))
        if not ev.ok(e, t):
            e = c05.lit(draw, t, True)
        n = "K_" + rs.word(i).upper()
        consts.append([n, t, e])
        ev.env[n] = (t, ev.r(e), ev.c(e), "ast")
    enums = [draw(enum(i, ev, consts)) for i in range(draw(st.integers(1, 4)))]
    o = {"lang": draw(st.sampled_from(["c", "c", "cxx", "cxx"])), "style": draw(st.sampled_from(["both", "tag", "type"])), "cpp_compat": draw(B),
         "enum_class": draw(B), "prefix_with_name": draw(B), "sentinel": draw(st.integers(0, 2)) == 0,
         "rename": draw(st.sampled_from([None, None, "ScreamingSnakeCase", "SnakeCase", "CamelCase", "QualifiedScreamingSnakeCase", "UpperCase", "LowerCase"])),
         "prefix": draw(st.sampled_from(["", "", "Px"])), "cxxconst": draw(B), "merge": draw(B)}
    if o["lang"] == "cxx" and o["rename"] and any(e["tagged"] for e in enums):
        o["enum_class"] = True           # KF-C06-1: enumerators and payload members share names and, in C++, their scope
    if o["sentinel"]:
        o["prefix_with_name"] = True
        if any(e["last"] >= e["hi"] for e in enums):
            o["sentinel"] = False
    return {"consts": consts, "enums": enums, "o": o}


def strategy(tier):
    return cases()


def render(case):
    s = ""
    for n, t, e in case["consts"]:
        s += "pub const %s: %s = %s;\n" % (n, t, c05.rtext(e))
    for e in case["enums"]:
        s += "#[repr(%s)]\npub enum %s {\n" % (", ".join(e["repr"]), e["name"])
        for v in e["variants"]:
            s += "    %s%s%s,\n" % (v["name"], v.get("pay", ""), " = " + c05.rtext(v["disc"]) if v.get("disc") else "")
        s += "}\n"
    return rs.RUST_HEAD + s + '#[no_mangle] pub extern "C" fn use_all(%s) {}\n' % ", ".join("a%d: *mut %s" % (i, e["name"]) for i, e in enumerate(case["enums"]))


def norm(s):
    return s.replace("_", "").lower()


def enum_body(ds, e, o, cxx):
    """names of the variants in order, as emitted, plus the scope to reach them"""
    n = o["prefix"] + e["name"]
    if not e["tagged"]:
        d = [x for x in ds if x["kind"] == "enum" and (x["name"] == n or x.get("tag") == n)]
        body = d[0]["body"] if len(d) == 1 else None
        scope = n + "::"
    elif not cxx:
        d = [x for x in ds if x["kind"] == "enum" and (x["name"] == n + "_Tag" or x.get("tag") == n + "_Tag")]
        body, scope = (d[0]["body"] if len(d) == 1 else None), ""
    else:
        d = [x for x in ds if x["kind"] in ("struct", "union") and x["name"] == n]
        body = None
        scope = n + "::Tag::"
        if len(d) == 1:
            t = d[0]["body"]
            for i in range(len(t) - 2):
                if t[i] == "enum" and "Tag" in t[i + 1:i + 3]:
                    j = t.index("{", i)
                    body = hdr.brace_body(t[j:])
                    break
    if body is None:
        return None, None
    names = []
    for part in hdr.split_top([x for x in body if not x.startswith("#")], ","):
        if part:
            names.append(part[0])
    return names, scope if cxx else ""


def check(case, ctx):
    d = ctx.fresh()
    src = render(case)
    o = case["o"]
    cxx = o["lang"] == "cxx"
    rl = ""
    for e in case["enums"]:
        prim = [r for r in e["repr"] if r != "C"]
        prim = prim[0] if prim else "i32"
        for v in e["variants"]:
            if e["tagged"]:
                ctor = {"": "", "(u8)": "(0)", "(u32, i8)": "(0, 0)", " { x: u16 }": " { x: 0 }"}[v["pay"]]
                rl += "{ let x = %s::%s%s; let t = unsafe { *(&x as *const %s as *const %s) }; println!(\"{} {}\", ((t as i128) < 0) as u8, t as u64); }\n" % (e["name"], v["name"], ctor, e["name"], prim)
            else:
                rl += "{ let t = %s::%s as %s; println!(\"{} {}\", ((t as i128) < 0) as u8, t as u64); }\n" % (e["name"], v["name"], "isize" if prim == "i32" else prim)
    rout = cc.rust_run(d, src + "fn main() {\n%s}\n" % rl)
    cfg = {"language": "C++" if cxx else "C", "enum": {"enum_class": o["enum_class"], "prefix_with_name": o["prefix_with_name"], "add_sentinel": o["sentinel"]}}
    cfg.update(cc.CXX_INC)
    if o["rename"]:
        cfg["enum"]["rename_variants"] = o["rename"]
    if o["prefix"]:
        cfg["export"] = {"prefix": o["prefix"]}
    if cxx:
        cfg["const"] = {"allow_constexpr": o["cxxconst"]}
    else:
        cfg["style"] = o["style"]
        cfg["cpp_compat"] = o["cpp_compat"]
    h = cc.bindgen(ctx, d, src, cfg, out="out.h")
    ds = hdr.decls(h)
    body = ""
    want = rout.split("\n")
    k = 0
    exp = []
    for e in case["enums"]:
        names, scope = enum_body(ds, e, o, cxx)
        if names is None:
            cc.fail("no unique definition of enum %s" % e["name"], src, cfg, h)
        nv = len(e["variants"])
        if len(names) != nv + (1 if o["sentinel"] else 0):
            cc.fail("enum %s has %d variants in the header, expected %d%s" % (e["name"], len(names), nv, " and a sentinel" if o["sentinel"] else ""), src, cfg, h)
        for v, nm in zip(e["variants"], names):
            if not norm(nm).endswith(norm(v["name"])):
                cc.fail("variant %s of %s appears as %s" % (v["name"], e["name"], nm), src, cfg, h)
        for nm in names:
            x = scope + nm
            if cxx:
                body += "{ typedef decltype(%s) E; auto t = (__underlying_type(E))%s; printf(\"%%d %%llu\\n\", t < 0, (unsigned long long)t); }\n" % (x, x)
            else:
                body += "printf(\"%%d %%llu\\n\", (%s) < 0, (unsigned long long)(%s));\n" % (x, x)
        exp += want[k:k + nv]
        k += nv
        if o["sentinel"]:
            if not norm(names[-1]).endswith("sentinel"):
                cc.fail("the sentinel of %s is called %s" % (e["name"], names[-1]), src, cfg, h)
            v = e["last"] + 1 if e["variants"] else 0
            exp.append("%d %d" % (v < 0, v % 2 ** 64))
        ctx.label("tagged" if e["tagged"] else "fieldless", "repr:" + ",".join(e["repr"]))
        ds_ = [bool(v.get("disc")) for v in e["variants"]]
        ctx.nontrivial(any(ds_) and not all(ds_))
    jobs = [(cxx, "p")]
    if not cxx and o["cpp_compat"]:
        jobs.append((True, "p2"))
    for x, nm in jobs:
        if nm == "p2" and any(e["tagged"] for e in case["enums"]):
            pass
        b2 = body
        if nm == "p2":
            b2 = body.replace("< 0", "< 0")
        prog = '#include "out.h"\n#include <stdio.h>\nint main(void) {\n%sreturn 0; }\n' % b2
        p = cc.cc_exe(d, nm, prog, cxx=x)
        if p.returncode != 0:
            cc.fail("the variants cannot be used in %s" % ("C++" if x else "C"), src, cfg, h, p.stderr[:2000])
        out = vp.run(["./" + nm], cwd=d).stdout.split("\n")
        if out[:-1] != exp:
            cc.fail("discriminants (sign, value) in the header: %s\nin Rust: %s" % (out[:-1], exp), src, cfg, h)
        ctx.evaluated(len(exp))
    ctx.label("lang:" + o["lang"])
