"""C21: bitflags! declarations - flag values and operators."""
import glob, os, re
from hypothesis import strategies as st
import cc, rs, vp
import c05
from c05 import Ev, WID, INTS, expr, rtext, cconv

PROP = "C21"
N = {"quick": 1000, "thorough": 24000}
RULE = ("case = up to 3 bitflags! declarations (1.x syntax with .bits, 2.x struct, out-of-line tuple struct or transparent struct, any integer type, any position of the macro, documented flags, unnamed flags, bitflags::bitflags! path) with flag expressions over literals "
        "in every spelling, shifts, complements, arithmetic, casts and earlier flags, x C / C++ (constexpr, static const, macros, in-body constants) x prefix; a probe prints every flag and must agree with a Rust program built on the real bitflags crate, "
        "and for generated bit patterns the C++ operators |, &, ^, ~, |=, &=, ^= and bool must compute the operation on the bits. Parts: flags; off = with macro_expansion.bitflags off nothing of the declaration appears. "
        "non-trivial = some flag refers to another flag or nests operators")
ASSUMPTIONS = ["expressions whose C reading is evaluated at int width and so differs from the Rust value for types narrower than 64 bits (KF-C21-1, e.g. u32: !0 >> 4) are not generated", "struct.rename_fields is not combined with references to other flags (KF-C05-3)"]
B = st.booleans()
S = st.sampled_from
SHIM = """
macro_rules! bitflags { ( $(#[$m:meta])* $v:vis struct $N:ident : $T:ty { $( $(#[$fm:meta])* const $F:tt = $e:expr; )* } ) => {
    $(#[$m])* #[derive(Copy, Clone)] $v struct $N { pub bits: $T }
    impl $N { pub const fn bits(&self) -> $T { self.bits } }
    $( bitflags!(@one $N $F $e); )*
};
  (@one $N:ident _ $e:expr) => {};
  (@one $N:ident $F:ident $e:expr) => { impl $N { pub const $F: $N = $N { bits: $e }; } };
}
"""


class FEv(Ev):
    """literals of 64-bit flag sets are written at their own width"""

    def __init__(self, env, wide):
        super().__init__(True, env)
        self.wide = wide
        self.evs = []

    def c(self, e):
        if e[0] == "lit" and self.wide and not e[4]:
            return (64, self.wide[0] == "i", e[2])
        return super().c(e)


@st.composite
def decl(draw, i):
    form = draw(S(["two", "two", "one", "out", "outtr", "tr"]))
    t = draw(S(["u8", "u16", "u32", "u64"] + INTS))
    env = {}
    ev = FEv(env, t if WID[t] == 64 else None)
    flags = []
    for k in range(draw(st.integers(0 if form != "one" else 1, 6))):
        kind = draw(S(["shift", "shift", "lit", "expr", "expr", "combo", "combo", "not", "all"]))
        lo, hi = c05.rng(t)
        if kind == "shift":
            e = ["bin", t, "<<", ["lit", t, 1, "d", draw(S([False, False, True]))], ["lit", "i32", draw(st.integers(0, WID[t] - (2 if t[0] == "i" else 1))), "d", False]]
        elif kind == "lit":
            e = c05.lit(draw, t)
        elif kind == "combo" and env:
            e = ["ref", draw(S(sorted(env)))]
            for _ in range(draw(st.integers(1, 3))):
                e = ["bin", t, draw(S(["|", "|", "&", "^"])), e, ["ref", draw(S(sorted(env)))]]
        elif kind == "not" and env:
            e = ["not", t, ["ref", draw(S(sorted(env)))]]
        elif kind == "all":
            e = ["not", t, ["lit", t, 0, "d", False]]
        else:
            e = expr(draw, ev, t, draw(st.integers(1, 3)))
        if not ev.ok(e, t):
            e = ["lit", t, k, "d", False]
        name = "FL%d_%s" % (k, draw(S(["A", "Bc", "MIXED"])))
        ref = {"one": "%s::%s.bits", "two": "%s::%s.bits()"}.get(form, "%s::%s.bits()") % (draw(S(["Self", "Fs%d" % i])), name)
        env[ref] = (t, ev.r(e), None, None)
        flags.append({"name": name, "e": e, "doc": draw(B)})
        if draw(st.integers(0, 6)) == 0:
            flags.append({"name": "_", "e": ["not", t, ["lit", t, 0, "d", False]], "doc": draw(B)})
            if len([f for f in flags if f["name"] == "_"]) > 1:
                flags.pop()
    return {"form": form, "t": t, "flags": flags, "doc": draw(B), "early": draw(B), "path": draw(B)}


@st.composite
def cases(draw):
    ds = [draw(decl(i)) for i in range(draw(st.integers(1, 3)))]
    pats = [draw(st.one_of(S([0, 1, 2**64 - 1, 0x8000000080008080]), st.integers(0, 2**64 - 1))) for _ in range(4)]
    return {"decls": ds, "mode": draw(S(["c", "c", "constexpr", "constexpr", "static", "cxxdef", "inbody"])), "prefix": draw(S([None, None, "Pf"])), "style": draw(S(["both", "type"])), "pats": pats, "args": draw(S([None, None, "CamelCase", "prefix:m_"]))}


def macro(i, d, real):
    t = "bitflags::bitflags" if d["path"] and d["form"] != "one" and real else "bitflags"
    s = "%s! {\n" % t
    if d["form"] in ("out", "outtr"):
        s += "    impl Fs%d: %s {\n" % (i, d["t"])
    else:
        s += ("    /// Flags %d\n" % i if d["doc"] else "") + "    #[repr(%s)]\n    %spub struct Fs%d: %s {\n" % ("transparent" if d["form"] == "tr" else "C", "#[derive(Clone, Copy)]\n    " if d["form"] != "one" else "", i, d["t"])
    for f in d["flags"]:
        s += ("        /// doc of the flag\n" if f["doc"] else "") + "        const %s = %s;\n" % (f["name"], rtext(f["e"]))
    return s + "    }\n}\n"


def source(case, form_ok, real):
    s = ""
    for i, d in enumerate(case["decls"]):
        if not form_ok(d["form"]):
            continue
        m = macro(i, d, real)
        if d["form"] in ("out", "outtr"):
            st_ = "#[repr(%s)]\n#[derive(Clone, Copy)]\npub struct Fs%d(%s);\n" % ("transparent" if d["form"] == "outtr" else "C", i, d["t"])
            s += m + st_ if d["early"] else st_ + m
        else:
            s += m
    return s


def prepare(ctx):
    """the real bitflags crate, if its source is at hand"""
    ctx.shared["bitflags"] = None
    for src in sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/bitflags-2.*/src/lib.rs")) + glob.glob("/root/.cargo/registry/src/*/bitflags-2.*/src/lib.rs")):
        out = os.path.join(vp.BUILD, "libbitflags.rlib")
        os.makedirs(vp.BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        p = vp.run([vp.rustc_path(), "--edition", "2021", "--crate-type=rlib", "--crate-name=bitflags", "-Awarnings", "-o", tmp, src], cwd="/")
        if p.returncode == 0:
            os.replace(tmp, out)
            ctx.shared["bitflags"] = out
            break


def has_ref(e):
    return isinstance(e, list) and (e[:1] == ["ref"] or any(has_ref(x) for x in e))


def check(case, ctx):
    d = ctx.fresh()
    real = ctx.shared.get("bitflags")
    new = lambda f: f != "one"
    src = rs.RUST_HEAD + source(case, lambda f: True, True) + '#[no_mangle] pub extern "C" fn use_flags(%s) {}\n' % ", ".join("a%d: Fs%d" % (i, i) for i in range(len(case["decls"])))
    mode = case["mode"]
    cxx = mode != "c"
    pf = case["prefix"] or ""
    cfg = {"language": "C++" if cxx else "C", "macro_expansion": {"bitflags": True}, "const": {}, "struct": {}}
    if case.get("rf"):                  # only in a known finding (KF-C05-3)
        cfg["struct"]["rename_fields"] = case["rf"]
    cfg.update(cc.CXX_INC)
    if pf:
        cfg["export"] = {"prefix": pf}
    if case["args"]:
        cfg["fn"] = {"rename_args": case["args"]}
    if not cxx:
        cfg["style"] = case["style"]
    if mode == "static":
        cfg["const"] = {"allow_constexpr": False}
    elif mode == "cxxdef":
        cfg["const"] = {"allow_constexpr": False, "allow_static_const": False}
    elif mode == "inbody":
        cfg["struct"]["associated_constants_in_body"] = True
    # Rust values
    rl, cl, ops = "", "", ""
    n = 0
    interesting = False
    for i, dc in enumerate(case["decls"]):
        tr = dc["form"] in ("tr", "outtr")
        fld = "_0" if dc["form"] == "out" else "m_bits" if case.get("rf") else "bits"
        ct = rs.PRIMS[dc["t"]]
        for f in dc["flags"]:
            if f["name"] == "_":
                continue
            rl += 'println!("%d {}", (Fs%d::%s.bits() as i128) as u64);\n' % (n, i, f["name"])
            nm = "%sFs%d%s%s" % (pf, i, "::" if mode == "inbody" and not tr else "_", f["name"])
            cl += 'printf("%d %%llu\\n", (unsigned long long)(%s));\n' % (n, nm if tr else nm + "." + fld)
            n += 1
            interesting |= has_ref(f["e"]) or c05.depth(f["e"]) >= 2
        # size and (in C++) operators
        cl += 'if (sizeof(%sFs%d) != sizeof(%s)) printf("SIZE %d\\n");\n' % (pf, i, ct, i)
        if not tr:
            cl += '{ %sFs%d v = { (%s)3 }; %s w = v.%s; if (w != 3) printf("FIELD %d\\n"); }\n' % (pf, i, ct, ct, fld, i)
        if cxx and not tr:
            F = "%sFs%d" % (pf, i)
            for a in case["pats"]:
                ops += "{ const %s a = { (%s)%dull }; if (bool(a) != (a.%s != 0)) printf(\"BOOL %d\\n\"); if ((~a).%s != (%s)(~(%s)%dull)) printf(\"NOT %d\\n\"); }\n" % (F, ct, a, fld, i, fld, ct, ct, a, i)
                for b in case["pats"]:
                    for o in "|&^":
                        ops += "{ const %s a = { (%s)%dull }, b = { (%s)%dull }; %s c = a; %s want = (%s)((%s)%dull %s (%s)%dull); if ((a %s b).%s != want) printf(\"OP%s %d\\n\"); %s &r = (c %s= b); if (c.%s != want || &r != &c) printf(\"ASSIGN%s %d\\n\"); }\n" % (
                            F, ct, a, ct, b, F, ct, ct, ct, a, o, ct, b, o, fld, o, i, F, o, fld, o, i)
    rsrc = ""
    if any(x["form"] == "one" for x in case["decls"]) or not real:
        rsrc += "#[macro_use] mod shim {\n" + SHIM + "}\n" if False else ""
    rtop = rs.RUST_HEAD
    ones = [k for k, x in enumerate(case["decls"]) if x["form"] == "one"]
    if real:
        body = "use bitflags::bitflags;\n" + source(case, new, True)
        if ones:
            body += "pub mod old { %s %s }\nuse old::*;\n" % (SHIM, source(case, lambda f: f == "one", False))
        rout = rust_run(d, rtop + body + "\nfn main() {\n%s}\n" % rl, real)
    else:
        # without the crate: every declaration through the shim
        body = SHIM
        for k, x in enumerate(case["decls"]):
            body += macro(k, dict(x, form="two" if x["form"] != "one" else "one", path=False), False)
        rout = cc.rust_run(d, rtop + body.replace("#[repr(transparent)]", "#[repr(C)]").replace("#[derive(Clone, Copy)]", "") + "\nfn main() {\n%s}\n" % rl)
    h = cc.bindgen(ctx, d, src, cfg, out="out.h")
    prog = '#include "out.h"\n#include <stdio.h>\nint main(void) {\n%s%sreturn 0;\n}\n' % (cl, ops)
    p = cc.cc_exe(d, "cprobe", prog, cxx=cxx)
    if p.returncode != 0:
        cc.fail("flags in the %s header (%s) cannot be used" % (cfg["language"], mode), src, cfg, h, p.stderr[:3000])
    r = vp.run(["./cprobe"], cwd=d)
    if r.returncode != 0 or r.stdout.split() != rout.split():
        diff = [(a, b) for a, b in zip(rout.split("\n"), r.stdout.split("\n")) if a != b][:6]
        cc.fail("flags differ between Rust and the %s header (%s): (rust, c) = %s %s" % (cfg["language"], mode, diff, r.stdout[-300:] if not diff else ""), src, cfg, h)
    for i, dc in enumerate(case["decls"]):
        if re.search(r"\b%sFs%d(_|::)_\b" % (pf, i), h):
            cc.fail("an unnamed flag appears in the header", src, cfg, h)
    ctx.evaluated(n)
    ctx.label("mode:" + mode, *["form:" + x["form"] for x in case["decls"]], *["int:" + x["t"] for x in case["decls"]])
    ctx.nontrivial(interesting)


def rust_run(d, src, lib):
    vp.write(os.path.join(d, "probe.rs"), src)
    p = vp.run([vp.rustc_path(), "--edition", "2021", "-Awarnings", "-Cdebuginfo=0", "-Ccodegen-units=1", "-Clink-arg=-fuse-ld=lld", "--crate-name", "probe", "--extern", "bitflags=" + lib, "-o", "probe", "probe.rs"], cwd=d)
    if p.returncode != 0:
        if os.environ.get("VP_DEBUG"):
            print(p.stderr[:3000], src)
        raise vp.Discard("rustc rejects: " + (re.findall(r"error(?:\[E\d+\])?: .*", p.stderr) or ["?"])[0])
    r = vp.run(["./probe"], cwd=d)
    if r.returncode != 0:
        raise vp.HarnessError("rust probe failed: " + r.stderr[-500:])
    return r.stdout


def check_off(case, ctx):
    d = ctx.fresh()
    src = rs.RUST_HEAD + source(case, lambda f: f in ("one", "two", "tr"), True) + '#[no_mangle] pub extern "C" fn other(a: u8) {}\n#[repr(C)] pub struct Plain { a: u8 }\n#[no_mangle] pub extern "C" fn plain(a: *const Plain) {}\n'
    cfg = {"language": "C" if case["mode"] == "c" else "C++"}
    if case["style"] == "both":
        cfg["macro_expansion"] = {"bitflags": False}
    h = cc.bindgen(ctx, d, src, cfg)
    if re.search(r"\b(Fs\d|FL\d)", h) or "Plain" not in h or "other(" not in h:
        cc.fail("bitflags! is expanded although macro_expansion.bitflags is off", src, cfg, h)
    ctx.label("off")
    ctx.evaluated(1)
    ctx.nontrivial(any(x["form"] in ("one", "two", "tr") for x in case["decls"]))


def strategies(tier):
    return [("flags", cases(), check, 95), ("off", cases(), check_off, 5)]
