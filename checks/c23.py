"""C23: the frame of the header (header, guard, includes, namespaces, extern "C", trailer, ...) is exactly the configured one, around unchanged declarations."""
import json, os, re
from hypothesis import strategies as st
import cc, hdr, vp

PROP = "C23"
N = {"quick": 8000, "thorough": 160000}
RULE = ("case = any subset of 14 program fragments (constants, statics, functions, cfg'd functions, structs, opaque types, unions, fieldless and tagged enums, generics, aliases; also none) x any subset of the framing options (header, trailer, include guard, pragma once, "
        "include_version, package_version, autogen_warning, no_includes, sys_includes, includes, after_includes, namespace, namespaces, using_namespaces, cpp_compat, cython.header, cython.cimports) x C (three styles) / C++ / Cython, from a file or a crate; "
        "the non-blank lines must be exactly the modelled frame around the lines of the header generated without framing options; the extern \"C\" region must hold exactly the functions and statics; the C reading of a cpp_compat header must be the header without cpp_compat; "
        "a sample is compiled (twice included when guarded; functions named through their namespaces) and given to cython. non-trivial = at least four framing options are set and at least two fragments are used")
ASSUMPTIONS = ["blank lines are not significant"]
B = st.booleans()
S = st.sampled_from

FRAG = {
    "const": "pub const CONST_A: u32 = 5;\n",
    "constf": "#[cfg(feat_a)]\npub const CONST_F: f64 = 1.5;\n",
    "sconst": "#[repr(C)] pub struct SFor { pub a: u8 }\nimpl SFor { pub const ASSOC: u32 = 7; }\npub const SCONST: SFor = SFor { a: 3 };\n",
    "static": "#[no_mangle] pub static STATIC_A: i32 = 4;\n",
    "staticm": "#[no_mangle] pub static mut STATIC_M: *const u8 = 0 as *const u8;\n",
    "fn": "/// Documented.\n#[no_mangle] pub extern \"C\" fn func_a(a: u32, b: *const u8) -> i32 { 0 }\n",
    "fncfg": "#[cfg(feat_b)]\n#[no_mangle] pub extern \"C\" fn func_cfg(a: u32) {}\n",
    "fnstruct": "#[repr(C)] pub struct SArg { pub x: f32, pub y: u16 }\n#[no_mangle] pub extern \"C\" fn func_s(s: SArg, cb: Option<extern \"C\" fn(u8)>) {}\n",
    "opaque": "pub struct Opq { v: Vec<u8> }\n#[no_mangle] pub extern \"C\" fn func_o(o: *mut Opq) {}\n",
    "union": "#[repr(C)] pub union Uni { pub a: u32, pub b: f32 }\n#[no_mangle] pub static mut STATIC_U: Uni = Uni { a: 0 };\n",
    "enum": "#[repr(u8)] pub enum En { EnA, EnB = 9 }\n#[no_mangle] pub extern \"C\" fn func_e(e: En) {}\n",
    "tagged": "#[repr(C, u16)] pub enum Tg { TgA(u32), TgB { x: u8 }, TgC }\n#[no_mangle] pub extern \"C\" fn func_t(e: Tg) {}\n",
    "generic": "#[repr(C)] pub struct Gen<T> { pub g: T }\n#[no_mangle] pub extern \"C\" fn func_g(g: Gen<u16>) {}\n",
    "alias": "/// An alias.\npub type Ali = *const u64;\n#[no_mangle] pub extern \"C\" fn func_al(a: Ali) {}\n",
}
LINKED = {"static": ["STATIC_A"], "staticm": ["STATIC_M"], "fn": ["func_a"], "fncfg": ["func_cfg"], "fnstruct": ["func_s"], "opaque": ["func_o"], "union": ["STATIC_U"], "enum": ["func_e"], "tagged": ["func_t"], "generic": ["func_g"], "alias": ["func_al"]}
TEXTS = {"C": ["/* text */", "// one line", "/* two\n   lines */", "/* a\n\n\n b */", "#define VP_MACRO_%s 1", "/* {} %%s \\n */", "\n/* leading newline */", "/* trailing newline */\n", "/* é */", "  /* indented */", "/* }  // extern \"C\" */"],
         "Cython": ["# text", "# two\n# lines", "'''doc'''", "# {} %%s", "\n# leading", "# trailing\n", "# é"]}

CIMPORTS = {"libc.math": ["sin", "cos", "tan"], "libc.stdio": ["printf", "puts"], "libc.stdlib": ["malloc", "free", "abort"]}


@st.composite
def cases(draw):
    lang = draw(S(["C", "C", "C++", "C++", "Cython"]))
    frags = draw(st.lists(S(sorted(FRAG)), max_size=6, unique=True))
    texts = TEXTS["Cython" if lang == "Cython" else "C"]
    cfg = {}
    full = draw(B)

    def opt(p=2):
        return draw(B) if full else draw(st.integers(0, p + 1)) == 1
    for k in ("header", "trailer", "autogen_warning", "after_includes"):
        if opt():
            t = draw(S(texts))
            cfg[k] = t.replace("%s", k.upper()) if "VP_MACRO" in t else t
    if opt():
        cfg["include_guard"] = draw(S(["GUARD_H", "my_guard_h_", "G"]))
    for k in ("pragma_once", "include_version", "no_includes", "cpp_compat"):
        if opt():
            cfg[k] = True
    if opt():
        cfg["sys_includes"] = draw(st.lists(S(["stdio.h", "math.h", "limits.h", "sys/types.h"]), max_size=3, unique=True))
    if opt():
        cfg["includes"] = draw(st.lists(S(["inc_a.h", "inc_b.h", "dir/inc_c.h"]), max_size=3, unique=True))
    if opt():
        cfg["namespace"] = draw(S(["ns_one", "outer::inner", "q"]))
    if opt():
        cfg["namespaces"] = draw(st.lists(S(["na", "nb", "ns_one", "deep::er"]), max_size=3))
    if opt():
        cfg["using_namespaces"] = draw(st.lists(S(["ua", "ub", "ua::uc"]), max_size=3, unique=True))
    if opt():
        cfg["usize_is_size_t"] = True
    if opt():
        cfg["enum"] = {k: True for k in draw(st.lists(S(["derive_const_casts", "derive_mut_casts", "derive_helper_methods"]), unique=True, max_size=3))}
        if draw(st.integers(0, 3)) == 0:
            cfg["enum"]["cast_assert_name"] = "MY_ASSERT"
    if opt():
        cfg["cython"] = {}
        if draw(B):
            cfg["cython"]["header"] = draw(S(['"my_header.h"', '"<sys.h>"', "*"]))
        if draw(B):
            cfg["cython"]["cimports"] = {m: draw(st.lists(S(CIMPORTS[m]), min_size=1, max_size=3, unique=True)) for m in draw(st.lists(S(sorted(CIMPORTS)), max_size=3, unique=True))}
    crate = draw(st.integers(0, 15)) == 7
    case = {"lang": lang, "style": draw(S(["both", "tag", "type"])), "frags": frags, "cfg": cfg, "crate": crate, "defs": draw(B), "probe": draw(st.integers(0, 39 if lang != "Cython" else 79)) == 17}
    if draw(st.integers(0, 9)) == 4:
        cfg["line_endings"] = draw(S(["LF", "CR", "CRLF"]))
    if crate:
        case["version"] = draw(S(["0.1.0", "12.34.56", "1.0.0-alpha.1", "2.0.1+build.5"]))
        case["pv"] = draw(S([None, "cfg", "cli"]))
    return case


def lines(h, le="LF"):
    if le == "CR":
        h = h.replace("\r", "\n")
    return [x.rstrip("\r") for x in h.split("\n") if x.strip()]


def text(t):
    return [x for x in t.split("\n") if x.strip()]


def run(case, cfg, ctx, d, src, out, args=()):
    if case["crate"]:
        if not os.path.exists(os.path.join(d, "Cargo.toml")):
            vp.write(os.path.join(d, "Cargo.toml"), '[package]\nname = "vp-frame"\nversion = "%s"\nedition = "2021"\n[workspace]\n' % case["version"])
            vp.write(os.path.join(d, "src/lib.rs"), src)
        vp.write(os.path.join(d, out + ".toml"), cc.toml(cfg))
        p = ctx.bindgen(d, ["-q", "-c", out + ".toml", "-o", out] + list(args) + ["--crate", "vp-frame", "."])
        if p.returncode != 0:
            cc.fail("cbindgen failed (exit %d): %s" % (p.returncode, p.stderr[-2000:]), src, cfg)
        return vp.read(os.path.join(d, out))
    return cc.bindgen(ctx, d, src, cfg, out=out)


def c_reading(ls, cplusplus):
    """lines with the conditions on __cplusplus decided; other conditions are kept"""
    out, stack = [], []
    for x in ls:
        s = x.strip()
        m = re.match(r"#\s*(ifdef|ifndef|if|elif|else|endif)\b\s*(.*)", s)
        if m:
            k, c = m.group(1), m.group(2)
            if k in ("ifdef", "ifndef") and c.split("//")[0].strip() == "__cplusplus":
                stack.append((k == "ifdef") == cplusplus)
                continue
            if k == "if" and c.startswith("defined(__cplusplus) || "):
                if cplusplus:
                    stack.append(True)
                    continue
                x = "#if " + c[len("defined(__cplusplus) || "):]
            if k in ("ifdef", "ifndef", "if"):
                stack.append(None)
            elif k == "else" and stack and stack[-1] is not None:
                stack[-1] = not stack[-1]
                continue
            elif k == "endif":
                if not stack:
                    return None
                if stack.pop() is not None:
                    continue
        if all(x is not False for x in stack):
            out.append(x)
    return out if not stack else None


def region(ls, case, src, cfg, h):
    """checks the extern "C" region of a C++ reading; -> index of the opening line or None"""
    names = [n for f in case["frags"] for n in LINKED.get(f, [])]
    opens = [i for i, x in enumerate(ls) if x.strip() == 'extern "C" {']
    closes = [i for i, x in enumerate(ls) if x.strip() == '}  // extern "C"']
    if not names:
        if opens or closes:
            cc.fail('an extern "C" region without anything in it', src, cfg, h)
        return None
    if len(opens) != 1 or len(closes) != 1 or opens[0] > closes[0]:
        cc.fail('not exactly one extern "C" region', src, cfg, h)
    for n in names:
        at = [i for i, x in enumerate(ls) if re.search(r"\b%s\b" % n, x) and not x.strip().startswith(("//", "*", "/*"))]
        if len(at) != 1 or not opens[0] < at[0] < closes[0]:
            cc.fail('%s is not declared once inside the extern "C" region' % n, src, cfg, h)
    depth = sum(x.count("{") - x.count("}") for x in ls[opens[0] + 1:closes[0]])
    if depth:
        cc.fail('the extern "C" region is unbalanced', src, cfg, h)
    return opens[0]


def model(case, base, version, ctxv):
    c, lang = case["cfg"], case["lang"]
    cy, cxx = lang == "Cython", lang == "C++"
    compat = lang == "C" and c.get("cpp_compat")
    L = []
    if case.get("pv"):
        L.append(("''' Package version: %s '''" if cy else "/* Package version: %s */") % version)
    L += text(c.get("header", ""))
    if not cy and "include_guard" in c:
        L += ["#ifndef " + c["include_guard"], "#define " + c["include_guard"]]
    if not cy and c.get("pragma_once"):
        L.append("#pragma once")
    if c.get("include_version"):
        L.append(("''' Generated with cbindgen:%s '''" if cy else "/* Generated with cbindgen:%s */") % ctxv)
    L += text(c.get("autogen_warning", ""))
    if not c.get("no_includes"):
        if cy:
            L += ["from libc.stdint cimport int8_t, int16_t, int32_t, int64_t, intptr_t", "from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t, uintptr_t", "cdef extern from *:", "  ctypedef bint bool", "  ctypedef struct va_list"]
        elif cxx:
            L += ["#include <cstdarg>"] + (["#include <cstddef>"] if c.get("usize_is_size_t") else []) + ["#include <cstdint>", "#include <cstdlib>", "#include <ostream>", "#include <new>"]
            e = c.get("enum", {})
            if (e.get("derive_mut_casts") or e.get("derive_const_casts")) and "cast_assert_name" not in e:
                L.append("#include <cassert>")
        else:
            L += ["#include <stdarg.h>", "#include <stdbool.h>"] + (["#include <stddef.h>"] if c.get("usize_is_size_t") else []) + ["#include <stdint.h>", "#include <stdlib.h>"]
    if cy:
        for m, ns in sorted(c.get("cython", {}).get("cimports", {}).items()):
            L.append("from %s cimport %s" % (m, ", ".join(ns)))
    else:
        L += ["#include <%s>" % x for x in c.get("sys_includes", [])]
        L += ['#include "%s"' % x for x in c.get("includes", [])]
    L += text(c.get("after_includes", ""))
    if cy:
        L.append("cdef extern from %s:" % c.get("cython", {}).get("header", "*"))
        L += base[1:]
    else:
        ns = namespaces(case)
        if ns:
            L += (["#ifdef __cplusplus"] if compat else []) + ["namespace %s {" % n for n in ns] + (["#endif  // __cplusplus"] if compat else [])
        for x in base:
            if cxx and x == 'extern "C" {':
                L += ["using namespace %s;" % u for u in c.get("using_namespaces", [])]
            L.append(x)
        if ns:
            L += (["#ifdef __cplusplus"] if compat else []) + ["}  // namespace %s" % n for n in reversed(ns)] + (["#endif  // __cplusplus"] if compat else [])
        if "include_guard" in c:
            L.append(("#endif  /* %s */" if lang == "C" else "#endif  // %s") % c["include_guard"])
    return L + text(c.get("trailer", ""))


def namespaces(case):
    c = case["cfg"]
    if case["lang"] == "C++" or case["lang"] == "C" and c.get("cpp_compat"):
        return ([c["namespace"]] if "namespace" in c else []) + c.get("namespaces", [])
    return []


VERSION = []


def check(case, ctx):
    d = ctx.fresh()
    lang, c = case["lang"], case["cfg"]
    src = "".join(FRAG[f] for f in case["frags"])
    inner = {"language": lang, "no_includes": True}
    if lang != "C++":
        inner["style"] = case["style"]
    if case["defs"]:
        inner["defines"] = {"feat_a": "FEAT_A", "feat_b": "FEAT_B"}
    for k in ("usize_is_size_t", "enum"):
        if k in c:
            inner[k] = c[k]
    cfg = dict(json.loads(json.dumps(c)), **inner)
    if not c.get("no_includes"):
        del cfg["no_includes"]
    args = []
    if case.get("pv") == "cfg":
        cfg["package_version"] = True
    elif case.get("pv") == "cli":
        args = ["--package-version"]
    if c.get("cpp_compat"):
        inner["cpp_compat"] = True
    if not VERSION:
        VERSION.append(ctx.bindgen(d, ["--version"]).stdout.split()[-1])
    h0 = run(case, inner, ctx, d, src, "base.h")
    h1 = run(case, cfg, ctx, d, src, "full.h", args)
    le = c.get("line_endings", "LF")
    base, got = lines(h0), lines(h1, le)
    want = model(case, base, case.get("version"), VERSION[0])
    for i in range(max(len(want), len(got))):
        w, g = (x[i] if i < len(x) else None for x in (want, got))
        if w != g:
            cc.fail("frame: line %d should be %r but is %r" % (i + 1, w, g), src, cfg, h1, "without framing options:\n" + h0)
    for k in ("header", "trailer", "autogen_warning", "after_includes"):
        if k in c and c[k].strip("\n") not in h1.replace("\r\n", "\n"):
            cc.fail("the %s text is not reproduced verbatim" % k, src, cfg, h1)
    n = len(want)
    # extern "C"
    if lang == "C++":
        region(base, case, src, inner, h0)
    elif lang == "C" and c.get("cpp_compat"):
        asc, ascxx = c_reading(base, False), c_reading(base, True)
        if asc is None or ascxx is None:
            cc.fail("unbalanced conditions", src, inner, h0)
        region(ascxx, case, src, inner, h0)
        plain = dict(inner)
        del plain["cpp_compat"]
        h2 = run(case, plain, ctx, d, src, "plain.h")
        if hdr_tokens(asc) != hdr_tokens(lines(h2)):
            cc.fail("the C reading of a cpp_compat header differs from the header without cpp_compat", src, inner, h0, h2)
        n += 1
    elif lang == "C" and any('extern "C"' in x for x in base):
        cc.fail('extern "C" in plain C', src, inner, h0)
    if case["probe"]:
        probe(case, ctx, d, src, cfg, h1)
    ctx.evaluated(n)
    ctx.label("lang:" + lang, *["opt:" + k for k in c])
    if case["probe"]:
        ctx.label("compiled:" + lang)
    ctx.nontrivial(len(c) >= 4 and len(case["frags"]) >= 2)


def hdr_tokens(ls):
    t = re.findall(r"/\*.*?\*/|//[^\n]*|\w+|[^\w\s]", "\n".join(ls), re.S)
    return [x for x in t if not x.startswith(("/*", "//"))]


def probe(case, ctx, d, src, cfg, h):
    """accepted by the compilers, twice when guarded, with functions reachable through their namespaces"""
    c, lang = case["cfg"], case["lang"]
    names = [n for f in case["frags"] for n in LINKED.get(f, []) if n != "func_cfg" or not case["defs"]]
    if lang == "Cython":
        if c.get("line_endings") == "CR":
            return
        vp.write(os.path.join(d, "decl.pxd"), ("from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t, uintptr_t, int32_t\n" if c.get("no_includes") else "") + h)
        vp.write(os.path.join(d, "vpm.pyx"), "cimport decl\n")
        p = vp.run(["/usr/bin/cython", "-3", "-E", "FEAT_A=1", "-E", "FEAT_B=0", "vpm.pyx"], cwd=d)
        if p.returncode != 0:
            cc.fail("cython rejects the declarations", src, cfg, h, p.stdout[-1500:] + p.stderr[-2500:])
        return
    for f in c.get("includes", []):
        vp.write(os.path.join(d, f), "/* empty */\n")
    for cxx in ([True] if lang == "C++" else [True, False] if c.get("cpp_compat") else [False]):
        pre = "#include <%s>\n" * 5 % (("cstdint", "cstddef", "cstdarg", "ostream", "new") if cxx else ("stdint.h", "stddef.h", "stdarg.h", "stdbool.h", "stdlib.h"))
        pre += "#define MY_ASSERT(x) ((void)0)\n#include <assert.h>\n"
        if cxx:
            ns = namespaces(case)
            q = "".join(n + "::" for n in ns)
            # the namespaces named in using directives are made known where they are looked up
            for u in c.get("using_namespaces", []):
                pre += "namespace %s {}\n" % u
        else:
            q = ""
        inc = '#include "full.h"\n'
        t = pre + inc + (inc if "include_guard" in c or c.get("pragma_once") else "")
        t += "".join("const void *use_%s = (const void *)&%s%s;\n" % (n, "::" + q if cxx else "", n) for n in names)
        if any("line_endings" == k and c[k] == "CR" for k in c):
            return
        p = cc.compile_c(d, "probe", t, cxx, ["-std=c++17"] if cxx else ["-std=c11"])
        if p.returncode != 0:
            cc.fail("the framed header does not compile as %s" % ("C++" if cxx else "C"), src, cfg, h, p.stderr[-2500:])


def strategy(tier):
    return cases()
