"""C18: the C, C++ and Cython outputs declare the same API; the Cython output works with Cython."""
import os, re
from hypothesis import strategies as st
import cc, vp, gen, rs

PROP = "C18"
N = {"quick": 2000, "thorough": 30000}
RULE = ("case = generated program (structs, unions, fieldless and tagged enums of every repr, transparent structs, aliases, generics, opaque types, functions with pointers/arrays/function pointers/variadics, statics, constants) x style x usize_is_size_t x "
        "prefix_with_name x rename rules. Part 'text': the declarations of the C, C++ and Cython outputs, read by three small parsers into functions (parameters token by token), records (fields in order), enumerators with values, aliases, statics "
        "and constants, must be the same set. Part 'cython': the Cython output is cimported by a generated module, compiled by cython and gcc against the C header, imported, and must report rustc's sizes, enum values and constants. non-trivial = "
        "at least one record and one function with parameters")
ASSUMPTIONS = ["Cython declares the payload of repr(int) variants without the repeated tag and anonymous records flattened (documented in the code: layouts come from the C header)",
               "C++ tagged enums and templates have another shape than in C; they are compared with rustc by C01, C06 and C07, here only the functions using them"]
B = st.booleans()
CONSTS = [("u8", "200"), ("i32", "-5"), ("u64", "18446744073709551615"), ("bool", "true"), ("bool", "false"), ("f64", "1.5"), ("i64", "-9223372036854775807"), ("u32", "1 << 7"), ("i16", "-(3 + 4)"), ("usize", "77")]


@st.composite
def cases(draw, drop=(), items=5):
    p = draw(gen.program(drop=tuple(drop) + ("box", "wrap"), max_items=items, max_fns=2))
    p["style"] = draw(st.sampled_from(["type", "tag", "both"]))
    p["usz"] = draw(B)
    p["pwn"] = draw(B)
    p["rf"] = draw(st.sampled_from([None, None, "PascalCase", "camelCase"]))
    p["rv"] = draw(st.sampled_from([None, None, "ScreamingSnakeCase", "QualifiedScreamingSnakeCase"]))
    p["consts"] = draw(st.lists(st.sampled_from(range(len(CONSTS))), max_size=4, unique=True))
    p["statics"] = draw(st.lists(st.sampled_from(["u8", "[i32; 3]", "*const u8", "Option<extern \"C\" fn(u8) -> i32>"]), max_size=2))
    p["assoc"] = draw(B)
    return p


def strategies(tier):
    return [("text", cases(), check_text, 92), ("cython", cases(("variadic", "zeroarr", "packed", "align"), 4), check_cython, 8)]


def source(case):
    s = rs.rust_program(case["items"])
    for i in case["consts"]:
        s += "pub const KON_%s: %s = %s;\n" % (rs.word(i).upper(), CONSTS[i][0], CONSTS[i][1])
    for i, t in enumerate(case["statics"]):
        s += "#[no_mangle] pub static %s: %s = %s;\n" % ("STAT_" + rs.word(i).upper(), t, {"u": "3", "[": "[1, 2, 3]", "*": "core::ptr::null()", "O": "None"}[t[0]] if True else "")
    st_ = [it for it in case["items"] if it["k"] == "struct" and not it.get("gen") and it.get("repr") != ["transparent"]]
    if case["assoc"] and st_:
        s += "impl %s { pub const ASSO: u32 = 41; }\n" % st_[0]["name"]
    # pointers in statics are not Sync for rustc; the probe only type-checks what cbindgen reads
    return s


def config(case, lang):
    cfg = {"language": lang, "usize_is_size_t": case["usz"], "layout": cc.LAYOUT, "enum": {"prefix_with_name": case["pwn"]}, "struct": {}, "documentation": False, "const": {"allow_static_const": True, "allow_constexpr": False}}
    if lang != "Cython":
        cfg["after_includes"] = cc.ALIGN_DEF
    if lang == "C++":
        cfg.update(cc.CXX_INC)
    else:
        cfg["style"] = "both" if case["style"] == "type" and has_self(case["items"]) else case["style"]
    if case["rf"]:
        cfg["struct"]["rename_fields"] = case["rf"]
    if case["rv"]:
        cfg["enum"]["rename_variants"] = case["rv"]
    if lang == "Cython":
        cfg["cython"] = {"header": '"c.h"'}
    return cfg


def has_self(items):
    return any(x[0] == "path" and x[1] == it["name"] and it["k"] != "fn" for it in items for t in gen.item_types(it) for x in rs.walk(t))


# ------------------------------------------------------------------ readers
TOK = re.compile(r"[A-Za-z_]\w*|\d[\w.]*|\.\.\.|::|\S")


def strip_c(text):
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out, skip, stack = [], 0, []
    for l in text.split("\n"):
        s = l.strip()
        if s.startswith("#if"):
            stack.append("c23" if "__STDC_VERSION__ >=" in s else "other")
        elif s.startswith("#else"):
            stack[-1] = {"c23": "notc23"}.get(stack[-1], stack[-1])
        elif s.startswith("#endif"):
            stack.pop()
        elif "c23" not in stack:
            out.append(l)
    return "\n".join(out)


def norm(toks):
    toks = [t for t in toks if t not in ("struct", "union", "enum", "extern", "__attribute__")]
    s = " ".join(toks)
    s = s.replace("( void )", "( )")
    return s.split()


def name_of(toks):
    """declared name of a declarator"""
    # innermost: identifier after the deepest leading ( * ... or last identifier before [ or (
    i = 0
    s = " ".join(toks)
    m = re.search(r"\( (?:\* (?:const )?)+(?:\( )*(?:\* (?:const )?)*(\w+)", s)
    if m:
        return m.group(1)
    m = re.match(r"^[^\[(]*?(\w+) (?:\[|\(|$)", s + " ")
    m = re.search(r"(\w+)(?= [\[(]|$)", s)
    return m.group(1)


def split_semi(toks):
    """top-level statements of a token list: list of token lists (with nested braces kept)"""
    out, cur, dep = [], [], 0
    for t in toks:
        if t in "{(" and len(t) == 1:
            dep += 1
        elif t in "})" and len(t) == 1:
            dep -= 1
        if t == ";" and dep == 0:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def fields_of(toks, flat):
    """token list of a record body -> list of (name, tokens)"""
    out = []
    for s in split_semi(toks):
        if s[0] in ("struct", "union") and s[1] == "{":
            inner = s[2:s.index("}") if False else len(s) - 1]
            sub = fields_of(inner, flat)
            if s[0] == "struct" and len(sub) == 2 and sub[0][0] == sub[1][0] + "_tag" or s[0] == "struct" and len(sub) == 2 and re.match(r".*_Tag$", sub[0][1][0]):
                sub = sub[1:]
            out += sub
        else:
            out.append((name_of(norm(s)), norm(s)))
    return out


def enumerators(toks):
    out, cur = [], []
    for t in toks + [","]:
        if t == ",":
            if cur:
                out.append((cur[0], " ".join(cur[2:])))
            cur = []
        else:
            cur.append(t)
    return out


def read_c(text, cxx=False):
    r = {"fn": {}, "rec": {}, "enum": {}, "type": {}, "static": {}, "const": {}}
    for m in re.finditer(r"^[ \t]*#define (\w+) (.*)$", text, re.M):
        if m.group(1) != "VP_ALIGNED":
            r["const"][m.group(1)] = m.group(2).strip()
    text = re.sub(r"^[ \t]*#(?:[^\n\\]|\\\n|\\.)*", "", strip_c(text), flags=re.M)
    text = re.sub(r"__attribute__\(\((packed|aligned\(\d+\))\)\)|VP_ALIGNED\(\d+\)", "", text)
    text = text.replace('extern "C" {', "").replace("constexpr ", "")
    toks = TOK.findall(text)
    # drop the brace that closes extern "C"
    if cxx:
        dep = 0
        keep = []
        for t in toks:
            dep += (t == "{") - (t == "}")
            if dep < 0:
                dep = 0
                continue
            keep.append(t)
        toks = keep
    if cxx:
        # statements: records end with "} ;"
        pass
    for s in split_semi(toks):
        td = s[0] == "typedef"
        b = s[1:] if td else s
        tmpl = b[0] == "template"
        if tmpl:
            i = 0
            dep = 0
            for i, t in enumerate(b):
                dep += (t == "<") - (t == ">")
                if t == ">" and dep == 0:
                    break
            b = b[i + 1:]
        if b[0] in ("struct", "union", "enum") and "{" in b:
            o = b.index("{")
            dep = 0
            for c in range(o, len(b)):
                dep += (b[c] == "{") - (b[c] == "}")
                if dep == 0:
                    break
            head = [x for x in b[1:o] if x != "class"]
            nm = head[0] if head else b[c + 1]
            body = b[o + 1:c]
            if b[0] == "enum":
                r["enum"][nm] = enumerators(body)
                if cxx and ":" in head:
                    r["enum_ty"] = 1
            elif cxx and (tmpl or any(t in ("enum",) for t in body)):
                r["rec"][nm] = None
            else:
                body2 = body
                r["rec"][nm] = [f for f in fields_of(body2, True) if not (cxx and f[1][:2] == ["static", "const"])]
        elif b[0] in ("struct", "union", "enum") and len(b) == 2 and not td:
            r["rec"].setdefault(b[1], [])
        elif td:
            nm = name_of(norm(b))
            if norm(b) == [nm, nm] or b[0] in ("struct", "union", "enum") and len(b) == 3 and b[1] == b[2]:
                if nm not in r["rec"] and nm not in r["enum"]:
                    r["rec"][nm] = []
            else:
                r["type"][nm] = norm([t for t in b])
        elif b[0] == "using":
            if not tmpl:
                r["type"][b[1]] = b[3:] + [b[1]]
        elif b[0] == "extern":
            r["static"][name_of(norm(b))] = norm(b)
        elif "static" in b and "=" in b:
            i = b.index("=")
            r["const"][b[i - 1] if b[i - 1] != "]" else name_of(b[:i])] = " ".join(b[i + 1:])
        else:
            n = norm(b)
            r["fn"][fn_name(n)] = n
    return r


def fn_name(n):
    s = " ".join(n)
    m = re.search(r"(func_\w+|use_all)", s)
    return m.group(1) if m else "?" + s


def read_py(text):
    r = {"fn": {}, "rec": {}, "enum": {}, "type": {}, "static": {}, "const": {}}
    body = text[text.index('cdef extern from "c.h":'):].split("\n")[1:]
    i = 0
    last_enum = None

    def ind(l):
        return len(l) - len(l.lstrip())
    while i < len(body):
        l = body[i]
        s = l.strip()
        i += 1
        if not s or s.startswith("#"):
            continue
        m = re.match(r"(?:cdef|ctypedef) (?:packed )?(struct|union|enum)(?: (\w+))?:$", s)
        if m:
            sub = []
            while i < len(body) and (not body[i].strip() or ind(body[i]) > ind(l)):
                if body[i].strip():
                    sub.append(body[i].strip())
                i += 1
            if m.group(1) == "enum":
                vs = []
                for x in sub:
                    mm = re.match(r"(\w+)(?: # = (.*?))?,?$", x)
                    vs.append((mm.group(1), " ".join(TOK.findall(mm.group(2) or ""))))
                r["enum"][m.group(2) or "?"] = vs
                last_enum = None if m.group(2) else vs
            elif sub == ["pass"]:
                r["rec"][m.group(2)] = []
            else:
                r["rec"][m.group(2)] = fields_of(TOK.findall(" ".join(sub)), True)
            continue
        m = re.match(r"(?:cdef|ctypedef) (struct|union) (\w+)$", s)
        if m:
            r["rec"].setdefault(m.group(2), [])
            continue
        m = re.match(r"const (.*?)(\w+) # = (.*)$", s)
        if m:
            r["const"][m.group(2)] = m.group(3)
            continue
        while not s.endswith(";"):
            if i >= len(body):
                raise cc.Violation("statement without end: " + s[:200])
            s += " " + body[i].strip()
            i += 1
        t = TOK.findall(s[:-1])
        if t[0] == "ctypedef":
            nm = name_of(norm(t[1:]))
            if last_enum is not None and "?" in r["enum"]:
                r["enum"][nm] = r["enum"].pop("?")
                last_enum = None
            r["type"][nm] = norm(t[1:])
        elif t[0] == "extern":
            r["static"][name_of(norm(t))] = norm(t)
        else:
            r["fn"][fn_name(norm(t))] = norm(t)
    if "?" in r["enum"]:
        raise cc.Violation("enumerators without a type: %r" % r["enum"]["?"])
    return r


def value(v):
    v = v.replace(" ", "")
    v = {"True": "true", "False": "false"}.get(v, v)
    return re.sub(r"(?<=\d)(ull|ll|u|l|ULL|LL|U|L)$", "", v)


def diff(what, a, b, la, lb):
    if a != b:
        ka, kb = set(a), set(b)
        if ka != kb:
            raise cc.Violation("%s declared by %s only: %s; by %s only: %s" % (what, la, sorted(ka - kb), lb, sorted(kb - ka)))
        for k in a:
            if a[k] != b[k]:
                raise cc.Violation("%s %s differs: %s %r, %s %r" % (what, k, la, a[k], lb, b[k]))


def check_text(case, ctx):
    d = ctx.fresh()
    src = source(case)
    h = {}
    for lang, out in (("C", "c.h"), ("C++", "cxx.h"), ("Cython", "py.pxd")):
        h[lang] = cc.bindgen(ctx, d, src, config(case, lang), out=out)
    try:
        c, x, y = read_c(h["C"]), read_c(h["C++"], True), read_py(h["Cython"])
    except cc.Violation as e:
        cc.fail(str(e), src, config(case, "Cython"), h["Cython"])
    try:
        lang = "Cython"
        diff("function", c["fn"], y["fn"], "C", "Cython")
        diff("record", c["rec"], y["rec"], "C", "Cython")
        diff("enumeration", c["enum"], y["enum"], "C", "Cython")
        diff("alias", {k: v for k, v in c["type"].items()}, {k: v for k, v in y["type"].items()}, "C", "Cython")
        diff("static", c["static"], y["static"], "C", "Cython")
        diff("constant", {k: value(v) for k, v in c["const"].items()}, {k: value(v) for k, v in y["const"].items()}, "C", "Cython")
        lang = "C++"
        plain = lambda toks: "<" not in toks
        if not any(it.get("gen") for it in case["items"]):
            diff("function", c["fn"], x["fn"], "C", "C++")
        else:
            diff("function", {k: 0 for k in c["fn"]}, {k: 0 for k in x["fn"]}, "C", "C++")
            for k in c["fn"]:
                if plain(x["fn"][k]) and c["fn"][k] != x["fn"][k]:
                    raise cc.Violation("function %s differs: C %r, C++ %r" % (k, c["fn"][k], x["fn"][k]))
        for k, v in x["rec"].items():
            if v is not None:
                if k not in c["rec"]:
                    raise cc.Violation("record %s is declared by C++ only" % k)
                if [f for f in v if plain(f[1])] != [f for f, f2 in zip(c["rec"][k], v) if plain(f2[1])] or len(v) != len(c["rec"][k]):
                    raise cc.Violation("record %s differs: C %r, C++ %r" % (k, c["rec"][k], v))
        for it in case["items"]:
            if it["k"] in ("struct", "union", "enum", "opaque") and not it.get("gen") and it.get("repr") != ["transparent"]:
                n = it["name"]
                for m_, l_ in ((c, "C"), (x, "C++"), (y, "Cython")):
                    if n not in m_["rec"] and n not in m_["enum"]:
                        raise cc.Violation("%s is missing in %s" % (n, l_))
        for k, v in x["enum"].items():
            if c["enum"].get(k) != v:
                raise cc.Violation("enumeration %s differs: C %r, C++ %r" % (k, c["enum"].get(k), v))
        diff("static", c["static"], x["static"], "C", "C++")
        diff("constant", {k: value(v) for k, v in c["const"].items()}, {k: value(v) for k, v in x["const"].items()}, "C", "C++")
    except cc.Violation as e:
        cc.fail(str(e), src, config(case, lang), "C:\n" + h["C"] + "\n" + lang + ":\n" + h[lang])
    ctx.evaluated(sum(len(v) for v in c.values()))
    ctx.label("text", *["item:" + it["k"] for it in case["items"]])
    ctx.nontrivial(bool(c["rec"]) and any(len(v) > 5 for v in c["fn"].values()))


def check_cython(case, ctx):
    d = ctx.fresh()
    src = source(case)
    hc = cc.bindgen(ctx, d, src, config(case, "C"), out="c.h")
    hy = cc.bindgen(ctx, d, src, config(case, "Cython"), out="vph.pxd")
    recs = [it["name"] for it in case["items"] if it["k"] in ("struct", "union", "enum", "type") and not it.get("gen")]
    fns = [it["name"] for it in case["items"] if it["k"] == "fn"]
    st_ = [it for it in case["items"] if it["k"] == "struct" and not it.get("gen") and it.get("repr") != ["transparent"]]
    body = "".join('println!("S %s {}", ::std::mem::size_of::<%s>());\n' % (n, n) for n in recs)
    for i in case["consts"]:
        n = "KON_" + rs.word(i).upper()
        body += 'println!("K %s {:?}", %s);\n' % (n, n)
    if case["assoc"] and st_:
        body += 'println!("K %s_ASSO {:?}", %s::ASSO);\n' % (st_[0]["name"], st_[0]["name"])
    enums = [it for it in case["items"] if it["k"] == "enum" and not it.get("tagged") and not it.get("gen")]
    model = read_py(hy.replace('cdef extern from "c.h":', 'cdef extern from "c.h":'))
    for it in enums:
        vs = model["enum"].get(it["name"])
        if vs is None or len(vs) != len(it["variants"]):
            cc.fail("variants of %s are missing in Cython" % it["name"], src, config(case, "Cython"), hy)
        for v, (cn, _) in zip(it["variants"], vs):
            body += 'println!("E %s {}", %s::%s as i128);\n' % (cn, it["name"], v["name"])
    src2 = re.sub(r"#\[no_mangle\] pub static", "#[no_mangle] pub static mut", src)
    out = cc.rust_run(d, src2 + "fn main() {\n" + body + "}\n")
    pyx = "cimport vph\nfrom libc.stdint cimport uint64_t, int64_t\ndef probe():\n    r = []\n"
    for l in out.splitlines():
        k, n, v = l.split(" ", 2)
        pyx += {"S": '    r.append(("%s", sizeof(vph.%s)))\n' % (l, n), "K": '    r.append(("%s", vph.%s))\n' % (l, n), "E": '    r.append(("%s", <int64_t>vph.%s))\n' % (l, n)}[k]
    # every function can be called: the arguments get their types from the declaration file
    for f in fns:
        pyx += '    r.append(("F %s", <size_t><void*>&vph.%s != 0))\n' % (f, f)
    for i in range(len(case["statics"])):
        pyx += '    r.append(("G %d", <size_t><void*>&vph.STAT_%s != 0))\n' % (i, rs.word(i).upper())
    pyx += "    return r\n"
    vp.write(os.path.join(d, "vpm.pyx"), pyx)
    p = vp.run(["/usr/bin/cython", "-3", "vpm.pyx"], cwd=d)
    if p.returncode != 0:
        cc.fail("cython rejects the declarations", src, config(case, "Cython"), hy, p.stdout[-1500:] + p.stderr[-2500:])
    stubs = '#include "c.h"\n'
    p = vp.run(["gcc", "-O0", "-w", "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-shared", "-fPIC", "-I/usr/include/python3.12", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", "vpm.c", "stub.c", "-o", "vpm.so"], cwd=d) \
        if vp.write(os.path.join(d, "stub.c"), "".join("void %s(void) {}\n" % f for f in fns) + "".join("char STAT_%s[64];\n" % rs.word(i).upper() for i in range(len(case["statics"])))) is None else None
    if p.returncode != 0:
        cc.fail("the module generated by cython does not compile against the C header", src, config(case, "Cython"), hy + "\nC:\n" + hc, p.stderr[-2500:])
    p = vp.run(["/usr/bin/python3", "-c", "import vpm\nfor a, b in vpm.probe(): print(a, '=>', repr(b))"], cwd=d)
    if p.returncode != 0:
        cc.fail("the module cannot be imported", src, config(case, "Cython"), hy, p.stderr[-1500:])
    for l in p.stdout.splitlines():
        a, b = l.split(" => ")
        w = a.split(" ", 2)
        want = w[2] if len(w) > 2 else "True"
        b = {"True": "1", "False": "0"}.get(b, b)
        want = {"true": "1", "false": "0", "True": "1"}.get(want, want)
        if float(b) != float(want) or (want.lstrip("-").isdigit() and int(b) != int(want)):
            cc.fail("Cython sees %s %s as %s, Rust says %s" % (w[0], w[1], b, want), src, config(case, "Cython"), hy)
    ctx.evaluated(len(p.stdout.splitlines()))
    ctx.label("cython")
    ctx.nontrivial(len(recs) > 0)
