"""C17: documentation reaches the header next to its item, unchanged, and never alters the declarations."""
import json, os, re
from hypothesis import strategies as st
import cc, vp, hdr

PROP = "C17"
N = {"quick": 5000, "thorough": 60000}
RULE = ("case = 1..6 items of every kind (structs, tuple structs, unions, fieldless and tagged enums, opaque types, transparent types, aliases, functions, statics, constants, associated constants, generic structs) with documentation on items, "
        "fields, variants and payload fields, given as ///, #[doc = ...] (one or several lines) and /** */, mixed with annotations and other attributes; texts contain comment delimiters, backslashes, quotes, directives, unicode, indentation, blank lines; "
        "x language x documentation_style x documentation_length x documentation. Oracle: declarations (comments removed by the C phases of translation, gcc -E for a sample) equal those with documentation = false; every comment stands "
        "directly before the entity it documents and has exactly the expected lines in the configured style; no documentation is lost, repeated or invented. non-trivial = at least two documented entities")
ASSUMPTIONS = ["inside /* */ comments the sequence */ cannot be reproduced literally and is expected as *\\/",
               "text ends of lines are compared without trailing blanks; documentation with bare carriage returns is not generated"]
B = st.booleans()
WORDS = ["alpha", "the value", "Größe", "a\tb", "x < y && z", "`code`", "100%", "{}", "{0:?}", "%s%n", "\"quoted", "'", "end;", "int x;", "}", "#define X 1", "#endif", "#include <nothing.h>", "//", "/* open", "*/", "*/ int evil; /*", "\\", "\\n", "??/",
         "@param a", "* star", "*", "[link](Foo)", "cbindgen", "see cbindgen: docs", "日本", "R\"(", "'''", '"""', "\\\\", "$x", "__LINE__", "::", "-", "1.", "```c", "/ slash", "**bold**", "a*/b", "**/"]


@st.composite
def text(draw):
    lead = draw(st.sampled_from([" ", " ", " ", "", "  ", "\t", "    "]))
    ws = draw(st.lists(st.sampled_from(WORDS), min_size=0, max_size=3))
    t = lead + " ".join(ws)
    if draw(st.integers(0, 7)) == 0:
        t += "\\"
    if draw(st.integers(0, 9)) == 0:
        t += "  "
    return t


@st.composite
def docs(draw, p=2):
    if draw(st.integers(0, p)) == 0:
        return []
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["line", "line", "line", "attr", "mattr", "block", "ann", "other"]))
        if k in ("line", "attr"):
            out.append([k, draw(text())])
        elif k in ("mattr", "block"):
            out.append([k, draw(st.lists(text(), min_size=1, max_size=4)), draw(st.integers(0, 2))])
        elif k == "ann":
            out.append([k, draw(st.sampled_from([" cbindgen:vp-list=[a, b]", " cbindgen:vp-unknown=3", "cbindgen:vp-flag", "  cbindgen:prefix-something=\"x\""]))])
        else:
            out.append([k, draw(st.sampled_from(["#[doc(hidden)]", "#[allow(dead_code)]", "#[doc(alias = \"nope_alias\")]"]))])
    return out


KINDS = ["struct", "tuple", "union", "enum", "tagged", "opaque", "transparent", "type", "fn", "static", "const", "assoc", "generic", "gunion", "genum", "constfn"]


@st.composite
def strategy_(draw):
    items = []
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(KINDS))
        it = {"k": k, "doc": draw(docs(3)), "subs": [draw(docs()) for _ in range(3)], "n": draw(st.integers(1, 3))}
        if k in ("tagged", "genum"):
            it["kinds"] = [draw(st.sampled_from(["unit", "tuple1", "tuple2", "named"])) for _ in range(it["n"])]
            if all(x == "unit" for x in it["kinds"]) or k == "genum":
                it["kinds"][0] = "tuple2"
            it["repr"] = draw(st.sampled_from(["C", "u8", "C, u8"]))
            it["pdocs"] = [[draw(docs()) for _ in range(2)] for _ in range(it["n"])]
        items.append(it)
    return {"items": items, "lang": draw(st.sampled_from(["C", "C", "C++", "C++", "Cython"])), "style": draw(st.sampled_from([None, "auto", "c", "c99", "c++", "doxy"])), "len": draw(st.sampled_from([None, "full", "full", "short"])),
            "on": draw(st.sampled_from([None, True, True, True, False])), "cstyle": draw(st.sampled_from(["both", "tag", "type"])), "nest": draw(B), "inbody": draw(B), "constexpr": draw(B), "ns": draw(B)}


def strategy(tier):
    return strategy_()


def render(ds, ind):
    o = ""
    for d in ds:
        if d[0] == "line":
            t = d[1]
            if t.startswith("/"):
                t = " " + t         # //// is not documentation
            o += ind + "///" + t + "\n"
        elif d[0] == "attr":
            o += ind + "#[doc = %s]\n" % rust_str(d[1])
        elif d[0] == "mattr":
            o += ind + "#[doc = %s]\n" % rust_str(multi(d))
        elif d[0] == "block":
            o += ind + "/**" + block(d) + "*/\n"
        elif d[0] == "ann":
            o += ind + "///" + d[1] + "\n"
        else:
            o += ind + d[1] + "\n"
    return o


def rust_str(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def multi(d):
    pre = [""] * (d[2] & 1)
    return "\n".join(pre + d[1] + [""] * (d[2] >> 1))


def block(d):
    ls = [re.sub(r"/\*|\*/|\*+$|/+$", "", l.replace("*/", "").replace("/*", "")) for l in d[1]]
    while any("*/" in l or "/*" in l for l in ls):
        ls = [l.replace("*/", "").replace("/*", "") for l in ls]
    return "\n " + "\n ".join(ls) + "\n "


def ws(c):
    return c.isspace()


def dedent(t):
    if "\n" not in t:
        return [t]
    ls = t.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    full = [l for l in ls if l.strip()]
    ci = min([len(l) - len(l.lstrip()) for l in full] or [0])
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    return [" " + l[ci:] if l.strip() else "" for l in ls]


def lines_of(ds):
    """the lines a reader of the Rust source sees as documentation"""
    out = []
    for d in ds:
        if d[0] == "line":
            out.append(" " + d[1] if d[1].startswith("/") else d[1])
        elif d[0] == "attr":
            out.append(d[1])
        elif d[0] == "mattr":
            out += dedent(multi(d))
        elif d[0] == "block":
            out += dedent(block(d))
    return [l for l in out if not l.lstrip().startswith("cbindgen:")]


def build(case):
    """-> source, list of (entity, lines)"""
    src, ent = "", []
    lang = case["lang"]
    seq = []

    def E(name, ds):
        ent.append([name, lines_of(ds)])
    for i, it in enumerate(case["items"]):
        k, n = it["k"], it["n"]
        N_ = "%s%d" % (k.capitalize(), i)
        ind = "    " if case["nest"] else ""
        o = render(it["doc"], ind)
        s = it["subs"]
        use = None
        insts = [""]
        if k in ("generic", "gunion", "genum") and lang != "C++":
            insts = ["_u8", "_i32"]
        if k in ("struct", "generic", "tuple", "union", "gunion", "assoc"):
            gen = k in ("generic", "gunion")
            T = "<T>" if gen else ""
            fty = lambda j: ("T" if k == "generic" else "*const T") if gen and j == 0 else ["u8", "*const u8", "[i32; 3]"][j] if k != "union" else ["u8", "u32", "f64"][j]
            if k == "gunion":
                fty = lambda j: "*const T" if j == 0 else ["u8", "u32", "f64"][j]
            o += "%s#[repr(C)]\n%spub %s %s%s" % (ind, ind, "union" if k in ("union", "gunion") else "struct", N_, T)
            if k == "tuple":
                o += "(\n%s);\n" % "".join(render(s[j], ind + "  ") + "%s  pub %s,\n" % (ind, fty(j)) for j in range(n))
            else:
                o += " {\n%s%s}\n" % ("".join(render(s[j], ind + "  ") + "%s  pub f%d_%d: %s,\n" % (ind, i, j, fty(j)) for j in range(n)), ind)
            for x in insts:
                E(N_ + x, it["doc"])
                for j in range(n):
                    E("_%d" % j if k == "tuple" else "f%d_%d" % (i, j), s[j])
            if k == "assoc":
                o += "%simpl %s {\n" % (ind, N_)
                for j in range(n):
                    o += render(s[(j + 1) % 3], ind + "  ") + "%s  pub const K%d_%d: u32 = %d;\n" % (ind, i, j, j)
                    inb = lang == "C++" and case["inbody"]
                    E("K%d_%d" % (i, j) if inb else "%s_K%d_%d" % (N_, i, j), s[(j + 1) % 3])
                o += ind + "}\n"
            use = ["*const %s<u8>" % N_, "*const %s<i32>" % N_] if gen else ["*const " + N_]
        elif k == "enum":
            o += "%s#[repr(C)]\n%spub enum %s {\n" % (ind, ind, N_)
            for j in range(n):
                o += render(s[j], ind + "  ") + "%s  V%d_%d,\n" % (ind, i, j)
            o += ind + "}\n"
            E(N_, it["doc"])
            for j in range(n):
                E("V%d_%d" % (i, j), s[j])
            use = [N_]
        elif k in ("tagged", "genum"):
            gen = k == "genum"
            o += "%s#[repr(%s)]\n%spub enum %s%s {\n" % (ind, it["repr"], ind, N_, "<T>" if gen else "")
            for j in range(n):
                o += render(s[j], ind + "  ") + "%s  V%d_%d" % (ind, i, j)
                kd, pd = it["kinds"][j], it["pdocs"][j]
                if kd == "unit":
                    o += ",\n"
                elif kd == "named":
                    o += " {\n%s%s  g%d_%d: u8,\n%s%s  h%d_%d: f32 },\n" % (render(pd[0], ind + "    "), ind, i, j, render(pd[1], ind + "    "), ind, i, j)
                elif kd == "tuple1":
                    o += "(\n%s%s   u8),\n" % (render(pd[0], ind + "    "), ind)
                else:
                    o += "(\n%s%s  %s,\n%s%s  i16),\n" % (render(pd[0], ind + "    "), ind, "T" if gen else "u8", render(pd[1], ind + "    "), ind)
            o += ind + "}\n"
            for x in insts:
                E(N_ + x, it["doc"])
                for j in range(n):
                    E("V%d_%d" % (i, j) + x, s[j])
                    kd, pd = it["kinds"][j], it["pdocs"][j]
                    if kd == "named":
                        E("g%d_%d" % (i, j), pd[0])
                        E("h%d_%d" % (i, j), pd[1])
                    elif kd == "tuple1":
                        E("_0" if lang == "C++" else "v%d_%d" % (i, j), pd[0])
                    elif kd == "tuple2":
                        E("_0", pd[0])
                        E("_1", pd[1])
            use = ["*const %s<u8>" % N_, "*const %s<i32>" % N_] if gen else ["*const " + N_]
        elif k == "opaque":
            o += "%spub struct %s { inner: Vec<u8> }\n" % (ind, N_)
            E(N_, it["doc"])
            use = ["*const " + N_]
        elif k == "transparent":
            o += "%s#[repr(transparent)]\n%spub struct %s { x: u8 }\n" % (ind, ind, N_)
            E(N_, it["doc"])
            use = [N_]
        elif k == "type":
            o += "%spub type %s = *const u8;\n" % (ind, N_)
            E(N_, it["doc"])
            use = [N_]
        elif k == "fn":
            o += "%s#[no_mangle]\n%spub extern \"C\" fn %s(a: u8, b: *const u8) {}\n" % (ind, ind, N_.lower())
            E(N_.lower(), it["doc"])
        elif k == "constfn":
            o += "%s#[no_mangle]\n%spub unsafe extern \"C\" fn %s() -> extern \"C\" fn(u8) -> u8 { loop {} }\n" % (ind, ind, N_.lower())
            E(N_.lower(), it["doc"])
        elif k == "static":
            o += "%s#[no_mangle]\n%spub static %s: [u8; 2] = [0, 1];\n" % (ind, ind, N_.upper())
            E(N_.upper(), it["doc"])
        elif k == "const":
            o += "%spub const %s: u32 = 3;\n" % (ind, N_.upper())
            E(N_.upper(), it["doc"])
        for j, u in enumerate(use or []):
            o += "%s#[no_mangle] pub extern \"C\" fn use_%d_%d(a: %s) {}\n" % (ind, i, j, u)
            ent.append(["use_%d_%d" % (i, j), []])
        seq.append(o)
    src = "".join(seq)
    if case["nest"]:
        src = "/// module documentation is not part of any item\npub mod inner {\n    //! inner documentation neither\n" + src + "}\n"
    else:
        src = "//! crate documentation is not part of any item\n" + src
    return src, ent


def config(case, on):
    cfg = {"language": case["lang"], "style": case["cstyle"], "no_includes": True, "const": {"allow_static_const": True}, "enum": {"prefix_with_name": False}}
    if case["lang"] == "C++":
        cfg["structure_"] = 0
        del cfg["structure_"]
        cfg["struct"] = {"associated_constants_in_body": case["inbody"]}
        cfg["const"]["allow_constexpr"] = case["constexpr"]
        if case["ns"]:
            cfg["namespace"] = "vp"
    if case["lang"] == "Cython" and case["ns"]:
        cfg["cython"] = {"header": '"x.h"'}
    if case["style"]:
        cfg["documentation_style"] = case["style"]
    if case["len"]:
        cfg["documentation_length"] = case["len"]
    if on is not None:
        cfg["documentation"] = on
    return cfg


# ------------------------------------------------------------------ reading the header
def phases(text):
    """C translation phases 2-3: splice lines, then cut into code and comments: [(kind, text)]"""
    t = re.sub(r"\\[ \t]*\n", "\x01", text)      # \x01 marks a splice
    out, i, cur = [], 0, ""
    while i < len(t):
        if t.startswith("//", i):
            j = t.find("\n", i)
            j = len(t) if j < 0 else j
            out += [("code", cur), ("lc", t[i:j])]
            cur, i = "", j
        elif t.startswith("/*", i):
            m = re.compile(r"\*\x01*/").search(t, i + 2)
            if not m:
                raise cc.Violation("unterminated comment")
            out += [("code", cur), ("bc", t[i:m.end()])]
            cur, i = " ", m.end()
        elif t[i] == '"':
            m = re.compile(r'"(?:\\.|[^"\\\n])*"').match(t, i)
            e = m.end() if m else i + 1
            cur += t[i:e]
            i = e
        else:
            cur += t[i]
            i += 1
    return out + [("code", cur)]


def py_phases(text):
    out, cur = [], ""
    for l in text.split("\n"):
        l = re.sub(r" # = \d$", "", l)       # values of constants
        m = re.match(r'^((?:[^#"\']|"[^"]*")*)#(.*)$', l)
        if m:
            out += [("code", cur + m.group(1)), ("lc", "#" + m.group(2))]
            cur = "\n"
        else:
            cur += l + "\n"
    return out + [("code", cur)]


def toks(ph):
    return re.findall(r"[A-Za-z_]\w*|\d[\w.]*|\S", " ".join(t for k, t in ph if k == "code").replace("\x01", ""))


def comment_lines(group, style):
    """undo the comment markers of a run of comments; -> lines or an error"""
    if style in ("c99", "c++", "py"):
        mark = {"c99": "//", "c++": "///", "py": "#"}[style]
        out = []
        for k, t in group:
            parts = t.split("\x01")
            for i, l in enumerate(parts):
                # a spliced line was written as a comment line of its own
                l2 = l.lstrip()
                if k != "lc" or not l2.startswith(mark):
                    raise cc.Violation("comment %r is not in the style %s" % (t, style))
                out.append(l2[len(mark):] + ("\\" if i + 1 < len(parts) else ""))
        return out
    if len(group) != 1 or group[0][0] != "bc":
        raise cc.Violation("comment %r is not in the style %s" % (group, style))
    t = group[0][1].replace("\x01", "\\\n")
    ls = t.split("\n")
    if ls[0] != ("/**" if style == "doxy" else "/*") or ls[-1].strip() != "*/":
        raise cc.Violation("comment %r is not in the style %s" % (t, style))
    out = []
    for l in ls[1:-1]:
        if style == "doxy":
            l2 = l.lstrip()
            if not l2.startswith("*"):
                raise cc.Violation("comment line %r is not in the style doxy" % l)
            out.append(l2[1:])
        else:
            out.append(l)
    return out


def check(case, ctx):
    d = ctx.fresh()
    src, ent = build(case)
    cfg = config(case, case["on"])
    h = cc.bindgen(ctx, d, src, cfg, out="on.h")
    h0 = cc.bindgen(ctx, d, None, config(case, False), out="off.h")
    py = case["lang"] == "Cython"
    cut = py_phases if py else phases
    try:
        ph, ph0 = cut(h), cut(h0)
        if any(k != "code" for k, _ in ph0):
            # only documentation is a comment here (no framing comments are configured)
            extra = [t for k, t in ph0 if k != "code" and not re.match(r"//\s*(extern \"C\"|namespace|__STDC|__cplusplus)", t)]
            if extra:
                raise cc.Violation("documentation = false still writes %r" % extra[:3])
        a, b = toks(ph), toks(ph0)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise cc.Violation("documentation changes the declarations: with ...%s..., without ...%s..." % (" ".join(a[max(0, i - 4):i + 6]), " ".join(b[max(0, i - 4):i + 6])))
        if not py and case["items"][0]["n"] == 2:
            cxx = case["lang"] == "C++"
            tx = []
            for f in ("on.h", "off.h"):
                p = vp.run((["g++", "-x", "c++"] if cxx else ["gcc", "-x", "c"]) + ["-E", "-P", "-w", f], cwd=d)
                if p.returncode != 0:
                    raise cc.Violation("the preprocessor rejects the header: " + p.stderr[:300])
                tx.append(p.stdout.split())
            if tx[0] != tx[1]:
                raise cc.Violation("documentation changes the preprocessed declarations")
            ctx.label("gcc-E")
        if case["on"] is False:
            ctx.nontrivial(False)
            return
        check_docs(case, ph, ent, py)
    except cc.Violation as e:
        if "--- source" in str(e):
            raise
        cc.fail(str(e), src, cfg, h)
    ctx.evaluated(len(ent))
    ctx.label(case["lang"], "style:%s" % case["style"], "len:%s" % case["len"])
    ctx.nontrivial(sum(bool(l) for _, l in ent) >= 2)


def check_docs(case, ph, ent, py):
    style = "py" if py else {None: None, "auto": None}.get(case["style"], case["style"])
    if style is None:
        style = "c++" if case["lang"] == "C++" else "doxy"
    # runs of comments and the code that follows each
    runs, group = [], []
    for i, (k, t) in enumerate(ph):
        if k == "code":
            if t.strip() and group:
                runs.append((group, "".join(x for kk, x in ph[i:] if kk == "code")))
                group = []
        elif re.match(r"//\s*(extern \"C\"|namespace|__STDC|__cplusplus)", t) and not group:
            pass
        else:
            group.append((k, t))
    if group:
        group = [g for g in group if not re.match(r"//\s*(extern \"C\"|namespace)", g[1])]
        if group:
            raise cc.Violation("comment %r documents nothing" % (group[-1],))
    got = {}
    for group, code in runs:
        ls = comment_lines(group, style)
        nm = entity(code)
        if re.match(r"(Tagged|Genum).*_Tag$", nm):
            nm = nm[:-4]        # the documentation of a tagged enum stands before its first part
        got.setdefault(nm, []).append(ls)
    want = {}
    for nm, ls in ent:
        if ls:
            if case["len"] == "short":
                ls = ls[:1]
            want.setdefault(nm, []).append(ls)
    for nm in list(got) + list(want):
        g, w = got.get(nm, []), want.get(nm, [])
        if len(g) != len(w) and not (nm.startswith("_") and False):
            raise cc.Violation("%s has %d documentation comments, expected %d: %r vs %r" % (nm, len(g), len(w), g[:3], w[:3]))
        gs = sorted([norm(x, style, True) for x in g])
        ws_ = sorted([norm(x, style, False) for x in w])
        if gs != ws_:
            raise cc.Violation("documentation of %s differs: header %r, expected %r" % (nm, gs[:3], ws_[:3]))


def norm(ls, style, header):
    if style in ("c", "doxy") and not header:
        ls = [l.replace("*/", "*\\/") for l in ls]
    if style == "doxy" and not header:
        ls = [" " + l if l.startswith("/") else l for l in ls]
    if style == "c":
        ls = [l.strip() for l in ls]
    else:
        ls = [l.rstrip() for l in ls]
    # a line comment ending in a backslash needs a closing empty comment line
    if style in ("c99", "c++") and header and len(ls) > 1 and ls[-1] == "" and ls[-2].endswith("\\"):
        ls = ls[:-1]
    if style in ("c99", "c++") and not header and len(ls) > 1 and ls[-1] == "" and ls[-2].endswith("\\"):
        ls = ls[:-1]
    return ls


def entity(code):
    """name of the first thing declared by the code"""
    code = code.replace("\x01", "").lstrip()
    m = re.match(r"#define (\w+)", code)
    if m:
        return m.group(1)
    if code.startswith("#"):
        # conditional C23 enum headers etc. belong to the declaration that follows
        return entity(code[code.index("\n"):])
    m = re.match(r"cdef enum:[^:]*?ctypedef \w+ (\w+);", code)
    if m:
        return m.group(1)
    m = re.match(r"(?:template<[^>]*>\s*)?(?:typedef\s+|cdef\s+|ctypedef\s+)*(?:struct|union|enum(?:\s+class)?)\s+(\w+)\s*(?:[{:;,]|\n)", code)
    if m:
        return m.group(1)
    m = re.match(r"ctypedef\s+(?:struct|union|enum)\s+(\w+)", code)
    if m:
        return m.group(1)
    m = re.match(r"(?:typedef\s+)(?:struct|union|enum)\s*\{", code)
    if m:
        dep = 0
        for i, c in enumerate(code):
            dep += (c == "{") - (c == "}")
            if c == "}" and dep == 0:
                return re.match(r"\}\s*(\w+)", code[i:]).group(1)
    head = re.match(r"[^;{,]*", code).group()
    m = re.match(r"(\w+)\s*(?:=[^,]*)?,?\s*$", head.split("\n")[0])
    if m and not re.match(r"\w+\s+\w", head.split("\n")[0]):
        return m.group(1)
    m = re.search(r"\(\s*\*+\s*(\w+)", head.split("\n")[0])
    if m:
        return m.group(1)
    line = re.sub(r"\[[^\]]*\]", "", head.split("\n")[0].split("//")[0])
    line = line.split("=")[0]
    m = re.search(r"(\w+)\s*\(", line) or re.search(r"(\w+)\s*$", line)
    return m.group(1) if m else "?" + head[:40]
