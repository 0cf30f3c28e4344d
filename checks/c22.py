"""C22: attribute texts (must_use, deprecated, no_return, nullability, prefix/postfix, swift_name) stand exactly where the source asks for them."""
import json, os, re
from hypothesis import strategies as st
import cc, vp

PROP = "C22"
N = {"quick": 12000, "thorough": 240000}
RULE = ("case = structs (plain, tuple, generic, transparent), unions, opaque types, fieldless and tagged enums, aliases, statics, functions, methods, extern-block functions, diverging functions and callbacks, each marked with any spelling of #[must_use] / "
        "#[deprecated] (word, = note, (note), (since), notes with quotes, backslashes, newlines, control and non-ASCII characters) and with pointers of every nullability, x any subset of the attribute settings x C (three styles) / C++ / Cython x line lengths; "
        "the header's tokens must equal the tokens of the header generated without the settings with the expected texts inserted at exactly the modelled places. non-trivial = at least two attribute texts are expected and one setting or marker is absent")
ASSUMPTIONS = ["[enum] must_use has no C form: it is only expected in C++ (also on the tag enum of an enum with fields, as the test suite pins)", "functions in extern blocks get no prefix, postfix, must_use or deprecated text"]
B = st.booleans()
S = st.sampled_from
SETTINGS = ["fn.prefix", "fn.postfix", "fn.must_use", "fn.deprecated", "fn.deprecated_with_note", "fn.no_return", "fn.swift_name_macro", "struct.must_use", "struct.deprecated", "struct.deprecated_with_note",
            "enum.must_use", "enum.deprecated", "enum.deprecated_with_note", "enum.deprecated_variant", "enum.deprecated_variant_with_note", "ptr.non_null_attribute", "ptr.nullable_attribute"]
NOTES = ["plain note", "quote \" inside", "back\\slash", "two\nlines", "tab\there", "bell\x07", "del\x7f", "nul\x001", "caf\u00e9", "zero\u200bwidth", "{}", "a, b) (c", "'single'", "// no comment", "/* nor this */", "\u4f60", "  spaces  ", "esc\x1b[0m", "x" * 70]


@st.composite
def marks(draw):
    m = {}
    k = draw(st.integers(0, 3))
    if k == 1:
        m["mu"] = "must_use"
    elif k == 2:
        m["mu"] = 'must_use = "reason"'
    k = draw(st.integers(0, 8))
    if k in (1, 2):
        m["dep"] = ["word"]
    elif k == 3:
        m["dep"] = ["eq", draw(S(NOTES))]
    elif k == 4:
        m["dep"] = ["note", draw(S(NOTES))]
    elif k == 5:
        m["dep"] = ["both", draw(S(NOTES))]
    elif k == 6:
        m["dep"] = ["since"]
    m["order"] = draw(B)
    return m


PK = ["ref", "refmut", "const", "mut", "nn", "optref", "optnn", "box", "optbox"]
PTEXT = {"ref": "&'static %s", "refmut": "&'static mut %s", "const": "*const %s", "mut": "*mut %s", "nn": "std::ptr::NonNull<%s>", "optref": "Option<&'static %s>", "optnn": "Option<std::ptr::NonNull<%s>>", "box": "Box<%s>", "optbox": "Option<Box<%s>>"}
NONNULL = {"ref", "refmut", "nn", "box", "fn"}


@st.composite
def typ(draw, allow_fn=True):
    """[kinds outermost first, base] / ["fn", nullable, never, arg type]"""
    if allow_fn and draw(st.integers(0, 5)) == 0:
        return ["fn", draw(B), draw(S([True, False, False])), draw(typ(False))]
    return ["p", draw(st.lists(S(PK), max_size=3)), draw(S(["u8", "i32", "f64"])), draw(S([0, 0, 0, 2])) if allow_fn else 0]


class Names:
    def __init__(self, cxx=False):
        self.n = 0
        self.cxx = cxx
        self.ptrs = {}       # declared name -> kinds (outermost first)
        self.never = set()   # names of callbacks that do not return

    def new(self, pre="v"):
        self.n += 1
        return "%s%dx" % (pre, self.n)


def render_type(t, nm, names):
    """Rust text of the type declared under the name nm"""
    if t[0] == "fn":
        q = names.new("q")
        inner = render_type(t[3], q, names)
        names.ptrs[nm] = ["mut" if t[1] else "fn"]
        if t[2]:
            names.never.add(nm)
        s = 'extern "C" fn(%s: %s)%s' % (q, inner, " -> !" if t[2] else "")
        return "Option<%s>" % s if t[1] else s
    s = t[2]
    for k in reversed(t[1]):
        s = PTEXT[k.replace("box", "nn") if names.cxx else k] % s      # C++ has a Box template of its own
    names.ptrs[nm] = list(t[1])
    if t[3]:
        s = "[%s; %d]" % (s, t[3])
    return s


@st.composite
def item(draw):
    k = draw(S(["struct", "struct", "tuple", "gen", "trans", "union", "opaque", "enum", "enum8", "tagged", "tagged8", "taggedC8", "fn", "fn", "fn", "method", "method", "extfn", "never", "alias", "static"]))
    it = {"k": k, "m": draw(marks())}
    if k in ("struct", "tuple", "gen", "union"):
        it["fields"] = draw(st.lists(typ(), min_size=1, max_size=3))
        if k == "union":
            it["fields"] = [f for f in it["fields"] if not has_box(f)] or [["p", [], "u8", 0]]
    if k.startswith("enum"):
        it["vars"] = draw(st.lists(marks(), min_size=1, max_size=3))
    if k.startswith("tagged"):
        it["vars"] = draw(st.lists(st.tuples(marks(), S(["unit", "named", "tuple2"]), typ()).map(list), min_size=1, max_size=3))
        if all(v[1] == "unit" for v in it["vars"]):
            it["vars"][0][1] = "named"
    if k in ("fn", "method", "extfn", "never"):
        it["args"] = draw(st.lists(typ().map(lambda t: t[:3] + [0] if t[0] == "p" else t), max_size=3))
        it["ret"] = draw(typ(False)) if k in ("fn", "method") and draw(B) else None
        it["self"] = draw(B)
        it["own"] = draw(B)
        it["anon"] = k == "extfn" and draw(st.integers(0, 3)) == 0
    if k in ("alias", "static"):
        it["ty"] = draw(typ())
    return it


def has_box(t):
    return t[0] == "p" and any("box" in k for k in t[1])


@st.composite
def cases(draw):
    items = draw(st.lists(item(), min_size=1, max_size=6))
    on = draw(st.lists(S(SETTINGS), max_size=len(SETTINGS), unique=True)) if draw(B) else list(SETTINGS)
    return {"items": items, "on": sorted(on), "lang": draw(S(["C", "C", "C++", "C++", "C++", "Cython"])), "style": draw(S(["both", "tag", "type"])), "ll": draw(S([None, 20, 60, 200])), "enum_class": draw(B), "twice": draw(st.integers(0, 4)) == 0}


def rstr(s):
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t"}.get(c, c if 32 <= ord(c) < 127 or ord(c) > 0xa0 and c != "\u200b" else "\\u{%x}" % ord(c)) for c in s) + '"'


def attrs(m):
    a = []
    if "mu" in m:
        a.append("#[%s]" % m["mu"])
    if "dep" in m:
        d = m["dep"]
        a.append({"word": "#[deprecated]", "eq": "#[deprecated = %s]", "note": "#[deprecated(note = %s)]", "both": "#[deprecated(since = \"1.0\", note = %s)]", "since": "#[deprecated(since = \"2\")]"}[d[0]].replace("%s", rstr(d[1]) if len(d) > 1 else ""))
    if m["order"]:
        a.reverse()
    return "".join(x + "\n" for x in a)


def build(case):
    """-> source, model"""
    names = Names(case["lang"] == "C++")
    M = {"records": {}, "enums": {}, "variants": {}, "fns": {}, "alias": set(), "names": names}
    src, uses = "", []
    for i, it in enumerate(case["items"]):
        k, a = it["k"], attrs(it["m"])
        T = "Item%dT" % i
        if k in ("struct", "union", "gen", "tuple"):
            fs = []
            if k == "tuple":
                fs = [render_type(f, "_%d" % j, Names()) for j, f in enumerate(it["fields"]) if f[0] == "p"] or ["u8"]
                fs = ["u8" if "*" in f or "&" in f or "<" in f else f for f in fs]      # positional names are not unique
                src += a + "#[repr(C)] pub struct %s(%s);\n" % (T, ", ".join("pub " + f for f in fs))
            else:
                for f in it["fields"]:
                    nm = names.new("f")
                    fs.append("pub %s: %s" % (nm, render_type(f, nm, names)))
                if k == "gen":
                    fs.append("pub gp%d: T" % i)
                src += a + "#[repr(C)] pub %s %s%s { %s }\n" % ("union" if k == "union" else "struct", T, "<T>" if k == "gen" else "", ", ".join(fs))
            if k != "union":
                M["records"][T] = it["m"]
            uses.append(T + ("<u8>" if k == "gen" else ""))
        elif k == "trans":
            src += a + "#[repr(transparent)] pub struct %s(pub u32);\n" % T
            uses.append(T)
        elif k == "opaque":
            src += a + "pub struct %s { x: Vec<u8> }\n" % T
            uses.append(T)
        elif k.startswith("enum"):
            vs = ""
            for j, m in enumerate(it["vars"]):
                vn = "Var%dn%d" % (i, j)
                M["variants"][vn] = m
                vs += attrs({x: y for x, y in m.items() if x != "mu"}) + "%s,\n" % vn
            src += a + "#[repr(%s)] pub enum %s { %s }\n" % ("u8" if k == "enum8" else "C", T, vs)
            M["enums"][T] = it["m"]
            uses.append(T)
        elif k.startswith("tagged"):
            vs = ""
            for j, (m, kind, t) in enumerate(it["vars"]):
                vn = "Var%dn%d" % (i, j)
                M["variants"][vn] = m
                m2 = {x: y for x, y in m.items() if x != "mu"}
                nm = names.new("f")
                if kind == "unit":
                    b = ""
                elif kind == "named":
                    b = " { %s: %s, %s: u8 }" % (nm, render_type(t, nm, names), names.new("f"))
                else:
                    b = "(u8, f32)"
                if kind != "unit":
                    M["records"][vn + "_Body"] = m2
                vs += attrs(m2) + vn + b + ",\n"
            src += a + "#[repr(%s)] pub enum %s { %s }\n" % ({"tagged": "C", "tagged8": "u8", "taggedC8": "C, u8"}[k], T, vs)
            M["records"][T] = it["m"]
            M["enums"]["Tag" if case["lang"] == "C++" else T + "_Tag"] = it["m"]
            M.setdefault("tags", {})[T] = it["m"]
            uses.append(T)
        elif k == "alias":
            src += a + "pub type %s = %s;\n" % (T, render_type(it["ty"], T, names))
            M["alias"].add(T)
            uses.append(T)
        elif k == "static":
            src += a + "#[no_mangle] pub static mut %s: %s = unsafe { std::mem::zeroed() };\n" % (T, render_type(it["ty"], T, names))
        else:
            fn = "func%dx" % i
            args, an = [], []
            own = None
            if k == "method":
                own = "Owner%d" % i
                sym = own + "_call" if it["own"] else fn
                if it["self"]:
                    args.append("&self")
                    an.append("self")
                    names.ptrs["self"] = ["ref"]
            for t in it["args"]:
                nm = names.new("a")
                ty = render_type(t, nm, names)
                args.append("%s: %s" % ("_" if it["anon"] else nm, ty))
                if it["anon"]:
                    del names.ptrs[nm]
                    names.never.discard(nm)
                an.append(nm)
            ret = ""
            name = sym if own else fn
            if k == "never":
                ret = " -> !"
            elif it["ret"]:
                ret = " -> " + render_type(it["ret"], name, names)
            if it["anon"] and it["args"]:
                # no pointers in unnamed arguments
                args = ["_: u8"]
            if k == "extfn":
                src += 'extern "C" {\n%sfn %s(%s);\n}\n' % (a, fn, ", ".join(args))
            elif own:
                src += "#[repr(C)] pub struct %s { pub own%d: u8 }\nimpl %s { %s#[no_mangle] pub extern \"C\" fn %s(%s)%s { loop {} } }\n" % (own, i, own, a, sym, ", ".join(args), ret)
            else:
                src += a + '#[no_mangle] pub extern "C" fn %s(%s)%s { loop {} }\n' % (fn, ", ".join(args), ret)
            if k == "extfn" and it["anon"] and it["args"]:
                swift = None
            elif own and not it["own"]:
                swift = name
            elif own:
                swift = "%s.call(%s)" % (own, "".join(x + ":" for x in an))
            else:
                swift = "%s(%s)" % (name, "".join(x + ":" for x in an))
            M["fns"][name] = {"m": it["m"], "ext": k == "extfn", "never": k == "never", "swift": swift}
    src += '#[no_mangle] pub extern "C" fn use_all(%s) {}\n' % ", ".join("u%d: %s" % (j, u if u in M["alias"] else "*const " + u) for j, u in enumerate(uses))
    M["fns"]["use_all"] = {"m": {}, "ext": False, "never": False, "swift": "use_all(%s)" % "".join("u%d:" % j for j in range(len(uses)))}
    for j, u in enumerate(uses):
        names.ptrs["u%d" % j] = [] if u in M["alias"] else ["const"]
    return src, M


TOK = re.compile(r'^[ \t]*#[^\n]*|//[^\n]*|"(?:[^"\\\n]|\\.)*"|\w+|[^\w\s]', re.M)


def tokens(h):
    return [m.group(0).strip() for m in TOK.finditer(h) if not m.group(0).startswith("//")]


def att(key, case, note=None):
    """the tokens of an attribute text, or []"""
    if key not in case["on"]:
        return []
    n = "VPATT_" + key.replace(".", "_").upper()
    if key.endswith("with_note"):
        out = [n, "(", ("note", note)]
        if case["twice"]:
            out += [",", ("note", note)]
        return out + [")"]
    return [n]


def setting(key, case):
    n = "VPATT_" + key.replace(".", "_").upper()
    if key.endswith("with_note"):
        return n + ("({}, {})" if case["twice"] else "({})")
    return n


def deprecated(sect, m, case, variant=False):
    if "dep" not in m:
        return []
    note = m["dep"][1] if len(m["dep"]) > 1 else None
    key = sect + (".deprecated_variant" if variant else ".deprecated")
    return att(key + "_with_note", case, note) if note is not None else att(key, case)


def close(t, i):
    """index of the brace matching the one at i"""
    depth = 0
    for j in range(i, len(t)):
        if t[j] == "{":
            depth += 1
        elif t[j] == "}":
            depth -= 1
            if depth == 0:
                return j
    return None


def expected(t, case, M):
    cxx = case["lang"] == "C++"
    ins = {}        # index -> tokens inserted before t[index]
    def put(i, toks, first=False):
        if toks:
            ins[i] = (list(toks) + ins.get(i, [])) if first else (ins.get(i, []) + list(toks))
    names = M["names"]
    seen = set()
    for i, x in enumerate(t):
        if x in ("struct", "union"):
            j, nm = i + 1, None
            if t[j] == "{":
                e = close(t, j)
                nm = t[e + 1] if e and re.fullmatch(r"\w+", t[e + 1]) else None
                at = i + 1
            elif j + 1 < len(t) and t[j + 1] == "{":
                nm, at = t[j], j
            m = M["records"].get(nm) if nm else None
            if m is None and nm:
                m = M["records"].get(re.sub(r"_u8$", "", nm))
            if m is not None:
                put(at, (att("struct.must_use", case) if "mu" in m else []) + deprecated("struct", m, case))
                seen.add(nm)
        elif x == "enum" and t[i - 1] != "typedef" or x == "enum" and t[i - 1] == "typedef":
            j = i + 1
            if t[j] == "class":
                j += 1
            at = j
            nm = None
            if t[j] != "{":
                nm = t[j]
                j += 1
            while t[j].startswith("#") or t[j] == ":" or re.fullmatch(r"\w+", t[j]) and t[j - 1] == ":":
                j += 1
            if t[j] != "{":
                continue
            if nm is None:
                e = close(t, j)
                nm = t[e + 1]
            if nm == "Tag":
                # the record around it
                k, depth = i, 0
                while not (t[k] == "{" and depth == 0):
                    depth += (t[k] == "}") - (t[k] == "{" and k != i)
                    k -= 1
                m = M["tags"].get(t[k - 1])
            else:
                m = M["enums"].get(nm)
            if m is not None:
                put(at, (att("enum.must_use", case) if "mu" in m and cxx else []) + deprecated("enum", m, case))
        elif x in M["variants"] and t[i + 1] in (",", "="):
            put(i + 1, deprecated("enum", M["variants"][x], case, True))
        if x in M["fns"] and t[i + 1] == "(" and (i == 0 or t[i - 1] != "."):
            f = M["fns"][x]
            s = i
            while s > 0 and t[s - 1] not in (";", "}", "{") and not t[s - 1].startswith("#"):
                s -= 1
            if t[s] == "extern" and t[s + 1].startswith('"'):
                s += 2
            e = i
            while t[e] != ";":
                e += 1
            pre, post = [], []
            if not f["ext"]:
                pre = att("fn.prefix", case) + (att("fn.must_use", case) if "mu" in f["m"] else []) + deprecated("fn", f["m"], case)
                post = att("fn.postfix", case)
            if f["never"]:
                post = att("fn.no_return", case) + post
            if f["swift"] and "fn.swift_name_macro" in case["on"]:
                post = post + ["VPATT_FN_SWIFT_NAME_MACRO", "("] + tokens(f["swift"]) + [")"]
            put(s, pre, True)
            put(e, post)
            seen.add(x)
        if x in names.ptrs and not (x in M["fns"] and t[i + 1] != "("):
            stars = []
            k = i - 1
            if cxx and x in M["alias"] and t[i - 1] == "using":
                k = i
                while t[k] != ";":
                    k += 1
                if names.ptrs[x] and case["items"][int(re.match(r"Item(\d+)T", x).group(1))]["ty"][0] == "fn":
                    k = i
                    while not (t[k] == "*" and t[k - 1] == "("):
                        k += 1
                    k += 1
                elif "[" in t[i:k]:
                    k = i + t[i:k].index("[")
                k -= 1
            while k >= 0 and t[k] in ("*", "const", "(") and not (t[k] == "(" and t[k - 1] not in ("*", "void") and not re.fullmatch(r"\w+", t[k - 1])):
                if t[k] == "(" and (stars == [] or True):
                    break
                if t[k] == "*":
                    stars.append(k)
                k -= 1
            kinds = names.ptrs[x]
            # a leading `const` in front of the pointee is not a star
            if x in M["alias"] and not cxx and "typedef" not in t[max(0, i - 40):i]:
                continue
            if not stars and (t[i - 1] in (",", "*") or re.fullmatch(r"\w+", t[i - 1])) and kinds and x in M["alias"]:
                continue    # a use of the alias
            for s, kd in zip(stars, kinds):
                a = att("ptr.non_null_attribute" if kd in NONNULL else "ptr.nullable_attribute", case)
                put(s + (2 if t[s + 1] == "const" else 1), a)
            if x in names.never and stars:
                # the end of the callback's parameter list
                k = (stars[0] if cxx and x in M["alias"] else i)
                while t[k] != ")":
                    k += 1
                k += 1
                d = 0
                while True:
                    d += (t[k] == "(") - (t[k] == ")")
                    k += 1
                    if d == 0:
                        break
                put(k, att("fn.no_return", case), True)
    out = []
    for i, x in enumerate(t):
        out += ins.get(i, [])
        out.append(x)
    return out, ins, seen


def cstring(tok):
    """the value of a C string literal; None if it is not one"""
    out, i, s = [], 0, tok[1:-1]
    while i < len(s):
        c = s[i]
        if c != "\\":
            if ord(c) < 32:
                return None
            out.append(c)
            i += 1
            continue
        n = s[i + 1]
        if n in "\\\"'?":
            out.append(n)
            i += 2
        elif n in "nrtabfv":
            out.append({"n": "\n", "r": "\r", "t": "\t", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}[n])
            i += 2
        elif n in "01234567":
            m = re.match(r"[0-7]{1,3}", s[i + 1:])
            out.append(chr(int(m.group(0), 8)))
            i += 1 + len(m.group(0))
        elif n == "x":
            m = re.match(r"[0-9a-fA-F]+", s[i + 2:])
            if not m or int(m.group(0), 16) > 255:
                return None
            out.append(chr(int(m.group(0), 16)))
            i += 2 + len(m.group(0))
        elif n in "uU":
            m = re.match(r"[0-9a-fA-F]{%d}" % (4 if n == "u" else 8), s[i + 2:])
            if not m or int(m.group(0), 16) < 0xa0:
                return None
            out.append(chr(int(m.group(0), 16)))
            i += 2 + len(m.group(0))
        else:
            return None
    return "".join(out)


def check(case, ctx):
    d = ctx.fresh()
    src, M = build(case)
    base = {"language": case["lang"], "no_includes": True, "enum": {"enum_class": case["enum_class"]}}
    if case["lang"] != "C++":
        base["style"] = case["style"]
    if case["ll"] is not None:
        base["line_length"] = case["ll"]
    cfg = json.loads(json.dumps(base))
    for k in case["on"]:
        a, b = k.split(".")
        cfg.setdefault(a, {})[b] = setting(k, case)
    h0 = cc.bindgen(ctx, d, src, base, out="base.h")
    h1 = cc.bindgen(ctx, d, None, cfg, out="full.h")
    t0, t1 = tokens(h0), tokens(h1)
    if any("VPATT" in x for x in t0):
        cc.fail("attribute text without a setting", src, base, h0)
    if case["lang"] == "Cython":
        # only function prefixes and postfixes could be meant, but Cython has no place for attributes: see below
        want, ins, seen = expected_cython(t0, case, M)
    else:
        want, ins, seen = expected(t0, case, M)
    ok = len(want) == len(t1)
    for i in range(min(len(want), len(t1))):
        w, g = want[i], t1[i]
        if isinstance(w, tuple):
            good = g.startswith('"') and cstring(g) == w[1]
        else:
            good = w == g
        if not good:
            cc.fail("attribute texts: at token %d, expected %r but found %r (after %s)" % (i, w, g, " ".join(map(str, t1[max(0, i - 12):i]))), src, cfg, h1)
    if not ok:
        cc.fail("attribute texts: the header has %d tokens, expected %d" % (len(t1), len(want)), src, cfg, h1)
    n = sum(len([x for x in v if isinstance(x, str) and x.startswith("VPATT")]) for v in ins.values())
    for f in M["fns"]:
        if f not in seen:
            cc.fail("function %s is missing" % f, src, cfg, h1)
    ctx.evaluated(n + 1)
    ctx.label("lang:" + case["lang"], *["item:" + it["k"] for it in case["items"]])
    ctx.nontrivial(n >= 2 and (len(case["on"]) < len(SETTINGS) or any("mu" not in it["m"] for it in case["items"])))


def expected_cython(t, case, M):
    """Cython declarations carry no attributes but the configured function prefix and postfix"""
    ins, seen = {}, set()
    for i, x in enumerate(t):
        if x in M["fns"] and t[i + 1] == "(":
            seen.add(x)
            if M["fns"][x]["ext"]:
                continue
            s = i
            while s > 0 and t[s - 1] not in (";", ":", ",", "pass") and not t[s - 1].startswith("#"):
                s -= 1
            e = i
            while t[e] != ";":
                e += 1
            for at, toks in ((s, att("fn.prefix", case)), (e, att("fn.postfix", case))):
                if toks:
                    ins[at] = ins.get(at, []) + toks
    out = []
    for i, x in enumerate(t):
        out += ins.get(i, [])
        out.append(x)
    return out, ins, seen


def strategy(tier):
    return cases()
