"""C10: names of items, fields, arguments, variants and constants under every renaming option, against an independent model."""
from hypothesis import assume, strategies as st
import cc, hdr, rs, vp

PROP = "C10"
N = {"quick": 2400, "thorough": 80000}
RULE = ("case = program of structs, tuple structs, unions, fieldless and tagged enums, aliases, opaque types, generics, constants (free and associated), "
        "functions and statics with identifiers of every shape (snake, camel, digits, capitals, leading/trailing underscores, C/C++ and Rust keywords, "
        "non-ASCII) x prefix / rename table (including swaps) / renaming_overrides_prefixing / rename rules in every spelling, globally and as annotations; "
        "all declared names are compared with an independent naming model and the header is compiled with probes that use the modelled names and types; "
        "non-trivial = at least two different renaming mechanisms are active")
ASSUMPTIONS = ["word splitting of case rules follows the documented case conventions (model in checks/c10.py)",
               "reserved words are only generated as field, argument and variant names: items keep their (linkage) names",
               "names that would collide after renaming are not generated"]
B = st.booleans()

KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const
consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export
extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
register reinterpret_cast requires restrict return short signed sizeof static static_assert static_cast struct switch template this thread_local throw
true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split())
RUST_KW = set("""as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true
type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen""".split())
SPELL = {"None": ["None", "none"], "Gecko": ["mGeckoCase", "GeckoCase", "gecko_case"], "Lower": ["lowercase", "LowerCase", "lower_case"],
         "Upper": ["UPPERCASE", "UpperCase", "upper_case"], "Pascal": ["PascalCase", "pascal_case"], "Camel": ["camelCase", "CamelCase", "camel_case"],
         "Snake": ["snake_case", "SnakeCase"], "Shouty": ["SCREAMING_SNAKE_CASE", "ScreamingSnakeCase", "screaming_snake_case"],
         "Qualified": ["QUALIFIED_SCREAMING_SNAKE_CASE", "QualifiedScreamingSnakeCase", "qualified_screaming_snake_case"],
         "Prefix": ["prefix:pre_", "prefix:X", "prefix:_q"]}
KIND = {s: k for k, l in SPELL.items() for s in l}
RULES = [s for l in SPELL.values() for s in l]


# ------------------------------------------------------------------ the model
def words(s):
    """split an identifier into words: at non-alphanumerics, at lower->Upper, and before the last capital of an acronym"""
    out = []
    for w in "".join(c if c.isalnum() else " " for c in s).split():
        start = 0
        last = None           # case of the last cased letter of the current word
        for i, c in enumerate(w):
            nxt = w[i + 1] if i + 1 < len(w) else ""
            now = "l" if c.islower() else "u" if c.isupper() else last
            if nxt and now == "l" and nxt.isupper():
                out.append(w[start:i + 1])
                start, last = i + 1, None
            elif nxt and last == "u" and c.isupper() and nxt.islower():
                out.append(w[start:i])
                start, last = i, None
            else:
                last = now
        out.append(w[start:])
    return [x for x in out if x]


def capw(w):
    return w[0].upper() + w[1:].lower()


def apply(rule, s, ctx="", enum=None):
    k = KIND[rule]
    w = words(s)
    if k == "None":
        return s
    if k == "Gecko":
        return ctx + "".join(capw(x) for x in w)
    if k == "Lower":
        return s.lower()
    if k == "Upper":
        return s.upper()
    if k == "Pascal":
        return "".join(capw(x) for x in w)
    if k == "Camel":
        return "".join(x.lower() if i == 0 else capw(x) for i, x in enumerate(w))
    if k == "Snake":
        return "_".join(x.lower() for x in w)
    if k == "Shouty":
        return "_".join(x.upper() for x in w)
    if k == "Qualified":
        return ("_".join(x.upper() for x in words(enum)) + "_" if enum else "") + "_".join(x.upper() for x in w)
    return rule[len("prefix:"):] + s


def esc(s):
    return s + "_" if s in KEYWORDS else s


def item_name(o, n):
    if n in o["rename"]:
        n = o["rename"][n]
        if o["override"]:
            return n
    return o["prefix"] + n


def none(rule):
    return rule is None or KIND[rule] == "None"


def field_names(it, o):
    raw = [f[0] for f in it["fields"]]
    fn = it.get("field_names")
    rule = it.get("rule") or o["fields"]
    if fn:
        res = fn + raw[len(fn):]
    elif not none(rule):
        res = [apply(rule, x, "m") for x in raw]
    else:
        res = raw
    return [esc("_" + x if x[0].isdigit() else x) for x in res]


def variant_names(it, o):
    en = item_name(o, it["name"])
    pw = it["prefix_with_name"] if it.get("prefix_with_name") is not None else o["prefix_with_name"]
    rule = it.get("rule") or o["variants"]
    out = []
    for v in it["variants"]:
        n = esc(v["name"])
        if pw:
            n = en + ("" if o["mangle_nounder"] else "_") + n
        if not none(rule):
            n = esc(apply(rule, n, "", en))
        out.append(n)
    return out


def payload_names(it, o):
    rule = it.get("rule") or o["variants"]
    out = []
    for v in it["variants"]:
        n = esc(apply(o["payload"], v["name"], "m"))
        out.append(n if none(rule) else esc(apply(rule, n, "m")))
    return out


def arg_names(f, o):
    rule = f.get("rule") or o["args"]
    return [esc(a[0] if none(rule) else apply(rule, a[0], "a")) for a in f["args"]]


def mangled(t, o):
    """name of a generic instance in C"""
    def arg(a):
        s = a[1] if a[0] == "p" else t0(a)
        return apply(o["mangle_types"], s)

    def t0(a):
        return a[1] if not a[2] else mang(a)

    def mang(a):
        sep = "" if o["mangle_nounder"] else "_"
        return a[1] + sep + arg(a[2][0])
    return item_name(o, mang(t))


# ------------------------------------------------------------------ generation
SHAPES = ["{0}", "{0}", "{0}_{1}", "{0}{C1}", "{U0}", "{U0}_{U1}", "{0}2", "{0}_2{1}", "_{0}", "{0}_", "{C0}{C1}", "x1{C0}2z", "XML{C0}", "{0}__{1}",
          "{0}_{1}_{0}", "{C0}3{C1}", "naïve_{0}", "{U0}{C1}", "{0}1{1}"]


def shape(draw, i, shapes=SHAPES):
    a, b = rs.word(i), rs.word(i + 5)
    return draw(st.sampled_from(shapes)).format(a, b, U0=a.upper(), U1=b.upper(), C0=rs.cap(a), C1=rs.cap(b))


KWPOOL = sorted((KEYWORDS | {"type", "fn", "match", "in", "loop", "ref"}) - {"this"} | {"this"})


def ident(draw, i):
    if draw(st.integers(0, 5)) == 0:
        return draw(st.sampled_from(KWPOOL))
    return shape(draw, i)


def distinct(raw, namer):
    """make identifiers distinct both in Rust and after renaming"""
    seen = set()
    for i, x in enumerate(raw):
        n = namer(x[0])
        if n in seen or x[0] in [y[0] for y in raw[:i]] or not n:
            x[0] = "zz%dq" % i
            n = namer(x[0])
        seen.add(n)
        seen.add(esc(n))


TSHAPES = ["{C0}{C1}", "{C0}{C1}", "{C0}", "{U0}{C1}", "{C0}2{C1}", "{0}_{1}_t", "{C0}_{C1}", "{U0}", "{C0}1"]
PR = ["u8", "u16", "i32", "u64", "f32", "bool", "i8"]


@st.composite
def cases(draw):
    rule = lambda p: draw(st.sampled_from(RULES)) if draw(st.integers(0, p)) == 0 else None
    o = {"lang": draw(st.sampled_from(["c", "cxx"])), "style": draw(st.sampled_from(["both", "tag", "type"])),
         "prefix": draw(st.sampled_from(["", "", "Px", "capi_", "T", "_"])), "override": draw(B),
         "fields": rule(1) or "None", "args": rule(1) or "None", "variants": rule(1) or "None", "prefix_with_name": draw(st.integers(0, 2)) == 0,
         "payload": rule(4) or "SnakeCase", "mangle_types": rule(3) or "None", "mangle_nounder": draw(st.integers(0, 3)) == 0,
         "assoc": rule(2) or "None", "in_body": draw(st.integers(0, 2)) == 0, "static_const": draw(st.integers(0, 3)) != 0, "rename": {}}
    if KIND[o["payload"]] in ("Qualified", "None", "Prefix"):
        o["payload"] = "SnakeCase"
    if KIND[o["mangle_types"]] in ("Prefix", "Gecko", "Qualified"):
        o["mangle_types"] = "PascalCase"
    types, vals = [], []
    consts = [["%s_LEN" % rs.word(20 + i).upper() if draw(B) else rs.word(20 + i) + "Len", draw(st.integers(1, 5))] for i in range(draw(st.integers(0, 2)))]
    gens = []

    def ty(depth=2, value=True):
        k = draw(st.sampled_from(["p", "val", "ptr", "arr", "fn", "gen", "p"])) if depth else "p"
        if k == "val" and vals:
            return ["path", draw(st.sampled_from(vals)), []]
        if k == "ptr":
            c = [t["name"] for t in types if not t.get("gen")]
            inner = ["path", draw(st.sampled_from(c)), []] if c and draw(B) else ty(depth - 1)
            if inner[0] == "fn":
                inner = ["p", "u8"]
            return ["ptr", draw(st.sampled_from(["const", "mut"])), inner]
        if k == "arr" and value:
            return ["arr", ["p", draw(st.sampled_from(PR))], draw(st.sampled_from([c[0] for c in consts])) if consts and draw(B) else draw(st.integers(1, 4))]
        if k == "fn":
            a = [[ident(draw, j), None] for j in range(draw(st.integers(0, 2)))]
            distinct(a, esc)
            return ["fn", [ty(0) for _ in a], None if draw(B) else ty(0), [rname(x[0]) for x in a] if draw(B) else None]
        if k == "gen" and gens:
            return ["path", draw(st.sampled_from(gens)), [["p", draw(st.sampled_from(PR))] if not vals or draw(B) else ["path", draw(st.sampled_from(vals)), []]]]
        return ["p", draw(st.sampled_from(PR))]
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["struct", "struct", "tuple", "union", "enum", "tagged", "tagged", "alias", "opaque", "transparent", "gen"]))
        it = {"k": k, "name": shape(draw, i, TSHAPES)}
        if k in ("struct", "union", "tuple", "gen"):
            fs = [[ident(draw, j) if k not in ("tuple",) else str(j), ["p", draw(st.sampled_from(PR))] if k == "union" else ty()] for j in range(draw(st.integers(1, 4)))]
            if k == "gen":
                fs.append(["genfield", draw(st.sampled_from([["gp", "T"], ["ptr", "mut", ["gp", "T"]]]))])
                it["gen"] = True
            it["fields"] = fs
            if draw(st.integers(0, 2)) == 0:
                it["rule"] = draw(st.sampled_from(RULES))
            if k != "gen" and draw(st.integers(0, 4)) == 0:
                n = len(fs) if draw(B) else draw(st.integers(1, len(fs)))
                it["field_names"] = ["renamed%d" % j for j in range(n)]
            if k != "tuple":
                distinct(fs, lambda x: esc(apply(it.get("rule") or o["fields"], x, "m")))
            if k == "struct" or k == "tuple":
                it["assoc"] = [["AC_%s" % rs.word(j).upper() if draw(B) else "ac" + rs.cap(rs.word(j)), draw(st.integers(0, 99))] for j in range(draw(st.integers(0, 2)))]
                if draw(st.integers(0, 4)) == 0:
                    it["assoc_rule"] = draw(st.sampled_from(RULES))
        elif k in ("enum", "tagged"):
            it["repr"] = draw(st.sampled_from(["C", "u8", "i32"]))
            it["prefix_with_name"] = draw(st.sampled_from([None, None, True, False]))
            if draw(st.integers(0, 2)) == 0:
                it["rule"] = draw(st.sampled_from(RULES))
            r = it.get("rule") or o["variants"]
            pw = it["prefix_with_name"] if it["prefix_with_name"] is not None else o["prefix_with_name"]
            vs = []
            for j in range(draw(st.integers(1, 4))):
                if draw(st.integers(0, 5)) == 0:
                    n = draw(st.sampled_from(["Default", "Delete", "Int", "Void", "Not", "Class", "True"]))
                    if draw(B) and none(r) and not pw:
                        n = draw(st.sampled_from(KWPOOL))
                else:
                    n = shape(draw, i * 4 + j + 3, ["{C0}{C1}", "{C0}{C1}", "{C0}", "{U0}", "{C0}2{C1}", "{C0}2", "{C0}_{C1}", "{0}{C1}", "XML{C0}"])
                vs.append([n])
            en = item_name(o, it["name"])
            # in C all enumerators share one scope: make them unique with the enum's word
            taken = {x for t in types if t["k"] in ("enum", "tagged") for x in t["cn"]}
            it["variants"], it["cn"], mem = [], [], set()
            for j, (n,) in enumerate(vs):
                for cand in (n, rs.cap(rs.word(i * 4 + j)) + "Vv%d%d" % (i, j)):
                    v = {"name": cand}
                    cn = variant_names(dict(it, variants=[v]), o)[0]
                    pn = payload_names(dict(it, variants=[v]), o)[0]
                    if cn in taken or not cn or cn[0].isdigit() or pn in mem or cand in [x["name"] for x in it["variants"]]:
                        continue
                    taken.add(cn)
                    mem.add(pn)
                    it["cn"].append(cn)
                    if k == "tagged":
                        q = 1 if not it["variants"] else draw(st.integers(0, 2))
                        if q == 1:
                            v["tuple"] = [ty(1) for _ in range(draw(st.integers(1, 2)))]
                        elif q == 2:
                            v["named"] = [[ident(draw, jj), ty(1)] for jj in range(draw(st.integers(1, 2)))]
                            distinct(v["named"], lambda x: esc(apply(o["fields"], x, "m")))
                    it["variants"].append(v)
                    break
            if not it["variants"] or (k == "tagged" and not (it["variants"][0].get("tuple"))):
                it["k"], it["fields"] = "struct", [["onlyfield", ["p", "u8"]]]
        elif k in ("alias", "transparent"):
            it["ty"] = ty()
            if it["ty"][0] == "arr":
                it["ty"] = ["p", "u16"]
        if it["name"] in [t["name"] for t in types]:
            it["name"] = "Uniq" + rs.cap(rs.word(i)) + "Ty"
            if it["k"] in ("enum", "tagged"):
                continue
        types.append(it)
        if it["k"] == "gen":
            gens.append(it["name"])
        elif it["k"] != "opaque":
            vals.append(it["name"])
    for t in types:
        t.pop("cn", None)
    fns = []
    for i in range(draw(st.integers(1, 3))):
        args = [[ident(draw, j + 7), ty(2, False)] for j in range(draw(st.integers(0, 4)))]
        f = {"name": shape(draw, 10 + i, ["{0}_{1}_fn", "{0}{C1}Fn", "{C0}Fn", "{0}2fn"]), "args": args, "ret": None if draw(B) else ty(2, False)}
        if draw(st.integers(0, 2)) == 0:
            f["rule"] = draw(st.sampled_from(RULES))
        distinct(args, lambda x: esc(apply(f.get("rule") or o["args"], x, "a")))
        fns.append(f)
    statics = [[rs.word(16 + i).upper() + "_ST", ["ptr", "mut", ["path", draw(st.sampled_from(vals)), []]] if vals and draw(B) else ["p", "u32"]] for i in range(draw(st.integers(0, 2)))]
    names = [t["name"] for t in types if t["k"] != "gen" or o["lang"] == "cxx"] + [c[0] for c in consts] + [f["name"] for f in fns] + [s[0] for s in statics]
    ren = {}
    for n in names:
        if draw(st.integers(0, 3)) == 0:
            ren[n] = "My" + n.strip("_") + "Renamed" if draw(B) else "rn_" + n.lower().strip("_") + str(len(ren))
    # swap two type names
    tn = [t["name"] for t in types if t["k"] not in ("gen", "enum", "tagged")]
    if len(tn) >= 2 and draw(st.integers(0, 2)) == 0:
        a, b = draw(st.permutations(tn))[:2]
        ren[a], ren[b] = b, a
    old = o["rename"]
    o["rename"] = ren
    fin = [item_name(o, t["name"]) for t in types] + [item_name(o, c[0]) for c in consts]
    ev = [x for t in types if t["k"] in ("enum", "tagged") for x in variant_names(t, o)]
    fin += [f["name"] for f in fns] + [s[0] for s in statics] + ev
    # without C++ scopes assoc constants share the namespace, too
    for t in types:
        fin += [assoc_name(t, c[0], o).replace("::", "$$$") for c in t.get("assoc") or []]
    if len(set(fin)) != len(fin) or any(x[0].isdigit() for x in ev):
        o["rename"] = old
        fin = [item_name(o, t["name"]) for t in types] + [item_name(o, c[0]) for c in consts] + [f["name"] for f in fns] + [s[0] for s in statics]
        fin += [x for t in types if t["k"] in ("enum", "tagged") for x in variant_names(t, o)]
        assume(len(set(fin)) == len(fin))
    return {"types": types, "consts": consts, "fns": fns, "statics": statics, "o": o}


def strategy(tier):
    return cases()


def rname(n):
    return "r#" + n if n in RUST_KW else n


def ann(**kw):
    return "".join("/// cbindgen:%s\n" % v for v in kw.values() if v)


def render(case):
    s = ""
    for n, v in case["consts"]:
        s += "pub const %s: usize = %d;\n" % (n, v)
    for t in case["types"]:
        k, n = t["k"], t["name"]
        a = ann(r=t.get("rule") and "rename-all=" + t["rule"], f=t.get("field_names") and "field-names=[%s]" % ", ".join(t["field_names"]),
                p=t.get("prefix_with_name") is not None and "prefix-with-name=%s" % str(t["prefix_with_name"]).lower(),
                c=t.get("assoc_rule") and "rename-associated-constant=" + t["assoc_rule"])
        if k in ("struct", "union", "gen"):
            s += a + "#[repr(C)]\npub %s %s%s {\n%s}\n" % ("union" if k == "union" else "struct", n, "<T>" if k == "gen" else "",
                                                       "".join("    pub %s: %s,\n" % (rname(f[0]), rs.rust(f[1])) for f in t["fields"]))
        elif k == "tuple":
            s += a + "#[repr(C)]\npub struct %s(%s);\n" % (n, ", ".join("pub " + rs.rust(f[1]) for f in t["fields"]))
        elif k in ("enum", "tagged"):
            s += a + "#[repr(%s)]\npub enum %s {\n" % (t["repr"], n)
            for v in t["variants"]:
                s += "    " + rname(v["name"])
                if v.get("tuple"):
                    s += "(%s)" % ", ".join(rs.rust(x) for x in v["tuple"])
                elif v.get("named"):
                    s += " { %s }" % ", ".join("%s: %s" % (rname(f[0]), rs.rust(f[1])) for f in v["named"])
                s += ",\n"
            s += "}\n"
        elif k == "alias":
            s += "pub type %s = %s;\n" % (n, rs.rust(t["ty"]))
        elif k == "transparent":
            s += "#[repr(transparent)]\npub struct %s { pub inner: %s }\n" % (n, rs.rust(t["ty"]))
        else:
            s += "pub struct %s { x: Vec<u8> }\n" % n
        if t.get("assoc"):
            s += "impl %s {\n%s}\n" % (n, "".join("    pub const %s: i32 = %d;\n" % (c, v) for c, v in t["assoc"]))
    for f in case["fns"]:
        s += ann(r=f.get("rule") and "rename-all=" + f["rule"]) + '#[no_mangle]\npub extern "C" fn %s(%s)%s { loop {} }\n' % (
            f["name"], ", ".join("%s: %s" % (rname(a), rs.rust(t)) for a, t in f["args"]), " -> " + rs.rust(f["ret"]) if f["ret"] else "")
    for n, t in case["statics"]:
        s += "#[no_mangle]\npub static mut %s: %s = %s;\n" % (n, rs.rust(t), "0" if t[0] == "p" else "std::ptr::null_mut()")
    tn = [t["name"] for t in case["types"] if t["k"] != "gen"]
    s += '#[no_mangle]\npub extern "C" fn use_all_types(%s) {}\n' % ", ".join("a%d: *mut %s" % (i, n) for i, n in enumerate(tn))
    return rs.RUST_HEAD + s


def assoc_name(t, c, o):
    n = item_name(o, t["name"])
    if o["lang"] == "cxx" and o["in_body"] and o["static_const"]:
        return n + "::" + c
    r = t.get("assoc_rule") or o["assoc"]
    return (n if none(r) else apply(r, n)) + "_" + c


def all_types(case):
    for t in case["types"]:
        if t["k"] == "gen":
            continue
        yield from [f[1] for f in t.get("fields") or []]
        for v in t.get("variants") or []:
            yield from v.get("tuple") or []
            yield from [f[1] for f in v.get("named") or []]
        if t.get("ty"):
            yield t["ty"]
    for f in case["fns"]:
        yield from [a[1] for a in f["args"]]
        if f["ret"]:
            yield f["ret"]


def ptr_to(t):
    return ["ptr", "mut", t]


def check(case, ctx):
    d = ctx.fresh()
    o = case["o"]
    cxx = o["lang"] == "cxx"
    src = render(case)
    p = cc.rust_check(d, src)
    if p.returncode != 0:
        raise vp.Discard("rustc: " + p.stderr.split("\n")[0])
    cfg = {"language": "C++" if cxx else "C", "export": {"mangle": {"rename_types": o["mangle_types"], "remove_underscores": o["mangle_nounder"]}},
           "struct": {"rename_fields": o["fields"], "rename_associated_constant": o["assoc"], "associated_constants_in_body": o["in_body"]},
           "fn": {"rename_args": o["args"]}, "const": {"allow_static_const": o["static_const"]},
           "enum": {"rename_variants": o["variants"], "prefix_with_name": o["prefix_with_name"], "rename_variant_name_fields": o["payload"]}}
    cfg.update(cc.CXX_INC)
    if o["prefix"]:
        cfg["export"]["prefix"] = o["prefix"]
    if o["rename"]:
        cfg["export"]["rename"] = o["rename"]
    cfg["export"]["renaming_overrides_prefixing"] = o["override"]
    style = o["style"]
    if not cxx:
        cfg["style"] = style
    h = cc.bindgen(ctx, d, src, cfg, out="out.h")
    ds = hdr.decls(h)
    F = lambda m: cc.fail(m, src, cfg, h)
    one = lambda name, kinds: [x for x in ds if x["kind"] in kinds and name in (x["name"], x.get("tag"))]
    names, alias, spell = {}, {}, {}
    tagk = {"struct": "struct ", "tuple": "struct ", "union": "union ", "opaque": "struct ", "gen": "struct "}
    for t in case["types"]:
        n = item_name(o, t["name"])
        pre = ""
        if not cxx and style == "tag":
            pre = tagk.get(t["k"], "")
            if t["k"] == "enum" and t["repr"] == "C":
                pre = "enum "
            if t["k"] == "tagged":
                pre = "struct " if t["repr"] == "C" else "union "
        names[t["name"]] = pre + n
    used_gen = {}
    insts = {}
    work = list(all_types(case))
    gdef = {t["name"]: t for t in case["types"] if t["k"] == "gen"}
    while work:
        for x in rs.walk(work.pop()):
            if x[0] == "path" and x[2] and rs.rust(x) not in insts:
                insts[rs.rust(x)] = x
                work += [rs.subst(f[1], {"T": x[2][0]}) for f in gdef[x[1]]["fields"]]
    for k, x in insts.items():
        if cxx:
            a = x[2][0]
            alias[k] = "%s<%s>" % (item_name(o, x[1]), names[a[1]] if a[0] == "path" else rs.PRIMS[a[1]])
        else:
            alias[k] = ("struct " if style == "tag" else "") + mangled(x, o)
    # ---- declared names
    want_types = set()
    bodies = []
    for t in case["types"]:
        n = item_name(o, t["name"])
        k = t["k"]
        if k == "gen":
            if cxx:
                if any(x[1] == t["name"] for x in insts.values()):
                    bodies.append((n, t))
            else:
                for x in insts.values():
                    if x[1] == t["name"]:
                        bodies.append((mangled(x, o), t))
            continue
        if k in ("struct", "tuple", "union"):
            bodies.append((n, t))
        elif k in ("enum", "tagged"):
            vn = variant_names(t, o)
            if k == "enum":
                l = one(n, ("enum",))
                body = l[0]["body"] if len(l) == 1 else None
            elif not cxx:
                l = one(n + "_Tag", ("enum",))
                body = l[0]["body"] if len(l) == 1 else None
            else:
                l = one(n, ("struct", "union"))
                body = None
                if len(l) == 1:
                    b = l[0]["body"]
                    for i in range(len(b) - 2):
                        if b[i] == "enum" and "Tag" in b[i + 1:i + 3]:
                            body = hdr.brace_body(b[b.index("{", i):])
                            break
            if body is None:
                F("no unique definition of enum %s under the name %s" % (t["name"], n))
            got = [x[0] for x in hdr.split_top(body, ",") if x]
            if got != vn:
                F("variants of %s are %s, expected %s" % (t["name"], got, vn))
        elif k in ("alias", "transparent"):
            if len(one(n, ("typedef",))) != 1:
                F("alias %s is not declared as %s" % (t["name"], n))
        else:
            if not one(n, ("fwd", "typedef")):
                F("opaque type %s is not declared as %s" % (t["name"], n))
    for n, t in bodies:
        l = one(n, ("struct", "union"))
        if len(l) != 1:
            F("%s is not declared exactly once as %s" % (t["name"], n))
        got = [hdr.declared_name(x) for x in hdr.split_top(l[0]["body"], ";") if x and x[0] != "static"]
        if got != field_names(t, o):
            F("fields of %s are %s, expected %s" % (n, got, field_names(t, o)))
        ctx.evaluated(len(got))
    for f in case["fns"]:
        l = [x for x in ds if x["kind"] == "fn" and x["name"] == f["name"]]
        if len(l) != 1:
            F("function %s is not declared exactly once under its linkage name" % f["name"])
        t = l[0]["toks"]
        i = t.index(f["name"])
        depth, j = 0, i + 1
        while True:
            depth += t[j] in "(["
            depth -= t[j] in ")]"
            if depth == 0:
                break
            j += 1
        args = [hdr.declared_name(x) for x in split_args(t[i + 2:j]) if x and x != ["void"]]
        if args != arg_names(f, o):
            F("arguments of %s are %s, expected %s" % (f["name"], args, arg_names(f, o)))
    for n, _ in case["statics"]:
        if len([x for x in ds if x["kind"] == "static" and x["name"] == n]) != 1:
            F("static %s is not declared under its linkage name" % n)
    # ---- uses: types of fields and signatures, constants
    ct = rs.CTypes(names, alias=alias)
    lens = {c[0]: item_name(o, c[0]) for c in case["consts"]}
    ctget = lambda t: ct.get(sub_len(t, lens))
    chk = []
    for t in case["types"]:
        if t["k"] in ("struct", "tuple", "union"):
            for fnm, f in zip(field_names(t, o), t["fields"]):
                chk.append(("((%s *)0)->%s" % (names[t["name"]], fnm), f[1], "%s.%s" % (t["name"], f[0])))
        if t["k"] == "gen":
            for k, x in insts.items():
                if x[1] == t["name"]:
                    for fnm, f in zip(field_names(t, o), t["fields"]):
                        chk.append(("((%s *)0)->%s" % (alias[k], fnm), rs.subst(f[1], {"T": x[2][0]}), "%s.%s" % (k, f[0])))
        if t["k"] == "tagged":
            pn = payload_names(t, o)
            for v, m in zip(t["variants"], pn):
                base = "((%s *)0)->%s" % (names[t["name"]], m)
                if v.get("tuple") and len(v["tuple"]) == 1 and not cxx:
                    if none(t.get("rule") or o["variants"]) and none(o["fields"]):
                        chk.append((base, v["tuple"][0], "payload of " + v["name"]))
                    continue
                fs = v.get("named") or [[str(j), x] for j, x in enumerate(v.get("tuple") or [])]
                for fnm, f in zip(field_names({"fields": fs}, o), fs):
                    chk.append((base + "." + fnm, f[1], "payload of " + v["name"]))
    body, sa = "", "static_assert" if cxx else "_Static_assert"
    for e, t, what in chk:
        ty = ctget(t)
        if cxx:
            body += 'static_assert(std::is_same<std::remove_reference<decltype(%s)>::type, %s>::value, "VPFAIL %s");\n' % (e, ty, what)
        else:
            body += '_Static_assert(_Generic(&%s, %s *: 1, default: 0), "VPFAIL %s");\n' % (e, ty, what)
    for f in case["fns"]:
        sig = ctget(["fn", [a[1] for a in f["args"]], f["ret"]])
        if cxx:
            body += 'static_assert(std::is_same<decltype(&%s), %s>::value, "VPFAIL signature of %s");\n' % (f["name"], sig, f["name"])
        else:
            body += '_Static_assert(_Generic(&%s, %s: 1, default: 0), "VPFAIL signature of %s");\n' % (f["name"], sig, f["name"])
    for n, t in case["statics"]:
        ty = ctget(t)
        body += ('static_assert(std::is_same<decltype(%s), %s>::value, "VPFAIL static %s");\n' if cxx else '_Static_assert(_Generic(&%s, %s *: 1, default: 0), "VPFAIL static %s");\n') % (n, ty, n)
    for n, v in case["consts"]:
        body += '%s(%s == %d, "VPFAIL constant %s");\n' % (sa, item_name(o, n), v, n)
    for t in case["types"]:
        for c, v in t.get("assoc") or []:
            if cxx and o["static_const"] and o["in_body"]:
                body += '#ifndef %s_NOPE\nstatic_assert(sizeof(%s) == 4, "VPFAIL constant");\n#endif\n' % (c, assoc_name(t, c, o))
            else:
                body += '%s(%s == %d, "VPFAIL constant %s");\n' % (sa, assoc_name(t, c, o), v, c)
    head = '#include "out.h"\n#include <stddef.h>\n' + ("#include <type_traits>\n" if cxx else "")
    p = cc.compile_c(d, "probe", head + "\n".join(ct.lines) + "\n" + body, cxx=cxx)
    if p.returncode != 0:
        cc.fail("the modelled names and types do not match the header", src, cfg, h, p.stderr[:3000])
    ctx.evaluated(len(chk) + len(case["fns"]))
    act = [bool(o["prefix"]), bool(o["rename"]), not none(o["fields"]), not none(o["args"]), not none(o["variants"]), o["prefix_with_name"],
           any(t.get("rule") or t.get("field_names") for t in case["types"])]
    for x, y in zip(act, ["prefix", "rename", "fields", "args", "variants", "prefix_with_name", "annotation"]):
        if x:
            ctx.label("opt:" + y)
    for t in case["types"]:
        ctx.label("type:" + t["k"])
    ctx.nontrivial(sum(act) >= 2)


def sub_len(t, lens):
    """array lengths named by constants -> exported constant name"""
    k = t[0]
    if k in ("ptr", "ref", "wrap"):
        return [k, t[1], sub_len(t[2], lens)]
    if k == "arr":
        return [k, sub_len(t[1], lens), lens.get(t[2], t[2]) if isinstance(t[2], str) else t[2]]
    if k == "fn":
        return [k, [sub_len(a, lens) for a in t[1]], t[2] if t[2] in (None, "never") else sub_len(t[2], lens)] + t[3:]
    return t


def split_args(t):
    """split at top-level commas, also outside template brackets"""
    out, cur, d = [], [], 0
    for x in t:
        if x in "([{<":
            d += 1
        elif x in ")]}>":
            d -= 1
        if x == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out
