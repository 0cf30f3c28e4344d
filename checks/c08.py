"""C08: preprocessing the header under an assignment == header of the program resolved under the assignment."""
import itertools, os, random, re
from hypothesis import strategies as st
import cc, vp, hdr, rs

PROP = "C08"
N = {"quick": 2000, "thorough": 40000}
RULE = ("case = tree of inline modules with functions, statics, constants, structs, unions, plain and tagged enums, aliases, opaque types, impl blocks "
        "(functions, associated constants) and extern blocks, where every item, field, variant, module, impl and extern block may carry cfg attributes "
        "built from all/any/not over atoms (names and key=value pairs), some without a configured define, plus same-named twins with complementary cfgs; "
        "for several assignments of the defines the preprocessed header (gcc -E) is compared, as a multiset of declarations, with the preprocessed header of the "
        "program in which the cfgs were resolved by this file; the same for Cython's IF blocks with a small evaluator; non-trivial = some cfg depends on a define "
        "and at least two assignments give different headers")
ASSUMPTIONS = ["gcc -E evaluates #if defined(...) correctly", "predicates without a define are dropped syntactically: any(x, unknown) = x, not(unknown) dropped"]
B = st.booleans()

ATOMS = [("unix", "unix", "VP_UNIX"), ("windows", "windows", "VP_WINDOWS"),
         ('feature = "alpha"', "feature = alpha", "VP_ALPHA"), ('feature = "bravo"', "feature=bravo", "VP_BRAVO"),
         ('target_os = "linux"', "target_os = linux", "VP_LINUX"), ('feature = "unix"', "feature = unix", "VP_FUNIX"),
         ('target_arch = "x86_64"', None, None), ("debug_assertions", None, None)]


@st.composite
def pred(draw, d=3):
    k = draw(st.integers(0, 7 if d else 2))
    if k <= 3:
        return ["a", draw(st.integers(0, len(ATOMS) - 1))]
    if k == 4:
        return ["not", draw(pred(d - 1))]
    return [["all", "any"][k % 2], [draw(pred(d - 1)) for _ in range(draw(st.integers(1 if d < 3 else 0, 3)))]]


def ptext(p):
    if p[0] == "a":
        return ATOMS[p[1]][0]
    if p[0] == "not":
        return "not(%s)" % ptext(p[1])
    return "%s(%s)" % (p[0], ", ".join(ptext(x) for x in p[1]))


def prune(p, defined):
    if p[0] == "a":
        return p if p[1] in defined else None
    if p[0] == "not":
        q = prune(p[1], defined)
        return None if q is None else ["not", q]
    qs = [q for q in (prune(x, defined) for x in p[1]) if q is not None]
    return [p[0], qs] if qs else None


def ev(p, on):
    if p is None:
        return True
    if p[0] == "a":
        return p[1] in on
    if p[0] == "not":
        return not ev(p[1], on)
    return (all if p[0] == "all" else any)(ev(x, on) for x in p[1])


@st.composite
def cfgs(draw, p=2):
    if draw(st.integers(0, p)) != 1:
        return []
    return [draw(pred()) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]


PRIM = st.sampled_from(["u8", "i32", "u64", "*const u8", "*mut TyBase", "[u16; 3]", "bool", "f32"])


@st.composite
def item(draw, n, d):
    i = n[0]
    n[0] += 1
    w = rs.word(i)
    k = draw(st.sampled_from(["fn", "fn", "static", "const", "struct", "struct", "union", "enum", "enum", "tagged", "tagged", "alias", "opaque", "impl", "extern", "twin", "tuple", "sconst", "transparent"]
                             + (["mod"] * 4 if d else [])))
    it = {"k": k, "name": w, "cfg": draw(cfgs())}
    if k in ("struct", "union", "extern", "sconst"):
        it["sub"] = [["f%d" % j, draw(PRIM), draw(cfgs())] for j in range(draw(st.integers(1, 4)))]
        if k in ("struct", "union", "sconst"):
            it["sub"][draw(st.integers(0, len(it["sub"]) - 1))][2] = []    # at least one unconditional field
        if k == "sconst":
            for s in it["sub"]:
                s[1] = "i32"
    elif k == "enum":
        it["sub"] = [["%s%s" % (rs.cap(w), rs.cap(rs.word(j))), draw(st.sampled_from([None, None, j * 3 + 7])), draw(cfgs())] for j in range(draw(st.integers(1, 4)))]
        it["repr"] = draw(st.sampled_from(["C", "u8", "i32"]))
    elif k == "tagged":
        it["sub"] = []
        for j in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(["unit", "tuple", "named"])) if j else "tuple"
            it["sub"].append(["%s%s" % (rs.cap(w), rs.cap(rs.word(j))), kind, draw(cfgs()) if j else [],
                              [["f%d" % q, draw(PRIM), draw(cfgs(3)) if kind == "named" and q else []] for q in range(draw(st.integers(1, 2)))]])
        it["repr"] = draw(st.sampled_from(["C", "u8", "C, u8"]))
    elif k == "impl":
        it["sub"] = [["m%d" % j, draw(st.sampled_from(["fn", "const"])), draw(cfgs())] for j in range(draw(st.integers(1, 3)))]
    elif k == "twin":
        it["p"] = ["a", draw(st.integers(0, 5))]
        it["q"] = draw(st.sampled_from([["not", it["p"]], ["all", [["not", it["p"]], draw(pred(1))]]]))
        it["what"] = draw(st.sampled_from(["fn", "struct", "enum", "const", "static", "alias", "mixed"]))
    elif k == "mod":
        it["sub"] = [draw(item(n, d - 1)) for _ in range(draw(st.integers(1, 3)))]
    return it


@st.composite
def cases(draw):
    n = [0]
    items = [draw(item(n, 2)) for _ in range(draw(st.integers(1, 5)))]
    undefd = draw(st.sets(st.integers(0, 5), max_size=2))
    lang = draw(st.sampled_from(["C", "C", "C++", "C++", "Cython"]))
    cfg = {"language": lang}
    if lang == "C":
        cfg["style"] = draw(st.sampled_from(["both", "tag", "type"]))
        cfg["cpp_compat"] = draw(B)
    e = {}
    if draw(B):
        e["prefix_with_name"] = draw(B)
        e["add_sentinel"] = draw(B)
    cfg["export"] = {"rename": {}}
    if lang == "C++":
        for o in ["derive_helper_methods", "derive_const_casts", "derive_mut_casts", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor", "derive_tagged_enum_copy_assignment", "derive_ostream"]:
            if draw(st.integers(0, 3)) == 0:
                e[o] = True
        if draw(st.integers(0, 3)) == 0:
            cfg["struct"] = {"derive_eq": True, "derive_ostream": draw(B)}
        elif draw(st.integers(0, 3)) == 0:
            cfg["struct"] = {"associated_constants_in_body": True}
        if draw(B):
            cfg["const"] = {"allow_static_const": draw(B), "allow_constexpr": draw(B)}
        if draw(st.integers(0, 2)) == 0:
            e["enum_class"] = False
    cfg["enum"] = e
    del cfg["export"]
    return {"items": items, "undef": sorted(undefd), "cfg": cfg, "pick": draw(st.integers(0, 1 << 30))}


def strategy(tier):
    return cases()


class R:
    """renders the program; on=None keeps the cfgs, otherwise resolves them"""

    def __init__(self, defined, on):
        self.defined, self.on = defined, on

    def keep(self, cfgs):
        return self.on is None or all(ev(prune(p, self.defined), self.on) for p in cfgs)

    def at(self, cfgs):
        return "" if self.on is not None else "".join("#[cfg(%s)] " % ptext(p) for p in cfgs)

    def subs(self, l, fmt):
        return "".join(self.at(s[2]) + fmt(s) for s in l if self.keep(s[2]))

    def item(self, it):
        if not self.keep(it["cfg"]):
            return ""
        a, w, k = self.at(it["cfg"]), it["name"], it["k"]
        C = rs.cap(w)
        if k == "mod":
            return a + "pub mod m_%s { use super::*;\n%s}\n" % (w, "".join(self.item(x) for x in it["sub"]))
        if k == "fn":
            return a + '#[no_mangle] pub extern "C" fn fn_%s(x: i32) -> u8 { 0 }\n' % w
        if k == "static":
            return a + "#[no_mangle] pub static ST_%s: u32 = 1;\n" % w.upper()
        if k == "const":
            return a + "pub const K_%s: i32 = 42;\n" % w.upper()
        if k == "struct":
            return a + "#[repr(C)] pub struct Ty%s { %s }\n" % (C, self.subs(it["sub"], lambda s: "pub %s: %s, " % (s[0], s[1])))
        if k == "sconst":
            return (a + "#[repr(C)] pub struct Ty%s { %s }\n" % (C, self.subs(it["sub"], lambda s: "pub %s: %s, " % (s[0], s[1]))) +
                    a + "pub const KS_%s: Ty%s = Ty%s { %s };\n" % (C.upper(), C, C, self.subs(it["sub"], lambda s: "%s: 3, " % s[0])))
        if k == "tuple":
            return a + "#[repr(C)] pub struct Ty%s(pub u8, pub i64);\n" % C
        if k == "transparent":
            return a + "#[repr(transparent)] pub struct Ty%s { x: u16 }\n" % C
        if k == "union":
            return a + "#[repr(C)] pub union Ty%s { %s }\n" % (C, self.subs(it["sub"], lambda s: "pub %s: %s, " % (s[0], s[1])))
        if k == "enum":
            return a + "#[repr(%s)] pub enum Ty%s { %s }\n" % (it["repr"], C, self.subs(it["sub"], lambda s: "%s%s, " % (s[0], "" if s[1] is None else " = %d" % s[1])))
        if k == "tagged":
            def v(s):
                if s[1] == "unit":
                    return s[0] + ", "
                if s[1] == "tuple":
                    return "%s(%s), " % (s[0], ", ".join(f[1] for f in s[3]))
                return "%s { %s }, " % (s[0], self.subs(s[3], lambda f: "%s: %s, " % (f[0], f[1])))
            return a + "#[repr(%s)] pub enum Ty%s { %s }\n" % (it["repr"], C, self.subs(it["sub"], v))
        if k == "alias":
            return a + "pub type Ty%s = *const u32;\n" % C
        if k == "opaque":
            return a + "pub struct Ty%s { v: Vec<u8> }\n" % C
        if k == "impl":
            body = self.subs(it["sub"], lambda s: "#[no_mangle] pub extern \"C\" fn imp_%s_%s(a: u8) {}\n" % (w, s[0]) if s[1] == "fn" else "pub const %s_%s: u32 = 77;\n" % (w.upper(), s[0].upper()))
            return a + "impl TyBase { %s }\n" % body
        if k == "extern":
            return a + 'extern "C" { %s }\n' % self.subs(it["sub"], lambda s: "pub fn ext_%s_%s(a: u8);\n" % (w, s[0]))
        if k == "twin":
            out = ""
            for j, p in enumerate([it["p"], it["q"]]):
                cf = it["cfg"] + [p]
                if not self.keep(cf):
                    continue
                t = {"fn": '#[no_mangle] pub extern "C" fn fn_%s(%s) {}\n' % (w, ["x: u8", "y: *const u16"][j]),
                     "struct": "#[repr(C)] pub struct Ty%s { %s }\n" % (C, ["pub a: u8", "pub b: u32, pub c: u8"][j]),
                     "enum": "#[repr(C)] pub enum Ty%s { %s }\n" % (C, ["%sA" % C, "%sB, %sA" % (C, C)][j]),
                     "const": "pub const K_%s: i32 = %d;\n" % (w.upper(), j),
                     "static": "#[no_mangle] pub static ST_%s: %s = 0;\n" % (w.upper(), ["u8", "i64"][j]),
                     "alias": "pub type Ty%s = %s;\n" % (C, ["u8", "*mut u8"][j]),
                     "mixed": ["#[repr(C)] pub struct Ty%s { pub a: u8 }\n", "pub type Ty%s = u16;\n"][j] % C}[it["what"]]
                out += self.at(cf) + t
            return out
        raise ValueError(k)

    def program(self, items):
        return ("#![allow(warnings)]\n#[repr(C)] pub struct TyBase { pub z: u8 }\n" + "".join(self.item(i) for i in items) +
                '#[no_mangle] pub extern "C" fn use_base(a: *mut TyBase) {}\n')


def type_names(items):
    for it in items:
        if it["k"] == "mod":
            yield from type_names(it["sub"])
        else:
            yield "Ty" + rs.cap(it["name"])


def norm(toks):
    out = []
    for t in toks:
        if t == "}" and out and out[-1] == ",":
            out.pop()
        if t == ";" and out and out[-1] in (";", "{"):
            continue           # an empty member is left behind by a conditional field
        out.append(t)
        if out[-4:] == ["default", ":", "break", ";"]:
            del out[-4:]       # present when some variant has no payload; no effect
    return tuple(out)


def preprocess(d, name, defs, cxx):
    p = vp.run(["g++" if cxx else "gcc", "-E", "-P", "-dD", "-nostdinc", "-x", "c++" if cxx else "c"] + ["-D" + x for x in defs] + [name], cwd=d)
    if p.returncode != 0:
        raise vp.Violation("the preprocessor rejects the header: %s\n%s" % (p.stderr[:800], vp.read(os.path.join(d, name))))
    res = []
    body = []
    for l in p.stdout.split("\n"):
        m = re.match(r"#(define|undef)\s+(\w+)(.*)", l)
        if m:
            if m.group(1) == "define" and re.match(r"(K_|KS_|TyBase_|[A-Z]+_M)", m.group(2)):
                res.append(("define", m.group(2)) + tuple(hdr.tokens(m.group(3))))
        else:
            body.append(l)
    for x in hdr.decls("\n".join(body)):
        res.append((x["kind"], str(x["scopes"])) + norm(x["toks"]))
    return sorted(res)


def cython(text, defs):
    """keeps the lines whose enclosing IF conditions hold"""
    out = []
    stack = []            # (indent, on)
    for l in text.split("\n"):
        if not l.strip():
            continue
        ind = len(l) - len(l.lstrip())
        while stack and ind <= stack[-1][0]:
            stack.pop()
        m = re.match(r"\s*IF (.*):$", l)
        if m:
            e = re.sub(r"\b(VP_\w+)\b", lambda r: "True" if r.group(1) in defs else "False", m.group(1))
            stack.append((ind, bool(eval(e, {"__builtins__": {}}))))
            continue
        if all(on for _, on in stack):
            out.append(l.strip())
    # group declarations: a block is a line ending with ':' plus what follows; compare the multiset of lines of non-pass
    return sorted(x for x in out if x != "pass")


def check(case, ctx):
    d = ctx.fresh()
    cst = case["cfg"].get("const", {})
    if not case.get("kf") and not (case["cfg"]["language"] == "C++" and (cst.get("allow_static_const", True) or cst.get("allow_constexpr", True))):
        # KF-C08-1: a struct literal written as a macro ignores the cfg of its fields
        case = dict(case, items=plain_literals(case["items"]))
    if not case.get("kf") and (case["cfg"].get("struct") or case["cfg"]["enum"].get("derive_helper_methods") or case["cfg"]["enum"].get("derive_ostream")):
        # KF-C08-2: C++ helper functions mention conditional fields unconditionally
        case = dict(case, items=plain_fields(case["items"]))
    defined = {i for i, a in enumerate(ATOMS) if a[2] and i not in case["undef"]}
    defined |= {it["p"][1] for it in walk(case["items"]) if it["k"] == "twin"}      # twins only with a define to tell them apart
    cfg = dict(case["cfg"])
    cfg["defines"] = {ATOMS[i][1]: ATOMS[i][2] for i in sorted(defined)}
    cfg["no_includes"] = True
    cfg["export"] = {"include": sorted(set(type_names(case["items"])))}
    src = R(defined, None).program(case["items"])
    h = cc.bindgen(ctx, d, src, cfg, out="g.h")
    order = sorted(defined)
    rnd = random.Random(case["pick"])
    assigns = [frozenset(), frozenset(order)] + [frozenset(x for x in order if rnd.random() < 0.5) for _ in range(3)]
    seen = set()
    results = set()
    cy = cfg["language"] == "Cython"
    for on in dict.fromkeys(assigns):
        rsrc = R(defined, set(on)).program(case["items"] if not cy else strip_sub(case["items"]))
        if cy:
            src2 = R(defined, None).program(strip_sub(case["items"]))
            if not seen:
                h = cc.bindgen(ctx, d, src2, cfg, out="g.h")
        seen.add(on)
        x = cc.bindgen(ctx, d, rsrc, cfg, out="x.h", srcname="x.rs")
        defs = [ATOMS[i][2] for i in sorted(on)]
        if cy:
            a, b = cython(h, defs), cython(x, defs)
        else:
            a = preprocess(d, "g.h", defs, cfg["language"] == "C++")
            b = preprocess(d, "x.h", defs, cfg["language"] == "C++")
        ctx.evaluated()
        results.add(str(b))
        if a != b:
            only = lambda p, q: "\n".join(" ".join(z) for z in p if p.count(z) > q.count(z))
            cc.fail("with defines %s\nonly in the preprocessed header:\n%s\nonly in the header of the resolved program:\n%s" % (defs, only(a, b), only(b, a)), src, cfg, h,
                    "resolved program:\n" + rsrc + "\nits header:\n" + x)
    ctx.label("lang:" + cfg["language"])
    for it in walk(case["items"]):
        if it["cfg"]:
            ctx.label("cfg on " + it["k"])
    ctx.nontrivial(len(results) > 1)


def strip_sub(items):
    """Cython has no conditional fields or variants: keep cfgs on items only"""
    out = []
    for it in items:
        it = dict(it)
        if it["k"] == "mod":
            it["sub"] = strip_sub(it["sub"])
        elif it.get("sub") and it["k"] != "extern" and it["k"] != "impl":
            it["sub"] = [[s[0], s[1], []] + ([[[f[0], f[1], []] for f in s[3]]] if len(s) > 3 else []) for s in it["sub"]]
        out.append(it)
    return out


def plain_literals(items):
    return [dict(it, sub=plain_literals(it["sub"])) if it["k"] == "mod" else dict(it, sub=[[s[0], s[1], []] for s in it["sub"]]) if it["k"] == "sconst" else it for it in items]


def plain_fields(items):
    # arrays prevent operator==, also when they are only in a conditional variant
    out = []
    ty = lambda t: "u16" if t.startswith("[") else t
    for it in items:
        if it["k"] == "mod":
            it = dict(it, sub=plain_fields(it["sub"]))
        elif it["k"] in ("struct", "sconst"):
            it = dict(it, sub=[[s[0], s[1], []] for s in it["sub"]])
        elif it["k"] == "tagged":
            it = dict(it, sub=[s[:3] + [[[f[0], ty(f[1]), []] for f in s[3]]] for s in it["sub"]])
        out.append(it)
    return out


def walk(items):
    for it in items:
        yield it
        if it["k"] == "mod":
            yield from walk(it["sub"])
