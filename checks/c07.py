"""C07: a program with generics vs its hand-expanded, non-generic equivalent."""
import re
from hypothesis import strategies as st
import cc, vp, rs, gen, hdr

PROP = "C07"
N = {"quick": 2400, "thorough": 40000}
RULE = ("case = program with up to 5 generic structs/unions/tagged enums/aliases/opaque types (type and const parameters, defaults, nesting, "
        "self pointers) and up to 6 instantiations used by functions; the C header is compared, declaration by declaration and up to a bijective "
        "renaming of the instances, with the header of the expanded program; the C++ templates are compared with the expanded structs by "
        "sizeof/alignof/offsetof; non-trivial = at least two instantiations of one generic, or a nested instantiation")
ASSUMPTIONS = ["the expanded program is produced by substitution in this file", "an instantiation is identified by its written arguments (no aliases as arguments, a default is either always omitted or always overridden)"]
B = st.booleans()


@st.composite
def closed_arg(draw, env, d):
    """closed type argument"""
    opts = ["prim", "prim", "prim", "cprim", "val"] + ([] if env["flat"] else ["ptr", "ptr"])
    if d > 0:
        opts += ["gen", "gen"] + ([] if env["flat"] else ["fn"] + (["arr"] if env["arr"] else []))
    k = draw(st.sampled_from(opts))
    if k == "prim":
        return ["p", draw(st.sampled_from(rs.COMMON))]
    if k == "cprim":
        return ["p", draw(st.sampled_from(["c_char", "c_int", "c_uint", "c_ulong", "c_schar"]))]
    if k == "val":
        return ["path", draw(st.sampled_from(env["plain"])), []]
    if k == "ptr":
        # KF-C07-1: a pointer to a pointer argument mangles ambiguously
        t = draw(closed_arg(env, d - 1))
        if t[0] in ("ptr", "arr", "fn"):
            t = ["p", "u8"]
        return ["ptr", draw(st.sampled_from(["const", "mut"])), t]
    if k == "arr":
        return ["arr", draw(st.sampled_from([["p", "u8"], ["p", "i32"], ["path", env["plain"][0], []]])), draw(st.integers(1, 4))]
    if k == "fn":
        n = draw(st.integers(0, 2))
        return ["fn", [["p", draw(st.sampled_from(["u8", "i32", "f64"]))] for _ in range(n)], draw(st.sampled_from([None, ["p", "u8"]])), None, False]
    if env["generic"]:
        g = draw(st.sampled_from([x for x in env["generic"]]))
        if g["k"] != "opaque" and (env["arr"] or not g["aliasing"]):
            return draw(inst(env, g, d - 1))
    return ["p", "u16"]


@st.composite
def inst(draw, env, g, d, params=None):
    args = []
    for p in g["gen"]:
        if len(p) > 3 and p[3] is not None and g["omit"]:
            break
        if p[1] == "const":
            if params and draw(B):
                c = [q[0] for q in params if q[1] == "const" and q[2] == p[2]]
                if c:
                    args.append(draw(st.sampled_from(c)))
                    continue
            v = draw(st.sampled_from({"bool": ["true", "false"], "usize": ["1", "2", "3", "5", "LEN_A"], "u8": ["0", "7", "200"], "i32": ["4", "-4", "-1", "0"], "char": ["'a'", "'Z'"]}[p[2]]))
            args.append(v)
        else:
            if params:
                c = [q[0] for q in params if q[1] == "type"]
                if c and draw(st.integers(0, 3)) > 0:
                    t = ["gp", draw(st.sampled_from(c))]
                    if draw(st.integers(0, 2)) == 0 and False:
                        t = ["ptr", "mut", t]
                    args.append(t)
                    continue
            args.append(draw(closed_arg(env, d)))
    return ["path", g["name"], args]


@st.composite
def field_ty(draw, env, it, d=2):
    ps = it["gen"]
    tps = [p[0] for p in ps if p[1] == "type"]
    cps = [p[0] for p in ps if p[1] == "const" and p[2] == "usize"]
    opts = ["prim"] + (["T"] * 4 + ["ptrT"] * 3 if tps else []) + ["val"]
    if d > 0:
        opts += ["arr", "arr", "self"] + (["fn"] if not env["arr"] else []) + (["gen"] * 3 if env["generic"] else [])
    k = draw(st.sampled_from(opts))
    if k == "prim":
        return ["p", draw(st.sampled_from(["u8", "i32", "u64", "f32"]))]
    if k == "T":
        return ["gp", draw(st.sampled_from(tps))]
    if k == "ptrT":
        t = ["ptr", draw(st.sampled_from(["const", "mut"])), ["gp", draw(st.sampled_from(tps))]]
        return draw(st.sampled_from([t, t, ["ptr", "mut", t], ["opt", ["nn", t[2]]]]))
    if k == "val":
        return ["path", draw(st.sampled_from(env["plain"])), []]
    if k == "arr":
        return ["arr", draw(field_ty(env, it, 0)), draw(st.sampled_from([2, 3, "LEN_A"] + cps * 3))]
    if k == "fn":
        return ["opt", ["fn", [draw(field_ty(env, it, 0)) for _ in range(draw(st.integers(0, 2)))], draw(st.one_of(st.none(), field_ty(env, it, 0))), None, False]]
    if k == "self" and it["k"] in ("struct", "union"):
        return ["ptr", "mut", ["path", it["name"], [["gp", p[0]] if p[1] == "type" else p[0] for p in ps]]]
    if k == "gen":
        g = draw(st.sampled_from(env["generic"]))
        t = draw(inst(env, g, 1, ps))
        if g["k"] == "opaque" or draw(st.integers(0, 2)) == 0:
            return ["ptr", draw(st.sampled_from(["const", "mut"])), t]
        return t
    return ["p", "u8"]


@st.composite
def generic_item(draw, env, i):
    name = "Ge" + rs.cap(rs.word(i))
    k = draw(st.sampled_from(["struct", "struct", "struct", "union", "tagged", "tagged", "alias", "transparent", "opaque"]))
    ps = []
    for j in range(draw(st.integers(1, 2))):
        ps.append([["T", "U"][j], "type", None, None])
    if draw(st.integers(0, 2)) == 0 and k not in ("alias", "opaque"):
        ps.append(["N", "const", draw(st.sampled_from(["usize", "usize", "usize", "bool", "u8", "i32", "char"])), None])
    it = {"k": {"tagged": "enum", "alias": "type", "transparent": "struct"}.get(k, k), "name": name, "gen": ps, "omit": draw(B), "copy": True,
          "aliasing": k in ("alias", "transparent")}
    if k not in ("alias", "opaque") and draw(st.integers(0, 2)) == 0:
        p = ps[-1]
        p[3] = {"usize": "4", "bool": "true", "u8": "9", "i32": "-7", "char": "'q'"}[p[2]] if p[1] == "const" else draw(st.sampled_from([["p", "u16"], ["path", env["plain"][0], []]] + ([] if env["flat"] else [["ptr", "mut", ["p", "i8"]]])))
        if len(ps) == 1:
            it["omit"] = False       # KF-C07-2: a bare name with all arguments defaulted
    if k == "opaque":
        it["text"] = None
        return it
    if k == "alias":
        it["ty"] = ["gp", "T"]
        gs = [g for g in env["generic"] if g["k"] not in ("opaque",)]
        fs = [["x", draw(field_ty(env, it))]]
        used = {x[1] for x in rs.walk(fs[0][1]) if x[0] == "gp"}
        it["gen"] = [p for p in ps if p[0] in used]
        if not it["gen"]:
            it["gen"] = [ps[0]]
            fs[0][1] = ["ptr", "mut", ["gp", "T"]]
        it["ty"] = fs[0][1]
        return it
    if k == "tagged":
        it["tagged"] = True
        it["gen"] = ps = [p for p in ps if p[1] == "type"]
        it["repr"] = draw(st.sampled_from([["C"], ["u8"], ["C", "u8"]]))
        vs = []
        for j in range(draw(st.integers(1, 3))):
            v = {"name": "Va" + rs.cap(rs.word(i)) + rs.word(j)}
            m = draw(st.integers(0, 2)) if j else 1
            if m == 1:
                v["tuple"] = [draw(field_ty(env, it)) for _ in range(draw(st.integers(1, 2)))]
            elif m == 2:
                v["named"] = [["f_" + rs.word(x), draw(field_ty(env, it))] for x in range(draw(st.integers(1, 2)))]
            vs.append(v)
        fs = [[0, t] for v in vs for t in (v.get("tuple") or []) + [x[1] for x in v.get("named") or []]]
        m = len(fs)
        gen.use_all_params(draw, it, None, fs)
        if len(fs) > m:
            vs.append({"name": "Va" + rs.cap(rs.word(i)) + "zz", "named": fs[m:]})
        it["variants"] = vs
        return it
    it["tuple"] = k != "union" and draw(st.integers(0, 3)) == 0
    it["repr"] = ["transparent"] if k == "transparent" else ["C"]
    fs = [["f_" + rs.word(j), draw(field_ty(env, it))] for j in range(1 if k == "transparent" else draw(st.integers(1, 4)))]
    if k == "transparent":
        it["gen"] = ps = ps[:1]
        ps[0][3] = None
        fs = [["f_alpha", draw(st.sampled_from([["gp", "T"], ["ptr", "mut", ["gp", "T"]], ["arr", ["gp", "T"], 2]]))]]
    gen.use_all_params(draw, dict(it, gen=[p for p in ps if p[1] == "type" or p[2] == "usize"]), None, fs)
    if it["tuple"]:
        for j, f in enumerate(fs):
            f[0] = str(j)
    it["fields"] = fs
    return it


@st.composite
def cases(draw):
    names = draw(st.sampled_from([None, None, "PascalCase"]))
    plain = [{"k": "struct", "name": "PlAlpha", "repr": ["C"], "fields": [["x", ["p", "u8"]], ["y", ["p", "u32"]]], "copy": True},
             {"k": "enum", "name": "PlBravo", "repr": ["u8"], "variants": [{"name": "PlOne"}, {"name": "PlTwo"}], "copy": True},
             {"k": "struct", "name": "Pl_carol", "repr": ["C"], "fields": [["z", ["p", "u64"]]], "copy": True}]
    env = {"plain": [p["name"] for p in plain], "generic": [], "arr": draw(B),
           "flat": names is not None}     # renaming drops the underscores that mark pointers, functions and arrays (known finding); array arguments and function pointer fields exclude each other
    items = []
    for i in range(draw(st.integers(1, 5))):
        it = draw(generic_item(env, i))
        items.append(it)
        env["generic"].append(it)
    uses = []
    for i in range(draw(st.integers(1, 6))):
        g = draw(st.sampled_from(items))
        t = draw(inst(env, g, 2))
        uses.append([t, draw(st.sampled_from(["ptr", "val", "ret", "arr", "static", "field"])) if g["k"] != "opaque" and not g["aliasing"] else draw(st.sampled_from(["ptr", "field", "arr"])) if g["k"] != "opaque" else "ptr"])
    return {"plain": plain, "generics": items, "uses": uses, "perm": draw(st.integers(0, 999)), "style": draw(st.sampled_from(["both", "tag"])),
            "names": names}


def strategy(tier):
    return cases()


def render(items, uses, perm, prefix):
    import random
    out = []
    for it in items:
        if it["k"] == "opaque":
            g = "<%s>" % ", ".join(p[0] for p in it["gen"]) if it.get("gen") else ""
            body = ", ".join("v%s: Vec<%s>" % (p[0].lower(), p[0]) for p in it["gen"]) if it.get("gen") else "v: Vec<u8>"
            out.append("pub struct %s%s { %s }\n" % (it["name"], g, body))
        else:
            out.append(rs.rust_item(it))
    for i, (t, how) in enumerate(uses):
        ty = rs.rust(t)
        n = "%suse_%s" % (prefix, rs.word(i))
        if how == "ptr":
            out.append('#[no_mangle] pub extern "C" fn %s(a: *const %s) { loop {} }\n' % (n, ty))
        elif how == "val":
            out.append('#[no_mangle] pub extern "C" fn %s(a: %s) { loop {} }\n' % (n, ty))
        elif how == "ret":
            out.append('#[no_mangle] pub extern "C" fn %s() -> %s { loop {} }\n' % (n, ty))
        elif how == "static":
            out.append("#[no_mangle] pub static mut %s: %s = unsafe { ::std::mem::zeroed() };\n" % (n, ty))
        elif how == "arr":
            out.append('#[no_mangle] pub extern "C" fn %s(a: *mut [%s; 3]) { loop {} }\n' % (n, ty))
        else:
            out.append('#[repr(C)] pub struct Holder%d { h: %s }\n#[no_mangle] pub extern "C" fn %s(a: *mut Holder%d) { loop {} }\n' % (i, ty, n, i))
    random.Random(perm).shuffle(out)
    return rs.RUST_HEAD + "pub const LEN_A: usize = 6;\n" + "".join(out)


def expand(case):
    """-> (non-generic items, uses, {fresh name: instance text})"""
    byname = {g["name"]: g for g in case["generics"]}
    insts, out = {}, []

    def ex(t):
        k = t[0]
        if k in ("ptr", "ref", "wrap"):
            return [k, t[1], ex(t[2])]
        if k == "arr":
            return [k, ex(t[1]), t[2]]
        if k in ("opt", "nn", "phantom"):
            return [k, ex(t[1])]
        if k == "fn":
            return [k, [ex(a) for a in t[1]], None if t[2] is None else ex(t[2])] + t[3:]
        if k == "path" and t[1] in byname:
            return ["path", make(t), []]
        return t

    def make(t):
        key = rs.rust(t)
        if key in insts:
            return insts[key]
        g = byname[t[1]]
        n = "Xx" + rs.cap(rs.word(len(insts)))
        insts[key] = n
        m = {}
        for i, p in enumerate(g["gen"]):
            m[p[0]] = t[2][i] if i < len(t[2]) else rs.subst(p[3], m) if isinstance(p[3], list) else p[3]
        it = {x: y for x, y in g.items() if x not in ("gen", "fields", "variants", "ty")}
        it["name"] = n
        sub = lambda ty: ex(rs.subst(ty, m))
        if g["k"] in ("struct", "union"):
            it["fields"] = [[f[0], sub(f[1])] for f in g["fields"]]
        elif g["k"] == "enum":
            it["variants"] = []
            for v in g["variants"]:
                v = dict(v, name=v["name"] + n)
                if v.get("tuple") is not None:
                    v["tuple"] = [sub(x) for x in v["tuple"]]
                if v.get("named") is not None:
                    v["named"] = [[a, sub(b)] for a, b in v["named"]]
                it["variants"].append(v)
        elif g["k"] == "type":
            it["ty"] = sub(g["ty"])
        out.append(it)
        return n
    uses = [[ex(t), how] for t, how in case["uses"]]
    return out, uses, insts


NAME = re.compile(r"Xx(?:%s)[a-z]*" % "|".join(rs.cap(w) for w in rs.WORDS))
VAR = re.compile(r"(Va[A-Z][a-z]*)(Xx[A-Z][a-z]*)(_Body)?$")
SNAKE = re.compile(r"(va_[a-z]+)_xx_[a-z]+?(_tag)?$")


def variant_name(y, m, gname):
    """name in the generic header of a variant (or variant body) of the expanded header: None = not one, False = instance not known yet"""
    r = VAR.match(y)
    if not r:
        return None
    if r.group(2) not in m:
        return False
    return r.group(1) + (r.group(3) or "") + m[r.group(2)][len(gname[r.group(2)]):]


def unify(a, b, m, inv, gname):
    """token lists a (generic header) and b (expanded header): extend the mapping b-name -> a-name, or return an error"""
    if len(a) != len(b):
        return "different shape: %s | %s" % (" ".join(a), " ".join(b))
    for x, y in zip(a, b):
        if "Xx" not in y:
            r = SNAKE.match(y)
            if x != (r.group(1) + (r.group(2) or "") if r else y):
                return "%r instead of %r in: %s" % (x, y, " ".join(a))
            continue
        v = variant_name(y, m, gname)
        if v is not None:
            if v != x:
                return "%r instead of %r in: %s" % (x, v, " ".join(a))
            continue
        r = NAME.match(y)
        base, rest = r.group(), y[r.end():]
        if not x.endswith(rest):
            return "%r instead of %r in: %s" % (x, y, " ".join(a))
        head = x[:len(x) - len(rest)] if rest else x
        if base in m:
            if m[base] != head:
                return "%r was %r before, now %r in: %s" % (base, m[base], head, " ".join(a))
        else:
            if head in inv:
                return "name %r stands for two different instantiations (%s and %s)" % (head, inv[head], base)
            m[base] = head
            inv[head] = base
    return None


def check(case, ctx):
    d = ctx.fresh()
    plain, gens = case["plain"], case["generics"]
    src = render(plain + gens, case["uses"], case["perm"], "")
    p = cc.rust_check(d, src)
    if p.returncode != 0:
        if vp.os.environ.get("VP_DEBUG"):
            print(p.stderr[:1500])
        raise vp.Discard("rustc: " + (re.findall(r"error(?:\[E\d+\])?: .*", p.stderr) or ["?"])[0])
    xitems, xuses, insts = expand(case)
    xsrc = render(plain + xitems, xuses, case["perm"], "")
    back = {n: t for t, n in insts.items()}
    cfg = {"language": "C", "style": case["style"]}
    if case["names"]:
        cfg["export"] = {"mangle": {"rename_types": case["names"]}}
    h = cc.bindgen(ctx, d, src, cfg, out="g.h")
    x = cc.bindgen(ctx, d, xsrc, cfg, out="x.h", srcname="x.rs")

    def bad(msg):
        cc.fail(msg, src, cfg, h, "--- expanded program\n%s\n--- its header\n%s" % (xsrc, x))
    dg, dx = hdr.decls(h), hdr.decls(x)
    if len(dg) != len(dx):
        bad("%d declarations for the generic program, %d for the expanded one" % (len(dg), len(dx)))
    m, inv = {}, {}
    gname = {n: t.split("<")[0] for t, n in insts.items()}
    # match declarations starting with those whose name is known in both
    key = lambda dd: (dd["kind"], dd["name"] or "", dd.get("tag") or "")
    todo = list(dx)
    left = list(dg)
    progress = True
    while todo and progress:
        progress = False
        for y in list(todo):
            nm = y["name"] or ""
            r = NAME.match(nm)
            v = variant_name(nm, m, gname)
            if v is not None:
                if v is False:
                    continue
                nm = v
            elif r:
                if r.group() not in m:
                    continue
                nm = m[r.group()] + nm[r.end():]
            cand = [z for z in left if z["kind"] == y["kind"] and (z["name"] or "") == nm]
            if not cand:
                bad("no declaration of %s %s (%s)" % (y["kind"], nm, y["name"]))
            # enum/struct/typedef of one name: shapes identify them
            err = None
            for z in cand:
                m2, inv2 = dict(m), dict(inv)
                err = unify(z["toks"], y["toks"], m2, inv2, gname)
                if err is None:
                    m, inv = m2, inv2
                    left.remove(z)
                    todo.remove(y)
                    progress = True
                    break
            if err is not None:
                bad("declaration of %s: %s" % (nm, err))
    if todo:
        bad("unreachable instances in the expanded header: %s" % [key(t) for t in todo])
    if left:
        bad("extra declarations: %s" % [key(t) for t in left])
    ctx.evaluated(len(dx))
    for it in gens:
        ctx.label("generic:" + it["k"] + (":tagged" if it.get("tagged") else "") + (":default" if any(p[3] is not None for p in it["gen"]) else ""))
    # KF-C07-3: in C++ a default naming a type does not make that type a dependency
    if case["perm"] % 2 == 0 and (case.get("kf") or not any(p[3] is not None and p[3][0] == "path" for g in gens for p in g["gen"])):
        cxx_check(case, ctx, d, plain, gens, insts, xitems)
    cnt = {}
    for t in insts:
        cnt[t.split("<")[0]] = cnt.get(t.split("<")[0], 0) + 1
    ctx.label("instances:%d" % min(len(insts), 10))
    ctx.nontrivial(any(v > 1 for v in cnt.values()) or any(t.count("<") > 1 for t in insts))


def cxx_check(case, ctx, d, plain, gens, insts, xitems):
    """templates instantiate to the layout of the expanded structs"""
    al = [{"k": "type", "name": "Al" + n, "ty_text": t} for t, n in insts.items()]
    tail = "".join("pub type Al%s = %s;\n" % (n, t) for t, n in insts.items() )
    byname = {i["name"]: i for i in xitems}
    val = [n for t, n in insts.items() if byname[n]["k"] != "opaque"]
    tail2 = '#[no_mangle] pub extern "C" fn use_aliases(%s) { loop {} }\n' % ", ".join("a%d: *mut Al%s" % (i, n) for i, n in enumerate(insts.values()))
    tailx = '#[no_mangle] pub extern "C" fn use_aliases_x(%s) { loop {} }\n' % ", ".join("a%d: *mut %s" % (i, n) for i, n in enumerate(insts.values()))
    src = render(plain + gens, case["uses"], case["perm"], "") + tail + tail2
    xsrc = render(plain + xitems, [], case["perm"], "x") + tailx
    cfg = dict({"language": "C++", "namespace": "vpa"}, **cc.CXX_INC)
    h = cc.bindgen(ctx, d, src, cfg, out="g.hpp")
    x = cc.bindgen(ctx, d, xsrc, dict(cfg, namespace="vpb"), out="x.hpp", srcname="x.rs")
    t = '#include "g.hpp"\n#include "x.hpp"\n#include <stddef.h>\n'
    n = 0
    for nm in val:
        it = byname[nm]
        a, b = "vpa::Al" + nm, "vpb::" + nm
        t += 'static_assert(sizeof(%s) == sizeof(%s) && alignof(%s) == alignof(%s), "VPFAIL layout of %s");\n' % (a, b, a, b, nm)
        n += 1
        if it["k"] in ("struct", "union") and it.get("repr") != ["transparent"]:
            for f in it["fields"]:
                fn = "_" + f[0] if f[0].isdigit() else f[0]
                t += 'static_assert(offsetof(%s, %s) == offsetof(%s, %s) && sizeof(((%s*)0)->%s) == sizeof(((%s*)0)->%s), "VPFAIL field %s.%s");\n' % (a, fn, b, fn, a, fn, b, fn, nm, fn)
                n += 1
        elif it["k"] == "enum":
            for v in it["variants"]:
                sa = "va_" + VAR.match(v["name"]).group(1)[2:].lower()
                sb = sa + "_xx_" + nm[2:].lower()
                if v.get("tuple") is not None:
                    fs = ["_%d" % i for i in range(len(v["tuple"]))]
                elif v.get("named") is not None:
                    fs = [f[0] for f in v["named"]]
                else:
                    continue
                for f in fs:
                    t += 'static_assert(offsetof(%s, %s.%s) == offsetof(%s, %s.%s), "VPFAIL payload %s.%s.%s");\n' % (a, sa, f, b, sb, f, nm, sa, f)
                    n += 1
    p = cc.compile_c(d, "px", t, cxx=True)
    if p.returncode != 0:
        cc.fail("C++ templates do not instantiate to the layout of the expanded program", src, cfg, h, p.stderr[:3000] + "\n--- expanded\n" + xsrc)
    ctx.evaluated(n)
    ctx.label("cxx")
