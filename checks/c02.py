"""C02: types of functions, statics, fields and aliases vs an independent model built from one-step typedef chains."""
from hypothesis import strategies as st
import gen, rs, cc, vp
from c01 import with_instances, c_path, style_of

PROP = "C02"
N = {"quick": 6400, "thorough": 100000}
RULE = ("case = generated program with functions, statics, fields, aliases and generic instances over the whole supported type grammar "
        "(depth<=4); the header's declarations are compared with _Generic / is_same against types built by single-step typedefs from the "
        "Rust type; non-trivial = some compared type nests at least two of pointer/array/fn pointer/wrapper")
ASSUMPTIONS = ["const on a pointee that is itself a function pointer is excluded (known finding KF-C02-1)",
               "arrays are not passed by value to functions (no C equivalent)",
               "Box/ManuallyDrop/MaybeUninit/Pin are checked in C only (C++ needs user templates)"]


@st.composite
def cases(draw):
    p = draw(gen.program(max_items=4, max_fns=4))
    p["style"] = draw(st.sampled_from(["type", "tag", "both"]))
    p["cpp_compat"] = draw(st.booleans())
    p["usz"] = draw(st.booleans())
    env = gen.Env(set(p["feats"]))
    env.self_args = None
    for it in sorted([i for i in p["items"] if "ord" in i], key=lambda i: i["ord"]):
        env.items[it["name"]] = it
        if it["k"] == "opaque":
            env.any.append(it["name"])
        elif it.get("gen"):
            env.generic.append(it["name"])
        else:
            env.any.append(it["name"])
            env.values.append(it["name"])
    stats = []
    for i in range(draw(st.integers(0, 2))):
        stats.append({"k": "static", "name": "GLOBAL_" + rs.word(i).upper(), "mut": draw(st.booleans()),
                      "ty": gen.value(draw, env, 3, "field"), "init": "unsafe { ::std::mem::zeroed() }"})
    p["items"] = p["items"] + stats
    # forward declared foreign functions too
    if draw(st.integers(0, 2)) == 0:
        args = [["x%d" % j, gen.value(draw, env, 2, "arg")] for j in range(draw(st.integers(0, 3)))]
        ret = None if draw(st.booleans()) else gen.value(draw, env, 2, "ret")
        var = bool(args) and draw(st.booleans())
        p["items"].append({"k": "raw", "name": "foreign_fn", "foreign": True, "args": args, "ret": ret, "variadic": var,
                           "text": 'extern "C" { pub fn foreign_fn(%s%s)%s; }\n' % (
                               ", ".join("%s: %s" % (n, rs.rust(t)) for n, t in args), ", ..." if var else "",
                               "" if ret is None else " -> " + rs.rust(ret))})
    # methods with every spelling of the receiver
    hosts = [n for n in env.values if env.items[n]["k"] in ("struct", "union", "enum") and not env.items[n].get("gen") and not env.items[n].get("arrayish")
             and not gen.arr_base_is_fn(resolve(["path", n, []], env.items))]
    for i in range(draw(st.integers(0, 2)) if hosts else 0):
        host = draw(st.sampled_from(hosts))
        me = ["path", host, []]
        recvs = [("&self", ["ref", "shared", me]), ("&mut self", ["ref", "mut", me]), ("self: &Self", ["ref", "shared", me]),
                 ("self: &mut Self", ["ref", "mut", me]), ("self", me), ("self: Self", me), ("mut self", me),
                 ("self: &%s" % host, ["ref", "shared", me]), ("_o: *const Self", ["ptr", "const", me]), ("_o: *mut [Self; 3]", ["ptr", "mut", ["arr", me, 3]]),
                 ('_o: extern "C" fn(Self) -> *const Self', ["fn", [me], ["ptr", "const", me], None, False])]
        if "box" in p["feats"]:
            recvs.append(("self: Box<Self>", ["wrap", "Box", me]))
        rtxt, rty = draw(st.sampled_from(recvs))
        args = [["x%d" % j, gen.value(draw, env, 2, "arg")] for j in range(draw(st.integers(0, 2)))]
        rets = [("", None), (" -> Self", me), (" -> *mut Self", ["ptr", "mut", me]), (" -> Option<&'static Self>", ["opt", ["ref", "shared", me]])]
        otxt, oty = draw(st.sampled_from(rets))
        p["items"].append({"k": "raw", "name": "method_%d" % i, "foreign": True, "args": [["self", rty]] + args, "ret": oty, "variadic": False,
                           "text": 'impl %s { #[no_mangle] pub extern "C" fn method_%d(%s)%s { loop {} } }\n' % (
                               host, i, ", ".join([rtxt] + ["%s: %s" % (n, rs.rust(t)) for n, t in args]), otxt)})
    return p


def strategy(tier):
    return cases()


def depth(t):
    k = t[0]
    sub = [x for x in ([t[2]] if k in ("ptr", "ref", "wrap") else [t[1]] if k in ("arr", "opt", "nn") else
           (t[1] + ([t[2]] if t[2] not in (None, "never") else [])) if k == "fn" else [])]
    return (1 if k in ("ptr", "ref", "wrap", "arr", "fn", "nn") else 0) + max([depth(x) for x in sub] or [0])


def assertions(items, alias, ct, names, cxx):
    """-> list of (C condition, description)"""
    out = []
    byname = {i["name"]: i for i in items}
    mx = 0

    def same_obj(expr, ty, what, const=False):
        nonlocal mx
        mx = max(mx, depth(ty))
        e = ct.get(ty)
        if cxx:
            out.append(("vp_same<decltype(%s), %s%s>::v" % (expr, "const " if const else "", e), what))
        else:
            out.append(("_Generic(&(%s), %s%s *: 1, default: 0)" % (expr, "const " if const else "", e), what))

    def same_fn(name, args, ret, variadic, what):
        nonlocal mx
        mx = max([mx] + [depth(a) for a in args] + ([depth(ret)] if ret not in (None, "never") else []))
        f = ct.get(["fn", args, ret, None, variadic])
        if cxx:
            out.append(("vp_same<decltype(&%s), %s>::v" % (name, f), what))
        else:
            out.append(("_Generic(&%s, %s: 1, default: 0)" % (name, f), what))
    for it in items:
        if it["k"] == "fn":
            same_fn(it["name"], [t for _, t in it["args"]], it["ret"], False, "function %s: %s" % (it["name"], rs.rust_item(it).strip().splitlines()[-1]))
        elif it.get("foreign"):
            same_fn(it["name"], [t for _, t in it["args"]], it["ret"], it["variadic"], it["text"].strip())
        elif it["k"] == "static":
            # (const on a function-pointer static itself is part of known finding KF-C02-1)
            const = not it.get("mut")
            if const and gen.arr_base_is_fn(resolve(it["ty"], byname)):
                continue
            same_obj(it["name"], it["ty"], "static %s%s: %s" % ("mut " if it.get("mut") else "", it["name"], rs.rust(it["ty"])), const)
        elif it.get("gen"):
            continue
        elif it["k"] in ("struct", "union", "enum", "type"):
            base, m = it, {}
            if it.get("inst"):
                base = byname[it["ty"][1]]
                m = {p[0]: a for p, a in zip(base["gen"], it["ty"][2])}
            cn = names[it["name"]]

            def fld(path, ty):
                ty = rs.subst(ty, m)
                same_obj("((%s *)0)->%s" % (cn, path), ty, "field %s.%s: %s" % (it["name"], path, rs.rust(ty)))
            if base["k"] in ("struct", "union") and base.get("repr") != ["transparent"]:
                for f in base["fields"]:
                    if f[1][0] not in ("phantom", "pinned"):
                        fld(c_path(base, f[0], cxx), f[1])
            elif base["k"] == "struct":
                t = [f[1] for f in base["fields"] if f[1][0] not in ("phantom", "pinned")][0]
                same_obj("*(%s *)0" % cn, t, "transparent %s: %s" % (it["name"], rs.rust(t))) if not cxx else \
                    out.append(("vp_same<%s, %s>::v" % (cn, ct.get(t)), "transparent " + it["name"]))
            elif base["k"] == "enum" and base.get("tagged"):
                for v in base["variants"]:
                    for j, t in enumerate(v.get("tuple") or []):
                        fld(c_path(base, "%s.%d" % (v["name"], j), cxx), t)
                    for f, t in v.get("named") or []:
                        fld(c_path(base, "%s.%s" % (v["name"], f), cxx), t)
            elif base["k"] == "type":
                t = base["ty"]
                if cxx:
                    out.append(("vp_same<%s, %s>::v" % (cn, ct.get(t)), "alias " + it["name"]))
                else:
                    same_obj("*(%s *)0" % cn, t, "alias %s = %s" % (it["name"], rs.rust(t)))
    return out, mx


def resolve(t, byname):
    """see through aliases and transparent structs"""
    for _ in range(50):
        while t[0] == "opt" or (t[0] == "wrap" and t[1] != "Box") or t[0] == "arr":
            t = t[1] if t[0] in ("opt", "arr") else t[2]
        if t[0] == "path" and t[1] in byname:
            it = byname[t[1]]
            if it["k"] == "type":
                t = it["ty"]
                continue
            if it.get("repr") == ["transparent"]:
                t = [f[1] for f in it["fields"] if f[1][0] not in ("phantom", "pinned")][0]
                continue
        return t
    return t


def check(case, ctx):
    items, alias = with_instances(case["items"])
    d = ctx.fresh()
    src = rs.rust_program(items)
    langs = ["c"]
    if not any(f in case["feats"] for f in gen.CXX_UNSAFE):
        langs.append("cxx")
    for lang in langs:
        cxx = lang == "cxx"
        cfg = {"language": "C++" if cxx else "C", "layout": cc.LAYOUT, "after_includes": cc.ALIGN_DEF, "usize_is_size_t": case["usz"]}
        cfg.update(cc.CXX_INC)
        if not cxx:
            cfg["style"] = style_of(case)
            cfg["cpp_compat"] = case["cpp_compat"]
        h = cc.bindgen(ctx, d, src, cfg, out=lang + ".h")
        names = cc.c_names(items, lang, None if cxx else cfg["style"])
        ct = rs.CTypes(names, usize_is_size_t=case["usz"], alias={k: names[v] for k, v in alias.items()})
        conds, mx = assertions(items, alias, ct, names, cxx)
        t = '#include "%s.h"\n' % lang
        if cxx:
            t += "template<class A, class B> struct vp_same { static const bool v = false; };\ntemplate<class A> struct vp_same<A, A> { static const bool v = true; };\n"
        t += "\n".join(ct.lines) + "\n"
        for c, w in conds:
            t += '%s(%s, "VPFAIL %s");\n' % ("static_assert" if cxx else "_Static_assert", c, w.replace('"', "'"))
        p = cc.compile_c(d, "p_" + lang, t, cxx=cxx)
        if p.returncode != 0:
            cc.fail("a declaration in the %s header has the wrong type" % lang, src, cfg, h, p.stderr[:4000])
        ctx.evaluated(len(conds))
        ctx.label("lang:" + lang, "depth:%d" % min(mx, 6))
        ctx.nontrivial(mx >= 2)
