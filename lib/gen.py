"""Hypothesis strategies for the Rust program model of rs.py.

Programs are acyclic in by-value and pointer edges except for self pointers; the
source order of items is shuffled independently of the dependency order."""
from hypothesis import strategies as st
import rs

B = st.booleans()


def weighted(draw, opts):
    """opts: list of (weight, value); smaller index = simpler for the shrinker"""
    opts = [o for o in opts if o[0] > 0]
    tot = sum(w for w, _ in opts)
    r = draw(st.integers(0, tot - 1))
    for w, v in opts:
        if r < w:
            return v
        r -= w
    raise AssertionError


class Env:
    """what generated types may refer to"""

    def __init__(self, feats):
        self.items = {}       # name -> item
        self.values = []      # names usable by value (complete, sized, non-generic)
        self.any = []         # names usable behind a pointer
        self.generic = []     # generic items
        self.consts = []      # names of usize constants usable as array length
        self.feats = feats
        self.self_name = None
        self.params = []      # in-scope type params
        self.cparams = []     # in-scope const params
        self.depth = 3
        self.copy_only = False
        self.no_align = False
        self.in_enum = False
        self.self_args = None


def prim(draw, env):
    if "cprims" in env.feats and draw(st.integers(0, 3)) == 3:
        return ["p", draw(st.sampled_from(sorted(rs.RAW)))]
    return ["p", draw(st.sampled_from(rs.COMMON))]


def pointee(draw, env, depth):
    opts = [(4, "prim"), (2, "void")]
    if env.any:
        opts.append((5, "any"))
    if env.self_name:
        opts.append((2, "self"))
    if env.generic and depth > 0:
        opts.append((2, "generic"))
    if env.params:
        opts.append((3, "param"))
    if depth > 0:
        opts += [(4, "ptr"), (2, "arr")]
        if "fnptr" in env.feats:
            opts.append((2, "fnptr"))
        if "nonzero" in env.feats:
            opts.append((1, "nz"))
        if "cell" in env.feats:
            opts.append((1, "cell"))
    k = weighted(draw, opts)
    if k == "prim":
        return prim(draw, env)
    if k == "void":
        return ["void"]
    if k == "any":
        return ["path", draw(st.sampled_from(env.any)), []]
    if k == "self":
        it = env.items.get(env.self_name)
        return ["path", env.self_name, env.self_args or []]
    if k == "generic":
        return generic_inst(draw, env, depth - 1)
    if k == "param":
        return ["gp", draw(st.sampled_from(env.params))]
    if k == "ptr":
        return pointer(draw, env, depth - 1)
    if k == "fnptr":
        return fnptr(draw, env, depth - 1)
    if k == "arr":
        return array(draw, env, depth - 1)
    if k == "nz":
        return nonzero(draw, env)
    if k == "cell":
        return ["wrap", draw(st.sampled_from(["Cell", "UnsafeCell"])), value(draw, env, depth - 1, "elem")]


def is_fnptr(t):
    while t[0] == "opt" or (t[0] == "wrap" and t[1] != "Box"):
        t = t[-1]
    return t[0] == "fn"


def arr_base_is_fn(t):
    while t[0] == "arr" or t[0] == "opt" or (t[0] == "wrap" and t[1] != "Box"):
        t = t[1] if t[0] in ("arr", "opt") else t[2]
    return t[0] == "fn"


def pointer(draw, env, depth):
    kinds = [(5, "const"), (5, "mut")]
    if "refs" in env.feats:
        kinds += [(2, "shared"), (1, "refmut"), (1, "optshared"), (1, "optmut")]
    if "nonnull" in env.feats:
        kinds += [(1, "nn"), (1, "optnn")]
    if "box" in env.feats and not env.copy_only:
        kinds += [(1, "box"), (1, "optbox")]
    k = weighted(draw, kinds)
    p = pointee(draw, env, depth)
    # known finding KF-C02-1 (const dropped on a pointee that is a function pointer): excluded here
    if arr_base_is_fn(p) and k in ("const", "shared", "optshared"):
        k = "mut"
    if p[0] == "void" and k in ("box", "optbox", "shared", "refmut", "optshared", "optmut"):
        k = "const" if k in ("shared", "optshared") else "mut"
    if k in ("refmut", "optmut") and env.copy_only:
        k = "mut"
    if k in ("const", "mut"):
        return ["ptr", k, p]
    if k == "shared":
        return ["ref", "shared", p]
    if k == "refmut":
        return ["ref", "mut", p]
    if k == "optshared":
        return ["opt", ["ref", "shared", p]]
    if k == "optmut":
        return ["opt", ["ref", "mut", p]]
    if k == "nn":
        return ["nn", p]
    if k == "optnn":
        return ["opt", ["nn", p]]
    if k == "box":
        return ["wrap", "Box", p]
    if k == "optbox":
        return ["opt", ["wrap", "Box", p]]


def fnptr(draw, env, depth):
    n = draw(st.integers(0, 3))
    save = env.self_name
    if env.in_enum:
        # known finding KF-C02-2: the variant body precedes the enum, so a self pointer in a
        # prototype names a prototype-scoped struct in C
        env.self_name = None
    args = [value(draw, env, depth, "arg") for _ in range(n)]
    ret = None if draw(st.integers(0, 2)) == 0 else value(draw, env, depth, "ret")
    env.self_name = save
    names = None
    if draw(B):
        names = ["q%d" % i for i in range(n)]
    f = ["fn", args, ret, names, bool("variadic" in env.feats and n > 0 and draw(st.integers(0, 9)) == 0)]
    return ["opt", f] if draw(B) else f


def array(draw, env, depth):
    el = value(draw, env, depth, "elem")
    opts = [(8, "lit")]
    if env.consts:
        opts.append((2, "const"))
    if env.cparams:
        opts.append((5, "param"))
    k = weighted(draw, opts)
    if k == "const":
        n = draw(st.sampled_from(env.consts))
    elif k == "param":
        n = draw(st.sampled_from(env.cparams))
    else:
        n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 16] + ([0] if "zeroarr" in env.feats else [])))
    return ["arr", el, n]


def nonzero(draw, env):
    if draw(B):
        t = ["nz", draw(st.sampled_from(rs.NONZERO))]
    else:
        t = ["nzg", draw(st.sampled_from(rs.INTS))]
    return ["opt", t] if draw(B) else t


def generic_inst(draw, env, depth):
    g = env.items[draw(st.sampled_from(env.generic))]
    args = []
    for p in g["gen"]:
        if p[1] == "const":
            args.append(draw(st.integers(1, 5)) if p[2] != "bool" else draw(st.sampled_from(["true", "false"])))
        else:
            # type arguments are closed, Copy, simple types
            args.append(generic_arg(draw, env, depth))
    return ["path", g["name"], args]


def generic_arg(draw, env, depth):
    cands = [n for n in env.values if env.items[n].get("copy") and not env.items[n].get("gen") and not env.items[n].get("arrayish")]
    opts = [(5, "prim")]
    if cands:
        opts.append((4, "val"))
    opts.append((2, "ptr"))
    if env.generic and depth > 0 and "nestgen" in env.feats:
        opts.append((2, "gen"))
    k = weighted(draw, opts)
    if k == "prim":
        return ["p", draw(st.sampled_from(rs.COMMON))]
    if k == "val":
        return ["path", draw(st.sampled_from(cands)), []]
    if k == "gen":
        gs = [n for n in env.generic if env.items[n].get("copy")]
        if gs:
            sub = Env(env.feats)
            sub.items, sub.values, sub.any, sub.generic = env.items, env.values, env.any, gs
            return generic_inst(draw, sub, depth - 1)
        return ["p", "u8"]
    inner = ["p", draw(st.sampled_from(rs.COMMON))] if not env.any or draw(B) else ["path", draw(st.sampled_from(env.any)), []]
    return ["ptr", draw(st.sampled_from(["const", "mut"])), inner]


def value(draw, env, depth, pos):
    """a type usable by value in position pos: field, arg, ret, elem"""
    opts = [(6, "prim")]
    if env.values:
        opts.append((5, "val"))
    if env.params and pos != "ret":
        opts.append((6, "param"))
    if env.generic and depth > 0:
        opts.append((3, "generic"))
    if depth > 0:
        opts.append((5, "ptr"))
        if "fnptr" in env.feats:
            opts.append((2, "fnptr"))
        if pos in ("field", "elem"):
            opts.append((3, "arr"))
            if "cell" in env.feats and not env.copy_only:
                opts.append((1, "cell"))
            if "wrap" in env.feats:
                opts.append((1, "wrap"))
        if "nonzero" in env.feats:
            opts.append((1, "nz"))
    k = weighted(draw, opts)
    if k == "prim":
        return prim(draw, env)
    if k == "val":
        c = env.values
        if env.copy_only:
            c = [n for n in c if env.items[n].get("copy")]
        if pos in ("arg", "ret"):
            c = [n for n in c if not env.items[n].get("arrayish")]
        if env.no_align:
            c = [n for n in c if not env.items[n].get("has_align")]
        if not c:
            return prim(draw, env)
        return ["path", draw(st.sampled_from(c)), []]
    if k == "param":
        return ["gp", draw(st.sampled_from(env.params))]
    if k == "generic":
        t = generic_inst(draw, env, depth - 1)
        if (env.copy_only and not rs.is_copy(t, env.items)) or (env.no_align and has_align(t, env.items)):
            return prim(draw, env)
        return t
    if k == "ptr":
        return pointer(draw, env, depth - 1)
    if k == "fnptr":
        return fnptr(draw, env, depth - 1)
    if k == "arr":
        return array(draw, env, depth - 1)
    if k == "cell":
        return ["wrap", draw(st.sampled_from(["Cell", "UnsafeCell"])), value(draw, env, depth - 1, "elem")]
    if k == "wrap":
        w = draw(st.sampled_from(["ManuallyDrop", "MaybeUninit", "Pin"]))
        if w == "Pin":
            return ["wrap", "Pin", ["ref", "shared", pointee_novoid(draw, env, depth - 1)]]
        return ["wrap", w, value(draw, env, depth - 1, "elem")]
    if k == "nz":
        return nonzero(draw, env)


def pointee_novoid(draw, env, depth):
    p = pointee(draw, env, depth)
    return ["p", "u8"] if p[0] == "void" or arr_base_is_fn(p) else p


def has_align(t, items):
    for x in rs.walk(t):
        if x[0] == "path" and items.get(x[1], {}).get("has_align"):
            return True
    return False


def by_value_types(t):
    """types embedded by value in t (through arrays/wrappers)"""
    k = t[0]
    yield t
    if k == "arr":
        yield from by_value_types(t[1])
    elif k == "wrap" and t[1] != "Box":
        yield from by_value_types(t[2])
    elif k == "path":
        for a in t[2]:
            if isinstance(a, list):
                yield from by_value_types(a)


def embeds_align(t, items):
    return any(x[0] == "path" and items.get(x[1], {}).get("has_align") for x in by_value_types(t))


def fields(draw, env, lo, hi, names=None):
    n = draw(st.integers(lo, hi))
    return [[("f_" + rs.word(i)) if names is None else names[i], value(draw, env, env.depth, "field")] for i in range(n)]


def finish(it, env):
    tys = item_types(it)
    it["copy"] = all(rs.is_copy(t, env.items) or t[0] == "gp" or only_params_copy(t, env) for t in tys)
    it["has_align"] = bool(it.get("align")) or any(embeds_align(t, env.items) for t in tys)
    if it["k"] == "type" or it.get("repr") == ["transparent"]:
        # becomes an alias: an alias of an array cannot be passed by value
        t = tys[0] if tys else None
        while t and (t[0] == "opt" or (t[0] == "wrap" and t[1] != "Box")):
            t = t[-1]
        it["arrayish"] = bool(t) and (t[0] == "arr" or (t[0] == "path" and bool(env.items.get(t[1], {}).get("arrayish"))))
    env.items[it["name"]] = it


def only_params_copy(t, env):
    """is_copy where generic parameters count as Copy (they are bounded by Copy)"""
    def f(t):
        k = t[0]
        if k == "gp":
            return True
        if k in ("arr", "opt"):
            return f(t[1])
        if k == "wrap":
            return t[1] in ("MaybeUninit", "ManuallyDrop", "Pin") and f(t[2])
        if k == "path":
            it = env.items.get(t[1])
            return bool(it and it.get("copy")) and all(f(a) for a in t[2] if isinstance(a, list))
        return rs.is_copy(t, env.items)
    return f(t)


def item_types(it):
    if it["k"] in ("struct", "union"):
        return [f[1] for f in it["fields"]]
    if it["k"] == "enum":
        r = []
        for v in it["variants"]:
            r += (v.get("tuple") or []) + [t for _, t in (v.get("named") or [])]
        return r
    if it["k"] == "type":
        return [it["ty"]]
    if it["k"] == "fn" or it.get("foreign"):
        return [t for _, t in it["args"]] + ([it["ret"]] if it["ret"] not in (None, "never") else [])
    if it["k"] == "static":
        return [it["ty"]]
    return []


def gen_params(draw, env, it):
    n = draw(st.integers(1, 2))
    g = []
    for i in range(n):
        g.append([["T", "U"][i], "type"])
    if "constgen" in env.feats and draw(st.integers(0, 2)) == 0:
        g.append(["N", "const", "usize"])
    it["gen"] = g
    env.params = [x[0] for x in g if x[1] == "type"]
    env.cparams = [x[0] for x in g if x[1] == "const"]


def use_all_params(draw, it, env, fs):
    """every generic parameter must be used in a field: add one field per unused one"""
    used = set()

    def nonrec(t):
        # a use inside a recursive mention of the type itself does not count
        for x in rs.walk(t):
            if x[0] == "path" and x[1] == it["name"]:
                return False
        return True
    for f in fs:
        if not nonrec(f[1]):
            continue
        for x in rs.walk(f[1]):
            if x[0] == "gp":
                used.add(x[1])
            if x[0] == "arr" and isinstance(x[2], str):
                used.add(x[2])
            if x[0] == "path":
                used |= {a for a in x[2] if isinstance(a, str)}
    for g in it.get("gen", []):
        if g[0] not in used:
            nm = "g_" + g[0].lower()
            if g[1] == "const":
                fs.append([nm, ["arr", ["p", "u8"], g[0]]])
            else:
                fs.append([nm, draw(st.sampled_from([["gp", g[0]], ["ptr", "mut", ["gp", g[0]]], ["arr", ["gp", g[0]], 2]]))])


def reset(env):
    env.params, env.cparams, env.self_name, env.self_args = [], [], None, None
    env.copy_only = env.no_align = env.in_enum = False


def struct(draw, env, name, generic=False):
    it = {"k": "struct", "name": name, "repr": ["C"]}
    reset(env)
    env.self_name = name
    if generic:
        gen_params(draw, env, it)
        env.self_args = [["gp", g[0]] if g[1] == "type" else g[0] for g in it["gen"]]
    if "packed" in env.feats and draw(st.integers(0, 4)) == 0:
        it["packed"] = 1
    elif "align" in env.feats and draw(st.integers(0, 4)) == 0:
        it["align"] = draw(st.sampled_from([1, 2, 4, 8, 16, 32, 64]))
    if it.get("packed"):
        env.copy_only = env.no_align = True
    tup = draw(st.integers(0, 3)) == 0
    it["tuple"] = tup
    fs = fields(draw, env, 1, 5)
    use_all_params(draw, it, env, fs)
    if "phantom" in env.feats and draw(st.integers(0, 4)) == 0:
        fs.insert(draw(st.integers(0, len(fs))), ["f_phantom", draw(st.sampled_from([["phantom", ["p", "u64"]], ["pinned"]]))])
    if tup:
        for i, f in enumerate(fs):
            f[0] = str(i)
    it["fields"] = fs
    finish(it, env)
    if it.get("packed") and not it["copy"]:
        pass
    reset(env)
    return it


def transparent(draw, env, name):
    reset(env)
    env.self_name = name
    it = {"k": "struct", "name": name, "repr": ["transparent"], "tuple": draw(B)}
    fs = fields(draw, env, 1, 1)
    if "phantom" in env.feats and draw(B):
        fs.append(["f_ph", ["phantom", ["p", "u64"]]])
    if it["tuple"]:
        for i, f in enumerate(fs):
            f[0] = str(i)
    it["fields"] = fs
    # a transparent struct becomes an alias: a self pointer inside it cannot be expressed in C
    if any(x[0] == "path" and x[1] == name for x in rs.walk(fs[0][1])):
        fs[0][1] = ["p", "u32"]
    finish(it, env)
    reset(env)
    return it


def union(draw, env, name, generic=False):
    it = {"k": "union", "name": name, "repr": ["C"]}
    reset(env)
    env.self_name = name
    env.copy_only = True
    if generic:
        gen_params(draw, env, it)
        env.self_args = [["gp", g[0]] if g[1] == "type" else g[0] for g in it["gen"]]
    if "packed" in env.feats and draw(st.integers(0, 5)) == 0:
        it["packed"] = 1
        env.no_align = True
    elif "align" in env.feats and draw(st.integers(0, 5)) == 0:
        it["align"] = draw(st.sampled_from([2, 8, 16]))
    fs = fields(draw, env, 1, 4)
    use_all_params(draw, it, env, fs)
    it["fields"] = fs
    finish(it, env)
    it["copy"] = True
    reset(env)
    return it


def fieldless_enum(draw, env, name, eidx):
    rep = draw(st.sampled_from([["C"], ["u8"], ["i8"], ["u16"], ["i16"], ["u32"], ["i32"], ["u64"], ["i64"], ["usize"], ["isize"]]))
    n = draw(st.integers(1, 5))
    vs = []
    cur = -1
    for i in range(n):
        v = {"name": rs.cap(rs.word(eidx)) + rs.cap(rs.word(i))}
        if draw(st.integers(0, 3)) == 0:
            cur = cur + draw(st.integers(1, 9))
            v["disc"] = cur
        else:
            cur += 1
        vs.append(v)
    it = {"k": "enum", "name": name, "repr": rep, "variants": vs}
    finish(it, env)
    it["copy"] = True
    return it


def tagged_enum(draw, env, name, eidx, generic=False):
    it = {"k": "enum", "name": name, "tagged": True,
          "repr": draw(st.sampled_from([["C"], ["C", "u8"], ["u8"], ["u16"], ["u32"], ["i8"], ["C", "u32"], ["C", "i64"], ["usize"], ["u64"], ["C", "u16"]]))}
    reset(env)
    env.self_name = name
    if generic:
        gen_params(draw, env, it)
        it["gen"] = [g for g in it["gen"] if g[1] == "type"]
        env.cparams = []
        env.self_args = [["gp", g[0]] for g in it["gen"]]
    n = draw(st.integers(1, 4))
    vs = []
    env.depth = 2
    env.in_enum = True
    for i in range(n):
        v = {"name": rs.cap(rs.word(eidx)) + rs.cap(rs.word(i)), "snake": rs.word(eidx) + "_" + rs.word(i)}
        k = draw(st.integers(0, 3)) if i else 1
        if k == 1:
            v["tuple"] = [value(draw, env, 2, "field") for _ in range(draw(st.integers(1, 3)))]
        elif k == 2:
            v["named"] = [["f_" + rs.word(j), value(draw, env, 2, "field")] for j in range(draw(st.integers(1, 3)))]
        vs.append(v)
    if generic:
        fs = []
        for v in vs:
            fs += [[0, t] for t in v.get("tuple") or []] + [[0, t] for _, t in v.get("named") or []]
        m = len(fs)
        use_all_params(draw, it, env, fs)
        if len(fs) > m:
            vs.append({"name": rs.cap(rs.word(eidx)) + "Zz", "snake": rs.word(eidx) + "_zz", "named": [[f[0], f[1]] for f in fs[m:]]})
    it["variants"] = vs
    env.depth = 3
    finish(it, env)
    reset(env)
    return it


ALL = {"cprims", "fnptr", "refs", "nonnull", "nonzero", "cell", "packed", "align", "phantom", "generic", "constgen",
       "nestgen", "union", "tagged", "transparent", "alias", "opaque", "zeroarr", "lenconst", "box", "wrap", "variadic"}
CXX_UNSAFE = {"box", "wrap"}      # need user-provided C++ templates


@st.composite
def program(draw, feats=None, drop=(), max_items=6, max_fns=3, statics=True, shuffle=True, swarm=True):
    """-> {"items": [...], "feats": [...]} ; items in shuffled source order, each with "ord" = dependency order"""
    fs = sorted((ALL if feats is None else set(feats)) - set(drop))
    if swarm:
        fs = [f for f in fs if draw(st.integers(0, 3)) != 1]
        if draw(st.integers(0, 3)) != 1:
            fs = [f for f in fs if f not in CXX_UNSAFE]
    env = Env(set(fs))
    items = []
    if "lenconst" in env.feats:
        items.append({"k": "const", "name": "LEN_A", "ty": ["p", "usize"], "init": str(draw(st.integers(1, 6)))})
        env.consts.append("LEN_A")
    n = draw(st.integers(1, max_items))
    for i in range(n):
        name = "Ty" + rs.cap(rs.word(i))
        kinds = [(6, "struct"), (2, "enum")]
        if "union" in env.feats:
            kinds.append((4, "union"))
        if "tagged" in env.feats:
            kinds.append((6, "tagged"))
        if "transparent" in env.feats:
            kinds.append((2, "transparent"))
        if "alias" in env.feats:
            kinds.append((1, "alias"))
        if "opaque" in env.feats:
            kinds.append((1, "opaque"))
        if "generic" in env.feats:
            kinds += [(2, "gstruct"), (2, "gunion" if "union" in env.feats else "gstruct"),
                      (2, "genum" if "tagged" in env.feats else "gstruct")]
        k = weighted(draw, kinds)
        if k == "struct":
            it = struct(draw, env, name)
        elif k == "gstruct":
            it = struct(draw, env, name, True)
        elif k == "union":
            it = union(draw, env, name)
        elif k == "gunion":
            it = union(draw, env, name, True)
        elif k == "enum":
            it = fieldless_enum(draw, env, name, i)
        elif k == "tagged":
            it = tagged_enum(draw, env, name, i)
        elif k == "genum":
            it = tagged_enum(draw, env, name, i, True)
        elif k == "transparent":
            it = transparent(draw, env, name)
        elif k == "alias":
            it = {"k": "type", "name": name, "ty": value(draw, env, 3, "field")}
            finish(it, env)
        else:
            it = {"k": "opaque", "name": name, "copy": False}
            env.items[name] = it
        it["ord"] = i
        items.append(it)
        if it["k"] == "opaque":
            env.any.append(name)
        elif it.get("gen"):
            env.generic.append(name)
        else:
            env.values.append(name)
            env.any.append(name)
    reset(env)
    for i in range(draw(st.integers(1, max_fns))):
        args = [["a_" + rs.word(j), value(draw, env, 3, "arg")] for j in range(draw(st.integers(0, 4)))]
        r = draw(st.integers(0, 3))
        ret = None if r == 0 else value(draw, env, 3, "ret") if r < 3 or "noret" not in env.feats else "never"
        if ret and env.feats and r == 3:
            pass
        items.append({"k": "fn", "name": "func_" + rs.word(i), "args": args, "ret": ret})
    # make every type reachable
    use = [["u%d" % i, ["ptr", "mut", ["path", n, []]]] for i, n in enumerate(env.any)]
    if use:
        items.append({"k": "fn", "name": "use_all", "args": use, "ret": None})
    if shuffle:
        perm = draw(st.permutations(list(range(len(items)))))
        items = [items[j] for j in perm]
    return {"items": items, "feats": fs}


def instances(items):
    """all closed generic instantiations mentioned (transitively) with their substitution"""
    byname = {i["name"]: i for i in items}
    seen, order = {}, []
    work = []
    for it in items:
        if not it.get("gen"):
            for t in item_types(it):
                work.append(t)
    while work:
        t = work.pop()
        for x in rs.walk(t):
            if x[0] == "path" and x[2]:
                key = rs.rust(x)
                if key in seen:
                    continue
                seen[key] = x
                order.append(x)
                g = byname[x[1]]
                m = {p[0]: a for p, a in zip(g["gen"], x[2])}
                for ft in item_types(g):
                    work.append(rs.subst(ft, m))
    return order
