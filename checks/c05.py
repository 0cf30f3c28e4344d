"""C05: values and types of exported constants, rustc vs the compiled header."""
import re, struct as pystruct
from hypothesis import strategies as st
import cc, vp, rs

PROP = "C05"
N = {"quick": 1600, "thorough": 40000}
RULE = ("case = crate with up to 8 constants (typed integer/bool/char/float expressions over literals in every base, unary/binary/cast operators, "
        "references to constants, associated constants, enum variants and T::MAX/MIN, arrays, nested struct literals) x language/constant options "
        "x renaming; the compiled header's values are compared with those of a compiled Rust program, macros also inside larger expressions; "
        "non-trivial = some constant has an operator expression of depth >= 2, a reference, or a struct literal")
ASSUMPTIONS = ["x86_64; expressions whose literal C reading is narrower than the Rust one (KF-C05-1, e.g. u64 = 1 << 40) are not generated",
               "struct constants are generated for style both/type (KF-C05-2)", "constants refer to constants declared before them in C++"]
B = st.booleans()
WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "usize": 64, "isize": 64}
INTS = list(WID)


def rng(t):
    w = WID[t]
    return (0, 2 ** w - 1) if t[0] == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)


class Bad(Exception):
    pass


# --- Rust semantics (used only to stay inside the domain)
def rint(t, v):
    lo, hi = rng(t)
    if not lo <= v <= hi:
        raise Bad
    return v


def tdiv(a, b):
    if b == 0:
        raise Bad
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# --- C semantics: values are (width, signed, value), width 32 or 64 after promotion
def cwrap(w, s, v):
    v &= 2 ** w - 1
    return v - 2 ** w if s and v >= 2 ** (w - 1) else v


def cconv(t, v):
    w, s = WID[t], t[0] == "i"
    return cwrap(w, s, v)


def prom(t, v):
    """value of C type corresponding to Rust t, promoted"""
    w = WID[t]
    return (32, True, v) if w < 32 else (w, t[0] == "i", v)


def cmake(w, s, v):
    if s and not -2 ** (w - 1) <= v < 2 ** (w - 1):
        raise Bad
    return (w, s, cwrap(w, s, v))


def carith(a, b):
    w = max(a[0], b[0])
    s = all(x[1] for x in (a, b) if x[0] == w)
    return w, s, cwrap(w, s, a[2]), cwrap(w, s, b[2])


def known_bool(e):
    k = e[0]
    if k == "par":
        return known_bool(e[1])
    if k == "bin":
        return e[2] in ("&&", "||", "==", "!=", "<", "<=", ">", ">=") or known_bool(e[3]) or known_bool(e[4])
    return k in ("bool", "not")


class Ev:
    """evaluates an expression in Rust and in C at once; env: name -> (rust type, rust value, c value, ast)"""

    def __init__(self, typed, env):
        self.typed, self.env = typed, env

    def r(self, e):
        k = e[0]
        if k == "lit":
            return rint(e[1], e[2])
        if k == "bool":
            return e[1]
        if k == "max":
            return rng(e[1])[1]
        if k == "min":
            return rng(e[1])[0]
        if k == "ref":
            return self.env[e[1]][1]
        if k == "ev":
            return e[3]
        if k == "byte":
            return e[1]
        if k == "neg":
            return rint(e[1], -self.r(e[2]))
        if k == "not":
            if e[1] == "bool":
                return not self.r(e[2])
            v = ~self.r(e[2])
            return cconv(e[1], v)
        if k == "cast":
            v = self.r(e[3])
            if e[1] == "bool":
                raise Bad
            return cconv(e[1], int(v))
        if k == "par":
            return self.r(e[1])
        if k == "bin":
            t, op = e[1], e[2]
            a, b = self.r(e[3]), self.r(e[4])
            if t == "bool":
                return {"&&": a and b, "||": a or b, "&": bool(a & b), "|": bool(a | b), "^": bool(a ^ b)}[op]
            if t == "cmp":
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            if op in ("<<", ">>"):
                if not 0 <= b < WID[t]:
                    raise Bad
                return cconv(t, a << b) if op == "<<" else a >> b
            if op in "/%":
                q = tdiv(a, b)
                return rint(t, q if op == "/" else a - b * q)
            return rint(t, {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op])
        raise ValueError(e)

    def c(self, e):
        k = e[0]
        if k == "lit":
            v, suf = e[2], e[4]
            if suf and e[1] == "u64":
                return (64, False, v)
            if suf and e[1] == "i64":
                return (64, True, v)
            if suf and e[1] == "u32":
                return (32, False, v)
            if v > 2 ** 63 - 1:
                return (64, False, v)
            return (32, True, v) if v < 2 ** 31 else (64, True, v)
        if k == "bool":
            return (32, True, int(e[1]))
        if k == "min" and e[1][0] == "u":
            return (32, True, 0)
        if k in ("max", "min"):
            return prom(e[1], self.r(e))
        if k == "ref":
            t, rv, cv, ast = self.env[e[1]]
            if self.typed:
                return (32, True, int(rv)) if t == "bool" else prom(t, rv)
            return cv
        if k == "ev":
            return (32, True, e[3])
        if k == "byte":
            return (32, True, e[1])
        if k == "neg":
            w, s, v = self.c(e[2])
            return cmake(w, s, -v)
        if k == "not":
            w, s, v = self.c(e[2])
            if e[1] == "bool":
                if not known_bool(e[2]):
                    raise Bad       # KF-C05-5: the type of a referenced constant is not known
                return (32, True, int(not v))
            return (w, s, cwrap(w, s, ~v))
        if k == "cast":
            v = self.c(e[3])[2]
            return prom(e[1], cconv(e[1], v))
        if k == "par":
            return self.c(e[1])
        if k == "bin":
            t, op = e[1], e[2]
            a, b = self.c(e[3]), self.c(e[4])
            if op in ("<<", ">>"):
                w, s, v = a
                if not 0 <= b[2] < w:
                    raise Bad
                if op == "<<":
                    if s and (v < 0 or v << b[2] >= 2 ** (w - 1)):
                        raise Bad
                    return (w, s, cwrap(w, s, v << b[2]))
                return (w, s, v >> b[2])
            if op in ("&&", "||"):
                x = bool(a[2]) and bool(b[2]) if op == "&&" else bool(a[2]) or bool(b[2])
                return (32, True, int(x))
            w, s, x, y = carith(a, b)
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return (32, True, int({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]))
            if op in "/%":
                q = tdiv(x, y)
                return cmake(w, s, q if op == "/" else x - y * q)
            return cmake(w, s, {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op])
        raise ValueError(e)

    def ok(self, e, t, top=True):
        """same value in Rust and in the literal C reading (after the final conversion for typed constants)"""
        try:
            rv = self.r(e)
            cv = self.c(e)
        except Bad:
            return False
        v = cv[2]
        if self.typed and top and t != "bool":
            v = cconv(t, v)
        return v == int(rv)


BOUND = [0, 1, 2, 3, 7, 10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
         2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 40, 63, 31, 9007199254740993]


def lit(draw, t, small=False):
    lo, hi = rng(t)
    v = draw(st.one_of(st.integers(0, 20), st.sampled_from([b for b in BOUND if b <= hi] if not small else [0, 1, 2, 3, 4, 5, 7]), st.integers(0, hi) if not small else st.integers(0, 7)))
    return ["lit", t, v, draw(st.sampled_from(["d", "d", "x", "X", "b", "o", "_"])), draw(st.booleans())]


def expr(draw, ev, t, depth):
    """an expression of type t inside the domain"""
    e = expr0(draw, ev, t, depth)
    try:
        ev.r(e)
        if ev.c(e)[2] != int(ev.r(e)) and not ev.typed:
            raise Bad
    except Bad:
        return lit(draw, t, True) if t != "bool" else ["bool", True]
    return e


def expr0(draw, ev, t, depth):
    refs = [n for n, x in ev.env.items() if x[0] == t and x[3] != "hidden"]
    if depth <= 0 or draw(st.integers(0, 5)) == 0:
        k = draw(st.integers(0, 5))
        if refs and k >= 3:
            return ["ref", draw(st.sampled_from(refs))]
        if t == "bool":
            return ["bool", draw(B)]
        if k == 2 and t not in ("usize", "isize"):
            return [draw(st.sampled_from(["max", "min"])), t]
        if k == 1 and t == "u8":
            return ["byte", draw(st.integers(32, 126))]
        return lit(draw, t)
    sub = lambda tt: expr(draw, ev, tt, depth - 1)
    fix = lambda tt: suffixed(sub(tt))      # positions where Rust would not infer the type
    if t == "bool":
        k = draw(st.sampled_from(["not", "bin", "cmp", "par", "cmpb"]))
        if k == "not":
            return ["not", "bool", sub("bool")]
        if k == "par":
            return ["par", sub("bool")]
        if k == "bin":
            return ["bin", "bool", draw(st.sampled_from(["&&", "||", "&", "|", "^"])), sub("bool"), sub("bool")]
        if k == "cmpb":
            return ["bin", "cmp", draw(st.sampled_from(["==", "!="])), sub("bool"), sub("bool")]
        tt = draw(st.sampled_from(INTS))
        return ["bin", "cmp", draw(st.sampled_from(["==", "!=", "<", "<=", ">", ">="])), fix(tt), fix(tt)]
    k = draw(st.sampled_from(["bin", "bin", "bin", "bin", "shift", "cast", "cast", "neg", "not", "par", "ev"]))
    if k == "neg":
        if t[0] == "u":
            k = "bin"
        else:
            return ["neg", t, sub(t)]
    if k == "not":
        return ["not", t, sub(t)]
    if k == "par":
        return ["par", sub(t)]
    if k == "shift":
        return ["bin", t, draw(st.sampled_from(["<<", ">>"])), fix(t), lit(draw, draw(st.sampled_from(["u8", "u32", "i32", t])), True)]
    if k == "cast":
        s = draw(st.sampled_from(INTS + ["bool"]))
        return ["cast", t, s, fix(s)]
    if k == "ev":
        evs = ev.evs
        if evs:
            x = draw(st.sampled_from(evs))
            return ["cast", t, "enum", ["ev", x[0], x[1], x[2]]]
        k = "bin"
    return ["bin", t, draw(st.sampled_from(["+", "-", "*", "/", "%", "&", "|", "^"])), sub(t), sub(t)]


def suffixed(e):
    """give every literal whose type would be inferred from outside its suffix"""
    k = e[0]
    if k == "lit":
        return e[:4] + [True]
    if k in ("neg", "not"):
        return [k, e[1], suffixed(e[2])]
    if k == "par":
        return [k, suffixed(e[1])]
    if k == "bin" and e[1] != "cmp":
        return e[:3] + [suffixed(e[3]), e[4] if e[2] in ("<<", ">>") else suffixed(e[4])]
    return e


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "&&": 3, "||": 2}


def rtext(e, ctx=0):
    """Rust text with the minimal parentheses (plus explicit "par" nodes)"""
    k = e[0]
    if k == "lit":
        v = e[2]
        s = {"d": "%d" % v, "x": "0x%x" % v, "X": "0x%X" % v, "b": "0b" + bin(v)[2:], "o": "0o" + oct(v)[2:], "_": "{:_}".format(v)}[e[3]]
        return s + (("_" if e[3] in "x_X" else "") + e[1] if e[4] else "")
    if k == "bool":
        return "true" if e[1] else "false"
    if k in ("max", "min"):
        return "%s::%s" % (e[1], k.upper())
    if k == "ref":
        return e[2] if len(e) > 2 else e[1]
    if k == "ev":
        return "%s::%s" % (e[1], e[2])
    if k == "byte":
        c = chr(e[1])
        return "b'%s'" % (("\\" + c) if c in "'\\" else c)
    if k == "neg":
        s, p = "-" + rtext(e[2], 12), 12
    elif k == "not":
        s, p = "!" + rtext(e[2], 12), 12
    elif k == "cast":
        s, p = "%s as %s" % (rtext(e[3], 11), e[1]), 11
    elif k == "par":
        return "(%s)" % rtext(e[1], 0)
    else:
        p = PREC[e[2]]
        left = rtext(e[3], 5 if p == 4 else p)
        if e[2] in ("<", "<<") and re.search(r" as \w+$", left):
            left = "(%s)" % rtext(e[3])
        s = "%s %s %s" % (left, e[2], rtext(e[4], p + 1))
    return "(%s)" % s if p < ctx else s


def depth(e):
    if not isinstance(e, list):
        return 0
    return (1 if e and e[0] in ("bin", "neg", "not", "cast") else 0) + max([depth(x) for x in e if isinstance(x, list)] or [0])


def has(e, kinds):
    return isinstance(e, list) and ((len(e) > 0 and e[0] in kinds) or any(has(x, kinds) for x in e))


FLOATS = ["0.0", "1.5", "2.", "1e3", "0.1", "3.141592653589793", "1_000.25", "1.0e-3", "0.5f32", "2.0_f64", "1f32", "7f64", "123456789.125", "1e+2", "12E-1"]
CHARS = ["a", "Z", "0", " ", "'", "\"", "\\", "\n", "\t", "\r", "\0", "\x7f", "\x01", "~", "\u00e9", "\u00a0", "\u0080", "\u20ac", "\U0001f600", "\u0100", "?", "\u3042"]
NOPTR = False
FIELDN = ["alpha", "my_field", "snake_case_name", "b", "x1", "yZ", "gamma", "n_items"]
# rename_fields rule -> expected name (documented naming; exhaustive naming is C10's job)


def camel(s):
    p = s.split("_")
    return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])


@st.composite
def sval(draw, ev, ty, structs, enums):
    """value AST of a struct-field type"""
    k = ty[0]
    if k == "p":
        if ty[1] in ("f32", "f64"):
            return ["f", draw(st.sampled_from(FLOATS[:8])), draw(B)]
        if ty[1] == "char":
            return ["c", draw(st.sampled_from(CHARS))]
        e = expr(draw, ev, ty[1], draw(st.integers(0, 2)))
        return ["e", e if ev.ok(e, ty[1]) else ["bool", True] if ty[1] == "bool" else lit(draw, ty[1], True)]
    if k == "arr":
        return ["a", [draw(sval(ev, ty[1], structs, enums)) for _ in range(ty[2])]]
    if k == "en":
        e = enums[ty[1]]
        i = draw(st.integers(0, len(e["variants"]) - 1))
        return ["v", ty[1], i]
    if k == "ptr":
        return ["ptr", draw(st.sampled_from([0, 0, 8, 4096])), ty]
    s = structs[ty[1]]
    return ["s", ty[1], [draw(sval(ev, f[1], structs, enums)) for f in s["fields"]], draw(st.permutations(list(range(len(s["fields"])))))]


@st.composite
def fty(draw, nstructs, nenums, d=1):
    k = draw(st.sampled_from(["p", "p", "p", "arr", "en", "st", "st", "ptr"] if d else ["p"]))
    if k == "arr":
        return ["arr", draw(fty(0, 0, 0)), draw(st.integers(1, 3))]
    if k == "en" and nenums:
        return ["en", draw(st.integers(0, nenums - 1))]
    if k == "st" and nstructs:
        return ["st", draw(st.integers(0, nstructs - 1))]
    if k == "ptr" and not NOPTR:
        return ["ptr", draw(st.sampled_from(["const", "mut"])), draw(st.sampled_from(["u8", "i32"]))]
    return ["p", draw(st.sampled_from(INTS + ["bool", "f64", "f32", "char"]))]


@st.composite
def cases(draw):
    global NOPTR
    mode = draw(st.sampled_from(["c", "c", "cxx", "cxx", "constexpr", "inbody", "cxxdef", "cxxexpronly"]))
    typed = mode not in ("c", "cxxdef")
    NOPTR = mode == "cxxexpronly"          # KF-C05-4
    enums, structs, consts = [], [], []
    for i in range(draw(st.integers(0, 2))):
        vs, cur = [], -1
        for j in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 2)) == 0:
                cur = cur + draw(st.integers(1, 20))
                vs.append([cur, True])
            else:
                cur += 1
                vs.append([cur, False])
        enums.append({"name": "En" + rs.cap(rs.word(i)), "repr": draw(st.sampled_from(["C", "u8", "i16", "u32"])),
                      "variants": [["Var%s%s" % (rs.cap(rs.word(i)), rs.cap(rs.word(j))), v, x] for j, (v, x) in enumerate(vs)]})
    for i in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["named", "named", "named", "tuple", "transparent"]))
        nf = 1 if kind == "transparent" else draw(st.integers(1, 4))
        names = draw(st.permutations(FIELDN))
        fields = [[str(j) if kind == "tuple" else names[j], draw(fty(len(structs), len(enums)))] for j in range(nf)]
        if kind == "transparent":
            fields = [["0" if draw(B) else "inner", ["p", draw(st.sampled_from(INTS))]]]
        structs.append({"name": "St" + rs.cap(rs.word(i)), "kind": kind, "fields": fields})
    ev = Ev(typed, {})
    ev.evs = [[e["name"], v[0], v[1]] for e in enums for v in e["variants"]]
    late = set()           # typed constants that are declared after the types
    for i in range(draw(st.integers(1, 8))):
        n = "K_" + rs.word(i).upper() + ("" if draw(B) else str(i))
        kinds = ["int"] * 7 + ["bool", "bool", "float", "char", "array", "ptr", "copy"]
        if structs:
            kinds += ["struct"] * 4 + ["assoc"] * 3
        if enums:
            kinds += ["enum"]
        k = draw(st.sampled_from(kinds))
        c = {"name": n, "k": k}
        if k in ("int", "bool", "assoc"):
            t = "bool" if k == "bool" else draw(st.sampled_from(INTS))
            c["ty"] = ["p", t]
            env, evs = ev.env, ev.evs
            if k == "assoc":
                c["of"] = draw(st.integers(0, len(structs) - 1))
                if typed:
                    # in C++ associated constants are declared with the type: only earlier things are visible
                    ev.evs = []
                    ev.env = {m: x for m, x in env.items() if m not in late and ("::" not in m or m.startswith(structs[c["of"]]["name"] + "::"))}
            e = expr(draw, ev, t, draw(st.integers(0, 4)))
            if not ev.ok(e, t):
                e = lit(draw, t, True) if t != "bool" else ["bool", draw(B)]
            ev.env, ev.evs = env, evs
            if k == "assoc":
                sn = structs[c["of"]]["name"]
                c["selfref"] = draw(B)
                key = sn + "::" + n
            else:
                key = n
                if has(e, ("ev",)) or has_late(e, late):
                    late.add(key)
            cv = ev.c(e)
            brefs = [m for m, x in env.items() if x[0] == "bool"]
            if k == "bool" and brefs and draw(B):
                # negated references at the top of a bool constant
                m = draw(st.sampled_from(brefs))
                if m in late:
                    late.add(key)
                if draw(B):
                    e = ["not", "bool", ["ref", m]]
                    cv = (32, True, int(not env[m][1]))
                else:
                    e = ["bin", "bool", "&&", ["not", "bool", ["ref", m]], e]
                    cv = (32, True, int((not env[m][1]) and bool(cv[2])))
            c["val"] = ["e", e]
            env[key] = (t, ev.r(e), cv, "ast")
        elif k == "float":
            c["ty"] = ["p", draw(st.sampled_from(["f32", "f64"]))]
            f = draw(st.sampled_from(FLOATS))
            if f.endswith("f32"):
                c["ty"] = ["p", "f32"]
            if f.endswith("f64"):
                c["ty"] = ["p", "f64"]
            c["val"] = ["f", f, draw(B)]
        elif k == "char":
            c["ty"] = ["p", "char"]
            c["val"] = ["c", draw(st.sampled_from(CHARS))]
        elif k == "enum":
            ei = draw(st.integers(0, len(enums) - 1))
            c["ty"] = ["en", ei]
            c["val"] = draw(sval(ev, c["ty"], structs, enums))
        elif k == "array":
            c["ty"] = ["arr", draw(fty(0 if not typed else len(structs), 0, draw(st.integers(0, 1)))), draw(st.integers(1, 3))]
            if c["ty"][1][0] in ("arr",) or (mode == "constexpr" and False):
                c["ty"][1] = ["p", "u8"]
            c["val"] = draw(sval(ev, c["ty"], structs, enums))
        elif k == "ptr":
            c["ty"] = ["ptr", draw(st.sampled_from(["const", "mut"])), draw(st.sampled_from(["u8", "i32", "u64"]))]
            c["val"] = ["ptr", draw(st.sampled_from([0, 1, 4096])), c["ty"]]
        elif k == "copy":
            prev = [x for x in consts if x["k"] in ("float", "char", "enum", "ptr") and not (x["k"] == "ptr" and "expr" in mode)]   # KF-C05-4
            if not prev:
                continue
            o = draw(st.sampled_from(prev))
            c["ty"] = o["ty"]
            c["val"] = ["copy", o["name"]]
        else:
            si = draw(st.integers(0, len(structs) - 1))
            c["ty"] = ["st", si]
            c["val"] = draw(sval(ev, c["ty"], structs, enums))
        consts.append(c)
    cfg = {}
    if draw(st.integers(0, 3)) == 0:
        cfg["rename_fields"] = "CamelCase"
    if draw(st.integers(0, 3)) == 0:
        cfg["prefix"] = "Pf"
    if draw(st.integers(0, 3)) == 0:
        cfg["prefix_with_name"] = True
    if draw(st.integers(0, 3)) == 0:
        cfg["rename_variants"] = draw(st.sampled_from(["ScreamingSnakeCase", "SnakeCase"]))
    cfg["enum_class"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        cfg["assoc_upper"] = True
    cfg["style"] = draw(st.sampled_from(["both", "type"]))
    return {"mode": mode, "enums": enums, "structs": structs, "consts": consts, "cfg": cfg, "perm": draw(st.integers(0, 99)) if mode in ("c", "cxxdef") else None}


def has_late(e, late):
    return isinstance(e, list) and ((len(e) > 1 and e[0] == "ref" and e[1] in late) or any(has_late(x, late) for x in e))


def strategy(tier):
    return cases()


def tyname(t, case):
    if t[0] == "p":
        return t[1]
    if t[0] == "arr":
        return "[%s; %d]" % (tyname(t[1], case), t[2])
    if t[0] == "ptr":
        return "*%s %s" % (t[1], t[2])
    if t[0] == "en":
        return case["enums"][t[1]]["name"]
    return case["structs"][t[1]]["name"]


def vtext(v, case, ty):
    k = v[0]
    if k == "e":
        return rtext(v[1])
    if k == "f":
        return ("-" if v[2] else "") + v[1]
    if k == "c":
        return "'%s'" % {"'": "\\'", "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\x7f": "\\x7f", "\x01": "\\u{1}", "\u0080": "\\u{80}", "\u00a0": "\\u{a0}"}.get(v[1], v[1])
    if k == "a":
        return "[%s]" % ", ".join(vtext(x, case, ty[1]) for x in v[1])
    if k == "v":
        e = case["enums"][v[1]]
        return "%s::%s" % (e["name"], e["variants"][v[2]][0])
    if k == "ptr":
        return "%d as *%s %s" % (v[1], v[2][1], v[2][2])
    if k == "copy":
        return v[1]
    s = case["structs"][v[1]]
    if s["fields"][0][0] == "0":
        return "%s(%s)" % (s["name"], ", ".join(vtext(x, case, f[1]) for x, f in zip(v[2], s["fields"])))
    return "%s { %s }" % (s["name"], ", ".join("%s: %s" % (s["fields"][i][0], vtext(v[2][i], case, s["fields"][i][1])) for i in v[3]))


def render(case):
    import random
    out = []
    for e in case["enums"]:
        out.append("#[repr(%s)] #[derive(Clone, Copy)] pub enum %s { %s }\n" % (e["repr"], e["name"], ", ".join(n + (" = %d" % v if x else "") for n, v, x in e["variants"])))
    for s in case["structs"]:
        r = "transparent" if s["kind"] == "transparent" else "C"
        if s["fields"][0][0] == "0":
            out.append("#[repr(%s)] #[derive(Clone, Copy)] pub struct %s(%s);\n" % (r, s["name"], ", ".join("pub " + tyname(f[1], case) for f in s["fields"])))
        else:
            out.append("#[repr(%s)] #[derive(Clone, Copy)] pub struct %s { %s }\n" % (r, s["name"], ", ".join("pub %s: %s" % (f[0], tyname(f[1], case)) for f in s["fields"])))
    impls = {}
    for c in case["consts"]:
        t = "pub const %s: %s = %s;\n" % (c["name"], tyname(c["ty"], case), None)
        sn = case["structs"][c["of"]]["name"] if c["k"] == "assoc" else None
        txt = vtext(c["val"], case, c["ty"])
        if sn and c.get("selfref"):
            txt = re.sub(r"\b%s::" % sn, "Self::", txt)
        t = "pub const %s: %s = %s;\n" % (c["name"], tyname(c["ty"], case), txt)
        if sn:
            impls.setdefault(sn, []).append("    " + t)
        else:
            out.append(t)
    for n, l in impls.items():
        out.append("impl %s {\n%s}\n" % (n, "".join(l)))
    use = ["%s: *const %s" % ("u" + x["name"].lower(), x["name"]) for x in case["structs"] + case["enums"]]
    out.append('#[no_mangle] pub extern "C" fn use_types(%s) {}\n' % ", ".join(use))
    if case["perm"] is not None:
        random.Random(case["perm"]).shuffle(out)
    return rs.RUST_HEAD + "".join(out)


def leaves(v, ty, case, rpath, cpath, cname):
    """-> (rust expr, C expr, kind) for each leaf; kind int/f32/f64/ptr"""
    if ty[0] == "p":
        t = ty[1]
        yield rpath, cpath, "float" if t in ("f32", "f64") else "int", t
    elif ty[0] == "en":
        yield rpath, cpath, "int", "enum"
    elif ty[0] == "ptr":
        yield rpath, cpath, "ptr", None
    elif ty[0] == "arr":
        for i in range(ty[2]):
            yield from leaves(None, ty[1], case, "%s[%d]" % (rpath, i), "%s[%d]" % (cpath, i), cname)
    else:
        s = case["structs"][ty[1]]
        for n, t in s["fields"]:
            cp = cpath if s["kind"] == "transparent" else "%s.%s" % (cpath, cname(n))
            yield from leaves(None, t, case, "%s.%s" % (rpath, n), cp, cname)


CONTEXTS = ["2u*{}", "{}*2u", "10u-{}", "-{}", "{}|1u", "{}&6u", "~{}", "!{}", "{}<<1u", "{}==3", "1u+{}*3u", "{}%7u", "({}?1:2)", "{}<5", "(unsigned char){}"]


def config(case):
    mode, o = case["mode"], case["cfg"]
    cxx = mode != "c"
    pf = o.get("prefix", "")
    cfg = {"language": "C++" if cxx else "C", "const": {}, "export": {}, "enum": {"enum_class": o["enum_class"]}}
    cfg.update(cc.CXX_INC)
    if pf:
        cfg["export"]["prefix"] = pf
    if "rename_fields" in o:
        cfg["struct"] = {"rename_fields": o["rename_fields"]}
    if o.get("assoc_upper"):
        cfg.setdefault("struct", {})["rename_associated_constant"] = "UpperCase"
    if o.get("prefix_with_name"):
        cfg["enum"]["prefix_with_name"] = True
    if o.get("rename_variants"):
        cfg["enum"]["rename_variants"] = o["rename_variants"]
    if not cxx:
        cfg["style"] = o["style"]
    if mode == "constexpr":
        cfg["const"]["allow_constexpr"] = True
    elif mode == "cxxdef":
        cfg["const"] = {"allow_static_const": False, "allow_constexpr": False}
    elif mode == "cxxexpronly":
        cfg["const"] = {"allow_static_const": False, "allow_constexpr": True}
    elif mode == "inbody":
        cfg.setdefault("struct", {})["associated_constants_in_body"] = True
        cfg["const"]["allow_constexpr"] = False
    else:
        cfg["const"]["allow_constexpr"] = False
    return cfg


def check(case, ctx):
    d = ctx.fresh()
    src = render(case)
    mode, o = case["mode"], case["cfg"]
    cxx = mode != "c"
    pf = o.get("prefix", "")
    cfg = config(case)
    # Rust values
    rl, cl, tl, pre = "", "", "", ""
    n = 0
    fname = lambda f: "_" + f if f.isdigit() else (camel(f) if "rename_fields" in o else f)
    interesting = False
    for ci, c in enumerate(case["consts"]):
        ty = c["ty"]
        macro = mode in ("c", "cxxdef")
        if mode == "cxxexpronly" and has(c["val"], ("ptr",)):
            macro = True              # not constexpr-able: falls back to a macro
        if c["k"] == "assoc":
            s = case["structs"][c["of"]]
            rp = s["name"] + "::" + c["name"]
            inb = mode == "inbody" and s["kind"] != "transparent"
            cp = pf + s["name"]
            if o.get("assoc_upper") and not inb:
                cp = cp.upper()
            cp += ("::" if inb else "_") + c["name"]
        else:
            rp, cp = c["name"], pf + c["name"]
        base = cp
        if macro and ty[0] == "arr":
            et = ty[1]
            ct = {"p": lambda: rs.PRIMS[et[1]], "ptr": lambda: ("const " if et[1] == "const" else "") + rs.PRIMS[et[2]] + "*",
                  "en": lambda: pf + case["enums"][et[1]]["name"], "st": lambda: pf + case["structs"][et[1]]["name"]}[et[0]]()
            pre += "static %s vp_arr%d[%d] = %s;\n" % (ct, ci, ty[2], cp)
            base = "vp_arr%d" % ci
        for r, x, kind, t in leaves(c["val"], ty, case, rp, base, fname):
            if kind == "float":
                rl += 'println!("%d {:016x}", (%s as f64).to_bits());\n' % (n, r)
                cl += 'VPF(%d, (%s)(%s));\n' % (n, rs.PRIMS[t], x)
            elif kind == "ptr":
                rl += 'println!("%d {}", %s as usize);\n' % (n, r)
                cl += 'printf("%d %%llu\\n", (unsigned long long)(uintptr_t)(%s));\n' % (n, x)
            else:
                rl += 'println!("%d {} {}", (((%s) as i128) < 0) as u8, %s as u64);\n' % (n, "%s as u32" % r if t == "char" else "%s as i64" % r if t in ("enum", "bool") else r, r)
                if cxx and t == "enum":
                    x = "(long long)(%s)" % x
                cl += 'VPI(%d, (%s));\n' % (n, x)
            n += 1
        if macro and ty[0] == "p" and ty[1] in WID:
            for k, cx in enumerate(CONTEXTS):
                cl += 'if ((%s) != (%s)) printf("CTX %s %d\\n");\n' % (cx.format(cp), cx.format("(" + cp + ")"), cp, k)
        if not macro and ty[0] == "p":
            tl += 'static_assert(vp_same<vp_rc<decltype(%s)>::t, %s>::v, "VPFAIL type of %s");\n' % (cp, rs.PRIMS[ty[1]], cp)
            if mode in ("constexpr", "cxxexpronly") or (ty[1] in WID and mode != "inbody"):
                tl += 'static_assert((%s) == (%s), "must be a constant expression");\n' % (cp, cp)
        if not macro and ty[0] == "ptr":
            tl += 'static_assert(vp_same<vp_rc<decltype(%s)>::t, %s%s *>::v, "VPFAIL type of %s");\n' % (cp, "const " if ty[1] == "const" else "", rs.PRIMS[ty[2]], cp)
        if not macro and ty[0] == "st" and case["structs"][ty[1]]["kind"] != "transparent":
            tl += 'static_assert(vp_same<vp_rc<decltype(%s)>::t, %s>::v, "VPFAIL type of %s");\n' % (cp, pf + case["structs"][ty[1]]["name"], cp)
        interesting |= ty[0] == "st" or has(c["val"], ("ref", "ev")) or (c["val"][0] == "e" and depth(c["val"][1]) >= 2)
        ctx.label("const:" + c["k"])
    rout = cc.rust_run(d, src + "\nfn main() {\n%s}\n" % rl)
    h = cc.bindgen(ctx, d, src, cfg, out="out.h")
    prog = '#include "out.h"\n#include <stdio.h>\n#include <string.h>\n'
    prog += "#define VPI(n, x) printf(\"%d %d %llu\\n\", n, (int)((x) < 0), (unsigned long long)(x))\n"
    prog += "#define VPF(n, x) do { double vd = (x); unsigned long long vb; memcpy(&vb, &vd, 8); printf(\"%d %016llx\\n\", n, vb); } while (0)\n"
    if cxx:
        prog += "template<class A, class B> struct vp_same { static const bool v = false; };\ntemplate<class A> struct vp_same<A, A> { static const bool v = true; };\n"
        prog += "template<class A> struct vp_rc { typedef A t; };\ntemplate<class A> struct vp_rc<const A> { typedef A t; };\n" + tl
    prog += pre + "int main(void) {\n%sreturn 0;\n}\n" % cl
    p = cc.cc_exe(d, "cprobe", prog, cxx=cxx)
    if p.returncode != 0:
        cc.fail("constants in the %s header (%s) cannot be used as documented" % (cfg["language"], mode), src, cfg, h, p.stderr[:3000])
    r = vp.run(["./cprobe"], cwd=d)
    cout = r.stdout
    if r.returncode != 0 or cout.split("\n") != rout.split("\n"):
        diff = [(a, b) for a, b in zip(rout.split("\n"), cout.split("\n")) if a != b][:6]
        cc.fail("constants differ between Rust and the %s header (%s): (rust, c) = %s" % (cfg["language"], mode, diff), src, cfg, h)
    ctx.evaluated(n)
    ctx.label("mode:" + mode)
    ctx.nontrivial(interesting)
