"""A small model of Rust programs (JSON-able), its rendering to Rust, and an
independent translation of Rust types to C/C++ types (as typedef chains)."""

PRIMS = {  # rust -> C (independent table; documented mapping)
    "bool": "bool", "char": "uint32_t",
    "u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t",
    "i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t",
    "usize": "uintptr_t", "isize": "intptr_t", "f32": "float", "f64": "double",
    "c_char": "char", "c_schar": "signed char", "c_uchar": "unsigned char",
    "c_short": "short", "c_ushort": "unsigned short", "c_int": "int", "c_uint": "unsigned int",
    "c_long": "long", "c_ulong": "unsigned long", "c_longlong": "long long",
    "c_ulonglong": "unsigned long long", "c_float": "float", "c_double": "double",
}
RAW = {k: "::std::os::raw::" + k for k in PRIMS if k.startswith("c_")}
NONZERO = ["U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "Usize", "Isize"]
INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]
COMMON = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "f32", "f64", "bool", "char"]

WORDS = ["alpha", "bravo", "carol", "delta", "echo", "fox", "golf", "hotel", "india", "julep", "kilo", "lima",
         "mike", "nova", "oscar", "papa", "quebec", "romeo", "sierra", "tango", "umbra", "victor", "whisky",
         "xray", "yankee", "zulu"]


def word(i):
    s = WORDS[i % 26]
    while i >= 26:
        i = i // 26 - 1
        s += WORDS[i % 26]
    return s


def cap(s):
    return s[0].upper() + s[1:]


# ------------------------------------------------------------------ rust text
def rust(t):
    k = t[0]
    if k == "p":
        return RAW.get(t[1], t[1])
    if k == "void":
        return "::std::os::raw::c_void"
    if k == "ptr":
        return "*%s %s" % (t[1], rust(t[2]))
    if k == "ref":
        return "&'static %s%s" % ("mut " if t[1] == "mut" else "", rust(t[2]))
    if k == "arr":
        return "[%s; %s]" % (rust(t[1]), t[2])
    if k == "fn":
        a = []
        for i, x in enumerate(t[1]):
            nm = t[3][i] if len(t) > 3 and t[3] else None
            a.append((nm + ": " if nm else "") + rust(x))
        if len(t) > 4 and t[4]:
            a.append("...")
        q = "unsafe " if len(t) > 4 and t[4] else ""
        r = " -> !" if t[2] == "never" else "" if t[2] is None else " -> " + rust(t[2])
        return q + 'extern "C" fn(%s)%s' % (", ".join(a), r)
    if k == "opt":
        return "Option<%s>" % rust(t[1])
    if k == "nn":
        return "::std::ptr::NonNull<%s>" % rust(t[1])
    if k == "nz":
        return "::std::num::NonZero" + t[1]
    if k == "nzg":
        return "::std::num::NonZero<%s>" % t[1]
    if k == "wrap":
        return {"Cell": "::std::cell::Cell", "UnsafeCell": "::std::cell::UnsafeCell", "Box": "Box",
                "ManuallyDrop": "::std::mem::ManuallyDrop", "MaybeUninit": "::std::mem::MaybeUninit",
                "Pin": "::std::pin::Pin"}[t[1]] + "<%s>" % rust(t[2])
    if k == "phantom":
        return "::std::marker::PhantomData<%s>" % rust(t[1])
    if k == "pinned":
        return "::std::marker::PhantomPinned"
    if k == "path":
        n = t[1]
        if len(t) > 3 and t[3]:
            n = t[3] + n          # module path prefix
        if t[2]:
            n += "<%s>" % ", ".join(rust(a) if isinstance(a, list) else str(a) for a in t[2])
        return n
    if k == "gp":
        return t[1]
    raise ValueError(t)


def subst(t, m):
    """substitute generic parameters"""
    k = t[0]
    if k == "gp":
        return m[t[1]]
    if k in ("p", "void", "nz", "nzg", "pinned"):
        return t
    if k in ("ptr", "ref", "wrap"):
        return [k, t[1], subst(t[2], m)]
    if k == "arr":
        n = t[2]
        return [k, subst(t[1], m), m.get(n, n) if isinstance(n, str) else n]
    if k == "fn":
        return [k, [subst(a, m) for a in t[1]], t[2] if t[2] in (None, "never") else subst(t[2], m)] + t[3:]
    if k in ("opt", "nn", "phantom"):
        return [k, subst(t[1], m)]
    if k == "path":
        return [k, t[1], [subst(a, m) if isinstance(a, list) else m.get(a, a) for a in t[2]]] + t[3:]
    raise ValueError(t)


def walk(t):
    yield t
    k = t[0]
    if k in ("ptr", "ref", "wrap"):
        yield from walk(t[2])
    elif k == "arr" or k in ("opt", "nn", "phantom"):
        yield from walk(t[1])
    elif k == "fn":
        for a in t[1]:
            yield from walk(a)
        if t[2] not in (None, "never"):
            yield from walk(t[2])
    elif k == "path":
        for a in t[2]:
            if isinstance(a, list):
                yield from walk(a)


def is_copy(t, items):
    k = t[0]
    if k in ("p", "ptr", "fn", "nn", "nz", "nzg", "phantom", "pinned"):
        return True
    if k == "ref":
        return t[1] != "mut"
    if k in ("arr", "opt"):
        return is_copy(t[1], items)
    if k == "wrap":
        return t[1] in ("MaybeUninit", "ManuallyDrop", "Pin") and is_copy(t[2], items)
    if k == "path":
        it = items.get(t[1])
        return bool(it and it.get("copy")) and all(is_copy(a, items) for a in t[2] if isinstance(a, list))
    return False


def generics_decl(it):
    if not it.get("gen"):
        return ""
    r = []
    for g in it["gen"]:
        if g[1] == "const":
            r.append("const %s: %s%s" % (g[0], g[2], "" if len(g) < 4 or g[3] is None else " = %s" % g[3]))
        else:
            # Copy + 'static keeps every by-value use legal (unions, packed derives)
            r.append("%s: Copy + 'static%s" % (g[0], "" if len(g) < 4 or g[3] is None else " = " + rust(g[3])))
    return "<%s>" % ", ".join(r)


def repr_attr(it):
    r = list(it.get("repr") or [])
    if it.get("packed"):
        r.append("packed" if it["packed"] == 1 else "packed(%d)" % it["packed"])
    if it.get("align"):
        r.append("align(%d)" % it["align"])
    return "#[repr(%s)]\n" % ", ".join(r) if r else ""


def docs_of(it):
    return "".join("/// %s\n" % d for d in it.get("doc", []))


def rust_item(it, extra_attrs=""):
    k = it["k"]
    pre = docs_of(it) + "".join("#[cfg(%s)]\n" % c for c in it.get("cfg", []))
    der = "#[derive(Clone, Copy)]\n" if it.get("copy") and k in ("struct", "union", "enum") else ""
    vis = it.get("vis", "pub ")
    if k == "struct":
        g = generics_decl(it)
        if it.get("tuple"):
            return "%s%s%s%s%sstruct %s%s(%s);\n" % (pre, extra_attrs, der, repr_attr(it), vis, it["name"], g,
                ", ".join("pub " + rust(f[1]) for f in it["fields"]))
        return "%s%s%s%s%sstruct %s%s {\n%s}\n" % (pre, extra_attrs, der, repr_attr(it), vis, it["name"], g,
            "".join("%s%s    pub %s: %s,\n" % ("".join("    /// %s\n" % d for d in (f[2].get("doc", []) if len(f) > 2 else [])),
                "".join("    #[cfg(%s)]\n" % c for c in (f[2].get("cfg", []) if len(f) > 2 else [])), f[0], rust(f[1])) for f in it["fields"]))
    if k == "union":
        g = generics_decl(it)
        return "%s%s%s%s%sunion %s%s {\n%s}\n" % (pre, extra_attrs, der, repr_attr(it), vis, it["name"], g,
            "".join("    pub %s: %s,\n" % (f[0], rust(f[1])) for f in it["fields"]))
    if k == "enum":
        out = "%s%s%s%s%senum %s%s {\n" % (pre, extra_attrs, der, repr_attr(it), vis, it["name"], generics_decl(it))
        for v in it["variants"]:
            for d in v.get("doc", []):
                out += "    /// %s\n" % d
            for c in v.get("cfg", []):
                out += "    #[cfg(%s)]\n" % c
            out += "    " + v["name"]
            if v.get("tuple") is not None:
                out += "(%s)" % ", ".join(rust(x) for x in v["tuple"])
            elif v.get("named") is not None:
                out += " { %s }" % ", ".join("%s: %s" % (n, rust(x)) for n, x in v["named"])
            if v.get("disc") is not None:
                out += " = %s" % v["disc"]
            out += ",\n"
        return out + "}\n"
    if k == "opaque":
        return pre + extra_attrs + it.get("text", "%sstruct %s { inner: Vec<u8> }\n" % (vis, it["name"]))
    if k == "type":
        return "%s%s%stype %s%s = %s;\n" % (pre, extra_attrs, vis, it["name"], "<%s>" % ", ".join(g[0] for g in it["gen"]) if it.get("gen") else "", rust(it["ty"]))
    if k == "fn":
        a = ", ".join("%s: %s" % (n, rust(t)) for n, t in it["args"])
        r = " -> !" if it["ret"] == "never" else "" if it["ret"] is None else " -> " + rust(it["ret"])
        return "%s%s#[no_mangle]\n%sextern \"C\" fn %s(%s)%s { loop {} }\n" % (pre, extra_attrs, vis, it["name"], a, r)
    if k == "static":
        return "%s%s#[no_mangle]\n%sstatic %s%s: %s = %s;\n" % (pre, extra_attrs, vis, "mut " if it.get("mut") else "", it["name"], rust(it["ty"]), it["init"])
    if k == "const":
        return "%s%s%sconst %s: %s = %s;\n" % (pre, extra_attrs, vis, it["name"], rust(it["ty"]), it["init"])
    if k == "raw":
        return pre + extra_attrs + it["text"]
    raise ValueError(k)


RUST_HEAD = "#![allow(warnings)]\n"


def rust_program(items):
    return RUST_HEAD + "".join(rust_item(i) for i in items)


# ------------------------------------------------------- reference C type model
class CTypes:
    """Builds typedef chains naming the C/C++ type a Rust type must have.
    Only single-step typedefs are used, so no declarator syntax is involved."""

    def __init__(self, names, prefix="vpt", usize_is_size_t=False, alias=None):
        self.names = names          # rust item name -> C spelling ("struct Foo" / "Foo")
        self.lines = []
        self.n = 0
        self.memo = {}
        self.prefix = prefix
        self.alias = alias or {}    # rust text of a generic instance -> C spelling
        self.usz = usize_is_size_t

    def new(self, fmt):
        nm = "%s%d" % (self.prefix, self.n)
        self.n += 1
        self.lines.append("typedef " + fmt % nm + ";")
        return nm

    def get(self, t):
        key = repr(t)
        if key not in self.memo:
            self.memo[key] = self._get(t)
        return self.memo[key]

    def _get(self, t):
        k = t[0]
        if k == "p":
            if self.usz and t[1] == "usize":
                return "size_t"
            if self.usz and t[1] == "isize":
                return "ptrdiff_t"
            return PRIMS[t[1]]
        if k == "void":
            return "void"
        if k in ("ptr", "ref"):
            inner = self.get(t[2])
            return self.new(("const " if t[1] in ("const", "shared") else "") + inner + " *%s")
        if k == "nn" or (k == "wrap" and t[1] == "Box"):
            inner = self.get(t[-1])
            return self.new(inner + " *%s")
        if k == "arr":
            return self.new(self.get(t[1]) + " %s[" + str(t[2]) + "]")
        if k == "fn":
            args = [self.get(a) for a in t[1]]
            if len(t) > 4 and t[4]:
                args.append("...")
            r = "void" if t[2] in (None, "never") else self.get(t[2])
            return self.new(r + " (*%s)(" + (", ".join(args) or "void") + ")")
        if k == "opt":
            return self.get(t[1])
        if k == "nz":
            return self.get(["p", t[1].lower()])
        if k == "nzg":
            return self.get(["p", t[1]])
        if k == "wrap":
            return self.get(t[2])
        if k == "path":
            if t[2]:
                return self.alias[rust(t)]
            return self.names[t[1]]
        raise ValueError(t)
