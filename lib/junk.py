"""Syntactically valid Rust items of every kind, most of them outside what cbindgen supports."""
from hypothesis import strategies as st

B = st.booleans()
PRIM = ["u8", "i16", "u32", "i64", "usize", "f32", "f64", "bool", "char", "u128", "i128", "str", "()", "!", "c_int", "c_void", "VaList", "NonZeroU8", "NonZeroUsize", "String"]
EXPRS = ["1", "-1", "0x10", "0b1", "1_000u64", "1u128", "0xffff_ffff_ffff_ffff_ffff_ffff", "1.5", "1e400", "1f32", "1.0_f64", "'c'", "'\\u{1F600}'", "b'x'", "\"str\"", "b\"bytes\"",
         "c\"cstr\"", "r#\"raw\"#", "true", "()", "(1, 2)", "[1, 2, 3]", "[0; 4]", "A", "A::B", "a::b::C", "Self::X", "<u32>::MAX", "<T as Tr>::X", "u32::MAX", "Foo::<u8>::Y", "f()", "f(1, 2)", "f::<u8>(3)",
         "x.y", "x.0", "x.y.z", "x.m()", "x[0]", "&1", "&mut x", "&raw const x", "*p", "!x", "-x", "- -1", "!!true", "x as u8", "x as *const u8", "1 + 2", "1 << 3 | 4", "a && b", "a == b", "1..2", "..", "..=3",
         "x?", "{ 5 }", "{ let a = 1; a }", "unsafe { 5 }", "const { 5 }", "if a { 1 } else { 2 }", "match x { 1 => 2, _ => 3 }", "loop { break 5 }", "|x| x", "|x: u8| -> u8 { x }", "async { 1 }",
         "Foo { a: 1 }", "Foo { a: 1, ..b }", "Foo { 0: 1 }", "Foo { a: Bar { b: 2 } }", "Foo {}", "a::Foo { x: y }", "Foo(1)", "mac!()", "concat!(\"a\", \"b\")", "size_of::<u8>()", "(1)", "((1 + 2) * 3)",
         "return", "while true {}", "x = 5", "let Some(y) = x", "'a: loop {}", "-9223372036854775808", "18446744073709551616", "i32::MIN", "!0", "1 as u8 as i64", "~0".replace("~", "!"), "0o777", "b'\\xff'", "'\\''", "'\"'", "u8::MAX as u32 + 1"]
PATS = ["a", "_", "mut a", "&a", "(a, b)", "[a, b]", "Foo { a, .. }", "Foo(a)", "ref a", "r#type", "a @ 1", "1..=2", "int", "class", "mac!()"]
ABI = ["", "extern ", "extern \"C\" ", "extern \"C-unwind\" ", "extern \"system\" ", "extern \"Rust\" ", "extern \"stdcall\" ", "extern \"weird\" ", "unsafe extern \"C\" ", "const extern \"C\" ",
       "async ", "unsafe ", "const ", "const unsafe ", "extern r\"C\" "]
REPR = ["C", "packed", "packed(2)", "align(8)", "align(1)", "u8", "i16", "isize", "transparent", "Rust", "simd", "int", "C, u8", "C, packed, align(4)", "u128", "", "C()", "align", "packed = 1", "C, C", "align(\"4\")", "packed(3)",
        "align(A)", "align(99999999999999999999)"]
CFG = ["unix", "not(windows)", "all()", "any()", "not()", "not(a, b)", "feature = \"x\"", "a = 1", "a = b", "true", "a::b", "all(unix, any(a, not(b)))", "target_os = \"linux\"", "test", "not(test)", "a(b)", "version(\"1.2\")",
       "any(test, unix)", "feature = b\"x\"", "", "\"lit\"", "all(unix,)"]
ANN_K = ["rename-all", "field-names", "ptrs-as-arrays", "prefix-with-name", "derive-eq", "derive-neq", "derive-lt", "derive-constructor", "derive-ostream", "enum-trailing-values", "prefix", "postfix", "no-export", "ignore",
         "bitfield", "enum-class", "add-sentinel", "derive-helper-methods", "derive-const-casts", "derive-tagged-enum-destructor", "derive-tagged-enum-copy-constructor", "rename-variant-name-fields", "rename-associated-constant",
         "variant-constructor-attributes", "eq-attributes", "destructor-attributes", "transparent-typedef", "mut-cast-attributes", "derive-mut-casts", "private-default-tagged-enum-constructor", "must-use", "x"]
ANN_V = ["", "=", "=true", "=false", "=CamelCase", "=SnakeCase", "=Nope", "=[a, b]", "=[]", "=[", "=[[a;3], [b;4]]", "=[[x;]]", "=[;]", "=[ ]", "=[a]", "=[(a;3)]", "=8", "=None", "=a=b", "= spaced value ", "=[\u00e9;3]", "=[\u00e9]", "=[[a;3]", "=[x;y;z]", "=[,]", "=\u00e9"]
DEP = ["deprecated", "deprecated = \"note\"", "deprecated(note = \"n\\\"q\")", "deprecated(since = \"1\", note = \"x\")", "deprecated(since = \"1\")", "deprecated()", "deprecated(note)", "deprecated = 1", "deprecated(note = 5)", "deprecated(\"x\")"]
ATTR = ["derive(Clone, Copy)", "doc(hidden)", "doc = \"text\"", "doc = include_str!(\"x\")", "doc = \"cbindgen:ignore\"", "no_mangle", "no_mangle", "no_mangle", "unsafe(no_mangle)", "export_name = \"exp name\"", "export_name = \"e\"",
        "unsafe(export_name = \"u\")", "export_name", "export_name = 5", "must_use", "must_use = \"m\"", "non_exhaustive", "inline", "cfg_attr(a, repr(C))", "cfg_attr(unix, no_mangle)", "allow(dead_code)", "rustfmt::skip", "a::b(c)",
        "link(name = \"x\")", "used", "x = 1 + 2", "doc", "doc()", "doc(alias = \"y\")", "no_mangle = \"x\"", "no_mangle()"]


@st.composite
def ty(draw, d=2, names=()):
    k = draw(st.integers(0, 31 if d > 0 else 3))
    sub = lambda: draw(ty(d - 1, names))
    if k <= 3:
        return draw(st.sampled_from(PRIM + ["T", "Self", "U", "N"] + list(names)))
    if k <= 6:
        return draw(st.sampled_from(["*const ", "*mut ", "&", "&mut ", "&'a ", "&'static mut "])) + par(sub())
    if k == 7:
        return "[%s]" % sub()
    if k <= 9:
        return "[%s; %s]" % (sub(), draw(st.sampled_from(["3", "N", "{ 5 }", "A + 1", "size_of::<u8>()", "usize::MAX", "0", "M::N", "-1", "b'x' as usize", "{ let x = 1; x }", "1 as usize", "'a' as usize", "f()", "!0"])))
    if k == 10:
        return "(%s, %s)" % (sub(), sub())
    if k == 11:
        return "(%s)" % sub()
    if k <= 14:
        args = ", ".join(draw(st.sampled_from(["", "a: ", "_: ", "r#type: "])) + sub() for _ in range(draw(st.integers(0, 3))))
        va = draw(st.sampled_from(["", "", "", ", ..." if args else "..."]))
        return "%s%sfn(%s%s)%s" % (draw(st.sampled_from(["", "", "for<'a> ", "unsafe "])), draw(st.sampled_from(["extern \"C\" ", "extern ", "", "extern \"weird\" "])), args, va, draw(st.sampled_from(["", " -> !", " -> ()"])) if draw(B) else " -> " + par(sub()))
    if k == 15:
        return draw(st.sampled_from(["dyn Tr", "dyn Tr + Send + 'static", "dyn Fn(u8) -> u8", "dyn for<'a> Tr<'a>", "impl Tr", "impl Fn(u8) + 'a"]))
    if k == 16:
        return draw(st.sampled_from(["<T as Tr>::Out", "<u8>::Out", "T::Out", "Self::Out", "<T>::a::b"]))
    if k == 17:
        return draw(st.sampled_from(["mac!()", "mac![u8]", "_", "a::mac!{}"]))
    if k <= 22:
        return "%s<%s>" % (draw(st.sampled_from(["Option", "Option", "Box", "NonNull", "Vec", "PhantomData", "ManuallyDrop", "MaybeUninit", "Cell", "UnsafeCell", "Pin", "Rc", "Wrapping", "Foo", "a::Foo", "::a::Foo", "crate::x::Foo", "super::Foo", "r#type", "std::mem::MaybeUninit"])), sub())
    if k == 23:
        return "Foo<%s, %s>" % (sub(), sub())
    if k == 24:
        return draw(st.sampled_from(["Foo<'a>", "Foo<'a, u8, 3>", "Foo<{ N }>", "Foo<-1>", "Foo<true>", "Foo<'x'>", "Foo<\"s\">", "Foo<Item = u8>", "Foo<Item: Tr>", "Foo<>", "Foo::<u8>", "a::B<u8>::C", "Option", "Box", "Option<u8, u8>", "Box<>", "NonNull",
                                     "Result<(), u8>", "PhantomData", "Pin", "MaybeUninit", "Option<'a>", "Option<3>", "Fn(u8) -> u8", "Fn()"]))
    if k == 25:
        return draw(st.sampled_from(["u8", "std::os::raw::c_int", "libc::size_t", "core::ffi::c_char", "::std::primitive::u8", "std::u8", "a::u8"]))
    return sub()


def par(t):
    return "(" + t + ")" if (" + " in t or t.startswith(("dyn ", "impl "))) else t


@st.composite
def generics(draw):
    return draw(st.sampled_from(["", "", "", "<T>", "<'a>", "<'a, T: 'a + Clone>", "<const N: usize>", "<T = u8>", "<T, U>", "<T, const N: usize = 3>", "<const N: bool>", "<>", "<T: ?Sized>", "<'a: 'b, 'b>", "<#[cfg(a)] T>", "<const N: usize = { 5 }>", "<T, U = T>", "<T,>"]))


@st.composite
def attrs(draw, kind, mx=3):
    out = ""
    for _ in range(draw(st.integers(0, mx))):
        k = draw(st.integers(0, 9))
        if k <= 2:
            out += "#[repr(%s)]\n" % draw(st.sampled_from(REPR))
        elif k == 3:
            out += "#[cfg(%s)]\n" % draw(st.sampled_from(CFG))
        elif k <= 5:
            out += "/// cbindgen:%s%s\n" % (draw(st.sampled_from(ANN_K)), draw(st.sampled_from(ANN_V)))
        elif k == 6:
            out += "#[%s]\n" % draw(st.sampled_from(DEP))
        elif k == 7:
            out += "/// %s\n" % draw(st.sampled_from(["doc", "*/ x", "/* y", "", " a", "\u4e2d", "\\", "a\tb", "%s {} {0}"]))
        else:
            out += "#[%s]\n" % draw(st.sampled_from(ATTR))
    return out


@st.composite
def fields(draw, names, tup=False):
    out = []
    for i in range(draw(st.integers(0, 3))):
        a = draw(attrs("field", 1)) if draw(st.integers(0, 3)) == 0 else ""
        vis = draw(st.sampled_from(["", "pub ", "pub(crate) ", "pub(in a::b) "]))
        t = draw(ty(2, names))
        nm = draw(st.sampled_from(["a", "b", "r#type", "int", "_x", "x1"])) + str(i)
        out.append(a + vis + (t if tup else "%s: %s" % (nm, t)))
    return ", ".join(out)


@st.composite
def item(draw, n, names=(), depth=1):
    """one item; n = counter for unique names (all start with Jk/jk_)"""
    n[0] += 1
    i = n[0]
    k = draw(st.sampled_from(["fn", "fn", "fn", "struct", "struct", "tstruct", "unit", "enum", "enum", "union", "type", "const", "const", "static", "trait", "impl", "impl", "use", "externcrate", "mod", "macro", "mac", "bitflags", "externblk",
                              "externblk", "misc", "assoc", "selfref", "genuse"]))
    a = draw(attrs(k))
    vis = draw(st.sampled_from(["pub ", "pub ", "pub ", "", "pub(crate) "]))
    g = draw(generics())
    T = lambda: draw(ty(2, names))
    E = lambda: draw(st.sampled_from(EXPRS))
    wh = draw(st.sampled_from(["", "", "", " where T: Clone", " where [u8; N]: Sized, T: for<'a> Tr<'a>", " where"]))
    if k == "fn":
        abi = draw(st.sampled_from(ABI + ["extern \"C\" "] * 6))
        args = ", ".join("%s: %s" % (draw(st.sampled_from(PATS)), T()) for _ in range(draw(st.integers(0, 3))))
        ret = draw(st.sampled_from(["", "", " -> !", " -> impl Tr"])) if draw(B) else " -> " + par(T())
        nm = draw(st.sampled_from(["#[no_mangle] ", "#[no_mangle] ", "", "#[export_name = \"jkx_%d\"] " % i]))
        return a + nm + "%s%sfn jk_f%d%s(%s)%s%s { %s }" % (vis, abi, i, g, args, ret, wh, draw(st.sampled_from(["", "loop {}", "fn inner() {}", "mac!(); 5"])))
    if k == "struct":
        return a + "%sstruct Jk%d%s%s { %s }" % (vis, i, g, wh, draw(fields(names)))
    if k == "tstruct":
        return a + "%sstruct Jk%d%s(%s)%s;" % (vis, i, g, draw(fields(names, True)), wh)
    if k == "unit":
        return a + "%sstruct Jk%d%s%s;" % (vis, i, g, wh)
    if k == "enum":
        vs = []
        for j in range(draw(st.integers(0, 4))):
            va = draw(attrs("variant", 1)) if draw(st.integers(0, 3)) == 0 else ""
            form = draw(st.integers(0, 3))
            body = "" if form < 2 else "(%s)" % draw(fields(names, True)) if form == 2 else " { %s }" % draw(fields(names))
            body = body.replace("pub ", "").replace("pub(crate) ", "").replace("pub(in a::b) ", "")
            disc = " = " + E() if draw(st.integers(0, 3)) == 0 else ""
            vs.append(va + draw(st.sampled_from(["V", "r#type_", "int", "A"])) + str(j) + body + disc)
        return a + "%senum Jk%d%s%s { %s }" % (vis, i, g, wh, ", ".join(vs))
    if k == "union":
        return a + "%sunion Jk%d%s%s { %s }" % (vis, i, g, wh, draw(fields(names)))
    if k == "type":
        return a + "%stype Jk%d%s%s = %s;" % (vis, i, g, wh, T())
    if k == "const":
        return a + "%sconst %s: %s = %s;" % (vis, draw(st.sampled_from(["JK%d" % i, "JK%d" % i, "_"])), T(), E())
    if k == "static":
        return a + draw(st.sampled_from(["", "#[no_mangle] "])) + "%sstatic %sJK%d: %s = %s;" % (vis, draw(st.sampled_from(["", "mut "])), i, T(), E())
    if k == "trait":
        return a + "%s%strait Jk%d%s { %s }" % (vis, draw(st.sampled_from(["", "unsafe ", "auto "])), i, g, draw(st.sampled_from(["", "fn f();", "type A; const B: u8;", "fn f(&self) {} mac!();", "#[no_mangle] extern \"C\" fn tf() {}"])))
    if k in ("impl", "assoc"):
        target = draw(st.sampled_from(["Jk%d" % max(1, i - 1), "Jk%d" % max(1, i - 1), "Foo", "[u8]", "&T", "dyn Tr", "(u8, u8)", "Foo<T>", "a::b::Foo", "mac!()", "!"] + list(names))) if k == "impl" else "Jk%d" % max(1, i - 1)
        tr = draw(st.sampled_from(["", "", "", "Tr for ", "Tr<u8> for ", "!Send for ", "a::Tr for "]))
        body = []
        for _ in range(draw(st.integers(0, 3))):
            body.append(draw(st.sampled_from(["", "/// cbindgen:ignore\n", "/// cbindgen:rename-all=Bad\n", "#[cfg(unix)] "])) + draw(st.sampled_from([
                "pub const JC%d: %s = %s;" % (n[0], T(), E()), "const JD%d: u8 = 1;" % n[0], "pub type X = u8;", "mac!();",
                "#[no_mangle] pub extern \"C\" fn jk_m%d(%s) {}" % (n[0] * 10 + len(body), draw(st.sampled_from(["self", "&self", "&mut self", "mut self", "self: Box<Self>", "self: &Self", "&'a self", "self: Pin<&mut Self>", "a: Self", "a: &Self, b: Option<Self>", "a: *mut Self"]))),
                "pub fn jk_n%d(&self) -> Self { loop {} }" % n[0]])))
        return a + "%simpl%s %s%s%s { %s }" % (draw(st.sampled_from(["", "unsafe "])) if tr.endswith("for ") and "!" not in tr else "", g, tr, target, wh, "\n".join(body))
    if k == "use":
        return draw(st.sampled_from(["use a::b;", "use a::b as c;", "pub use a::*;", "use a::{self, b, c::{d as e, *}};", "use ::a::r#type;", "use crate::a as _;", "use self::a;", "use super::super::a;", "use {a, b};", "pub(crate) use Foo as Bar%d;" % i]))
    if k == "externcrate":
        return draw(st.sampled_from(["extern crate a;", "extern crate a as b;", "#[macro_use] extern crate a;", "extern crate self as me;", "extern crate std as _;"]))
    if k == "mod":
        inner = "".join(draw(item(n, names, depth - 1)) + "\n" for _ in range(draw(st.integers(0, 2)))) if depth > 0 else ""
        return a + "%smod jk_mod%d { #![allow(dead_code)] %s }" % (vis, i, inner)
    if k == "macro":
        return draw(st.sampled_from(["macro_rules! jk_mac%d { () => { fn x() {} }; ($a:expr) => { $a } }" % i, "pub macro jk_mac%d($a:expr) { $a }" % i, "#[macro_export] macro_rules! jk_mac%d { }" % i]))
    if k == "mac":
        return draw(st.sampled_from(["mac!();", "mac! { a b c }", "a::mac![1, 2];", "thread_local! { static X: u8 = 0; }", "global_asm!(\"nop\");", "cfg_if! { if #[cfg(a)] { fn f() {} } }", "lazy_static! { static ref A: u8 = 1; }"]))
    if k == "bitflags":
        return a + draw(st.sampled_from([
            "bitflags! { pub struct Jk%d: u8 { const A = 1; const B = %s; } }" % (i, E()), "bitflags! { struct Jk%d: u32 { } }" % i, "bitflags! { }", "bitflags! { pub struct Jk%d: u8 }" % i, "bitflags::bitflags! { #[repr(C)] pub struct Jk%d: %s { const A = 1 << 3; } }" % (i, T()),
            "bitflags! { pub struct Jk%d: u8 { const _ = !0; } }" % i, "bitflags! { impl Jk%d: u8 { const A = 1; } }" % i, "bitflags! { garbage tokens here }", "bitflags! { #[cfg(%s)] pub struct Jk%d: u64 { #[doc = \"x\"] const A = Self::B.bits(); const B = Self::C.bits | 5; } }" % (draw(st.sampled_from(CFG)), i),
            "bitflags!(pub struct Jk%d(u8) { const A = 1; });" % i, "bitflags! { pub struct Jk%d: u8 { const A = 0b1; } pub struct Jkk%d: i8 { const B = -1; } }" % (i, i), "bitflags! { struct Jk%d<T>: u8 { const A = 1; } }" % i,
            "bitflags! { pub struct Jk%d: u8 { const r#type = 1; const A = Jk%d::r#type.bits; } }" % (i, i), "bitflags! { pub struct Jk%d: u8 { const A = a::B.bits; const C = Other::X.bits(); } }" % i]))
    if k == "externblk":
        its = []
        for _ in range(draw(st.integers(0, 3))):
            j = len(its)
            its.append(draw(st.sampled_from(["", "/// cbindgen:ignore\n", "#[cfg(unix)] ", "#[link_name = \"x\"] "])) + draw(st.sampled_from([
                "pub fn jk_e%d_%d(a: %s);" % (i, j, T()), "fn jk_e%d_%d(_: u8, ...) -> %s;" % (i, j, par(T())), "pub static JKE%d_%d: %s;" % (i, j, T()), "static mut JKE%d_%d: u8;" % (i, j), "type JkT%d_%d;" % (i, j), "mac!();",
                "pub safe fn jk_e%d_%d();" % (i, j), "pub unsafe fn jk_e%d_%d(va: ...);" % (i, j), "pub fn jk_e%d_%d(%s: u8);" % (i, j, draw(st.sampled_from(["a", "_", "r#type"])))])))
        return a + "%sextern %s{ %s }" % (draw(st.sampled_from(["", "", "unsafe "])), draw(st.sampled_from(["\"C\" ", "", "\"system\" ", "\"weird\" "])), "\n".join(its))
    if k == "selfref":
        return draw(st.sampled_from(["#[repr(C)] pub struct Jk%d { a: Jk%d }", "#[repr(C)] pub struct Jk%d { a: Option<Jk%d> }", "pub type Jk%d = Jk%d;", "pub type Jk%d = *const Jk%d;", "pub const JK%d: u8 = JK%d;", "#[repr(C)] pub struct Jk%d<T> { a: *const Jk%d<T> }",
                                     "pub type Jk%d<T> = Jk%d<T>;", "#[repr(C)] pub union Jk%d { a: Jk%d }", "#[repr(u8)] pub enum Jk%d { A(Jk%d) }",
                                     "#[repr(transparent)] pub struct Jk%d(Jk%d);", "#[repr(transparent)] pub struct Jk%d<T>(*const Jk%d<T>);"])) % (i, i) + "\n#[no_mangle] pub extern \"C\" fn jk_s%d(a: *const %s) {}" % (i, draw(st.sampled_from(["Jk%d" % i, "Jk%d<u8>" % i])))
    if k == "genuse":
        return "#[no_mangle] pub extern \"C\" fn jk_g%d(a: *const Jk%d%s, b: Jk%d%s) {}" % (i, draw(st.integers(1, max(1, i))), draw(st.sampled_from(["", "<u8>", "<u8, u8>", "<3>", "<'static>", "<u8, 4>", "<*const u8>", "<Option<u8>>", "<[u8; 2]>", "<fn(u8)>", "<-1>", "<true>", "<{ N }>", "<Jk1>"])),
                                                                                             draw(st.integers(1, max(1, i))), draw(st.sampled_from(["", "<u8>", "<f32>", "<u8, u16>", "<2>"])))
    return draw(st.sampled_from(["const _: () = { struct X; };", "trait Jk%d = Clone + Send;" % i, "type Jk%d;" % i if False else "const _: u8 = 1;", "pub extern \"C\" fn jk_nomangle%d() {}" % i, "fn main() {}", "static JK%d: u8 = 0;" % i, "pub static JK%d: &[&str] = &[\"a\"];" % i,
                                 "#[panic_handler] fn jk_p%d(_: &PanicInfo) -> ! { loop {} }" % i, "#[no_mangle] pub extern \"C\" fn jk_cl%d(f: impl Fn(u8)) {}" % i, ";" if False else "struct Jk%d;" % i]))
