"""C14: no panic; unsupported input is skipped without side effects on the rest; invalid input is rejected cleanly."""
import glob, os, random, re
from hypothesis import strategies as st
import cc, vp, hdr, rs, gen, cfgs, junk

PROP = "C14"
N = {"quick": 9000, "thorough": 400000}
RULE = ("parts: wild = 1-6 syntactically valid items of any kind (generics, traits, async, dyn, weird attributes, malformed annotations, odd constants, bitflags, self references ...) x any "
        "valid configuration over every key; isolation = a supported program with such items spliced in: every declaration of the supported program must be there unchanged; corpus = items of the "
        "repository's own test inputs spliced together and token-mutated; config = TOML mutations over a program with every item kind; invalid = a program with a syntax error, invalid UTF-8 or a missing file in the root file, a submodule or a crate: must be rejected, nothing printed, an existing output untouched. Oracle: exit status 0 or 1 only, no panic message or signal, exit 0 writes the output, exit 1 prints an "
        "error and leaves no output; syntactically valid input with valid configuration must be exit 0. non-trivial = accepted by syn and at least 2 items (config: the text differs from a valid one)")
ASSUMPTIONS = ["syn decides whether a file is syntactically valid Rust", "a run that exceeds 20 s of CPU time counts as non-terminating"]
B = st.booleans()
CPU = 20


def run(ctx, d, args):
    return vp.run([ctx.cbindgen] + args, cwd=d, timeout=110, cpu=CPU)


def judge(p, out, src, cfgtext, must=None):
    """common oracle -> True when translated, False when rejected"""
    def fail(m):
        if os.environ.get("VP_COLLECT"):      # development: gather failures instead of stopping at the first
            loc = (re.findall(r"panicked at ([^\n]*)", p.stderr) or [m])[0]
            with open(os.environ["VP_COLLECT"], "a") as f:
                f.write(repr((loc, src, cfgtext, p.stderr[-600:])) + "\n")
            raise vp.Discard("collected")
        raise vp.Violation("%s\n--- exit %d, stderr\n%s\n--- config\n%s\n--- source\n%s" % (m, p.returncode, p.stderr[-2500:], cfgtext, src))
    if p.returncode < 0:
        fail("cbindgen died by signal %d%s" % (-p.returncode, " (CPU time limit)" if p.returncode in (-24, -9) else ""))
    if "panicked at" in p.stderr:
        fail("cbindgen panicked")
    if p.returncode not in (0, 1):
        fail("unexpected exit status")
    if p.returncode == 1:
        if "ERROR" not in p.stderr:
            fail("rejected without an error message")
        if os.path.exists(out):
            fail("rejected, but an output file was written")
        if must is True:
            fail("valid input rejected")
        return False
    if not os.path.exists(out):
        fail("exit status 0, but no output file")
    if must is False:
        fail("invalid input accepted")
    return True


SYNTAX = re.compile(r"ERROR: Parsing crate `[^`]*`:`[^`]*`:\nError\(")


@st.composite
def wild_cases(draw):
    n = [0]
    items = [draw(junk.item(n, ())) for _ in range(draw(st.integers(1, 6)))]
    names = ["Jk%d" % i for i in range(1, n[0] + 1)] + ["jk_f1"]
    return {"items": items, "cfg": draw(cfgs.anyconfig(names))}


def wild_check(case, ctx):
    d = ctx.fresh()
    src = "\n".join(case["items"]) + "\n"
    vp.write(os.path.join(d, "lib.rs"), src)
    t = cc.toml(case["cfg"])
    vp.write(os.path.join(d, "c.toml"), t)
    p = run(ctx, d, ["-q", "-c", "c.toml", "-o", "o.h", "lib.rs"])
    ok = judge(p, os.path.join(d, "o.h"), src, t)
    if not ok:
        if SYNTAX.search(p.stderr):
            if os.environ.get("VP_DEBUG"):
                print(p.stderr[:300], src)
            raise vp.Discard("not valid syntax for syn")
        raise vp.Violation("valid input rejected\n%s\n%s\n%s" % (p.stderr, t, src))
    ctx.label("wild:" + case["cfg"].get("language", "C++"))
    ctx.nontrivial(len(case["items"]) >= 2)


@st.composite
def iso_cases(draw):
    prog = draw(gen.program(drop=("box", "wrap"), max_items=4, max_fns=2))
    names = [i["name"] for i in prog["items"] if i["k"] in ("struct", "union", "enum", "opaque", "type")][:3]
    n = [0]
    js = [[draw(st.integers(0, 6)), draw(junk.item(n, names if draw(st.integers(0, 3)) == 0 else ()))] for _ in range(draw(st.integers(1, 4)))]
    return {"prog": prog, "junk": js, "lang": draw(st.sampled_from(["C", "C", "C++", "Cython"])), "style": draw(st.sampled_from(["both", "tag", "type"]))}


def iso_check(case, ctx):
    d = ctx.fresh()
    cfg = {"language": case["lang"], "documentation": False}
    if case["lang"] == "C":
        cfg["style"] = case["style"]
    t = cc.toml(cfg)
    items = case["prog"]["items"]
    src = rs.rust_program(items)
    base = cc.bindgen(ctx, d, src, cfg, out="base.h")
    # splice the unsupported items between the supported ones
    parts = ["mod vp_head {}"] + [rs.rust_item(i) for i in items] if hasattr(rs, "rust_item") else None
    chunks = re.split(r"\n(?=(?:#\[|pub |extern ))", src)
    # keep attributes together with their item: only split before lines starting an attribute/item that follow a closed item
    good = [chunks[0]]
    for c in chunks[1:]:
        if good[-1].rstrip().endswith(("}", ";")):
            good.append(c)
        else:
            good[-1] += "\n" + c
    for pos, j in case["junk"]:
        good.insert(1 + pos % len(good), j)
    src2 = "\n".join(good)
    vp.write(os.path.join(d, "lib2.rs"), src2)
    p = run(ctx, d, ["-q", "-c", "base.h.toml", "-o", "o.h", "lib2.rs"])
    ok = judge(p, os.path.join(d, "o.h"), src2, t)
    if not ok:
        if SYNTAX.search(p.stderr):
            raise vp.Discard("not valid syntax for syn")
        raise vp.Violation("valid input rejected\n%s\n%s\n%s" % (p.stderr, t, src2))
    h = vp.read(os.path.join(d, "o.h"))
    if case["lang"] == "Cython":
        blocks = lambda x: [b.rstrip() for b in re.split(r"\n\s*\n", x)]
        missing = [b for b in blocks(base) if b.strip() and "extern from" not in b and b not in set(blocks(h))]
    else:
        key = lambda x: (x["kind"], x["name"], tuple(x["toks"]), tuple(x["conds"]))
        have = {}
        for x in hdr.decls(h):
            have[key(x)] = have.get(key(x), 0) + 1
        missing = [x for x in hdr.decls(base) if not have.get(key(x)) and x["kind"] != "include"]
    if missing:
        cc.fail("unsupported items change other declarations; missing now: %s" % missing[:3], src2, cfg, base, h)
    ctx.label("iso:" + case["lang"])
    ctx.nontrivial(True)


# ----------------------------------------------------------------- corpus
_CORP = None


def corpus():
    global _CORP
    if _CORP is None:
        _CORP = []
        for f in sorted(glob.glob(os.path.join(vp.REPO, "tests/rust/*.rs"))):
            t = vp.read(f)
            its = [x for x in re.split(r"\n\s*\n", t) if x.strip()]
            if not its:
                continue
            _CORP.append((os.path.basename(f), t, its, f[:-3] + ".toml"))
    return _CORP


TOKRE = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|\w+|\s+|[^\w\s]", re.S)
INSERT = ["pub", "&", "*const", "<", ">", "{", "}", "(", ")", "[", "]", ";", ",", "#[repr(C)]", "u8", "Self", "'a", "::", "=", "-1", "fn", "mut", "Option<", "extern \"C\"", "<T>", "dyn", "/// cbindgen:", "..", "!", "r#", "cfg", "\"", "'"]


@st.composite
def corp_cases(draw):
    nf = len(corpus())
    picks = draw(st.lists(st.tuples(st.integers(0, nf - 1), st.integers(0, 9999)), min_size=1, max_size=5))
    muts = draw(st.lists(st.tuples(st.sampled_from(["del", "dup", "swap", "ins", "rep", "cut"]), st.integers(0, 99999), st.integers(0, 9999)), max_size=4))
    return {"picks": [list(p) for p in picks], "muts": [list(m) for m in muts], "whole": draw(st.integers(0, 3)) == 0, "cfgof": draw(st.sampled_from([None, 0, 1])), "lang": draw(st.sampled_from(["C", "C++", "Cython"]))}


def corp_source(case):
    c = corpus()
    if case["whole"]:
        txt = c[case["picks"][0][0]][1]
    else:
        its = []
        for f, i in case["picks"]:
            l = c[f][2]
            its += l[i % len(l):i % len(l) + 1 + i % 3]
        txt = "\n".join(its) + "\n"
    toks = TOKRE.findall(txt)
    for k, a, b in case["muts"]:
        if not toks:
            break
        i = a % len(toks)
        j = b % len(toks)
        if k == "del":
            del toks[i]
        elif k == "dup":
            toks.insert(i, toks[i])
        elif k == "swap":
            toks[i], toks[j] = toks[j], toks[i]
        elif k == "ins":
            toks.insert(i, INSERT[b % len(INSERT)])
        elif k == "rep":
            toks[i] = INSERT[b % len(INSERT)]
        else:
            toks = toks[:i]
    return "".join(toks)


def corp_check(case, ctx):
    d = ctx.fresh()
    src = corp_source(case)
    if re.search(r"^\s*(pub )?mod \w+;", src, re.M) and "path" in src:
        raise vp.Discard("names other files")
    vp.write(os.path.join(d, "lib.rs"), src)
    args = ["-q", "--lang", case["lang"], "-o", "o.h"]
    t = ""
    if case["cfgof"] is not None:
        f = corpus()[case["picks"][case["cfgof"] % len(case["picks"])][0]][3]
        if os.path.exists(f):
            t = vp.read(f)
            vp.write(os.path.join(d, "c.toml"), t)
            args += ["-c", "c.toml"]
    p = run(ctx, d, args + ["lib.rs"])
    ok = judge(p, os.path.join(d, "o.h"), src, t + "\nlanguage " + case["lang"])
    if not ok and not SYNTAX.search(p.stderr):
        raise vp.Violation("valid input rejected\n%s\n%s\n%s" % (p.stderr, t, src))
    ctx.label("corpus:" + ("accepted" if ok else "rejected"))
    ctx.nontrivial(ok)


# ----------------------------------------------------------------- config
KEYS = ["language", "tab_width", "header", "includes", "namespace", "namespaces", "style", "cpp_compat", "usize_is_size_t", "sort_by", "braces", "line_length", "documentation", "documentation_style", "line_endings", "pragma_once"]
BADV = ["5", "-1", "1.5", "true", "[]", "[1]", "{}", "\"nope\"", "\"\"", "1979-05-27", "[\"a\"]", "{ a = 1 }", "99999999999999999999", "0", "\"C\"", "nan"]


CONF_SRC = """//! doc
/// A struct. More.
#[repr(C)] pub struct Foo { a: u32, #[deprecated(note = "n")] f: Option<extern "C" fn(x: u32) -> u32>, p: *const Foo }
/// cbindgen:prefix-with-name
#[repr(u8)] pub enum Plain { A = 1, #[deprecated] B }
#[repr(C)] #[must_use] pub enum Tag<T> { U, One(T), Two { x: u8, y: T } }
#[repr(C)] pub union Un { a: u8, b: f32 }
#[repr(transparent)] pub struct Tr(u8);
pub struct Opaque;
pub type Al = Tag<u16>;
pub const K: u32 = 5 << 2;
pub const KF: Foo2 = Foo2 { a: 1 };
#[repr(C)] pub struct Foo2 { a: i64 }
impl Foo2 { pub const ASSOC: i64 = -1; }
#[no_mangle] pub static mut ST: [u8; 4] = [0; 4];
bitflags! { #[repr(C)] pub struct Fl: u8 { const A = 1; } }
#[cfg(unix)] #[no_mangle] pub extern "C" fn g(a: Al, b: Plain, c: Un, d: Tr, long_argument_name_number_one: u32, long_argument_name_number_two: u32, long_argument_name_number_three: u32) -> ! { loop {} }
#[no_mangle] #[deprecated(note = "x")] pub extern "C" fn f(a: *const Opaque, b: Fl, c: Foo, d: Foo2) {}
"""


@st.composite
def conf_cases(draw):
    base = draw(cfgs.anyconfig(("Foo",), 6))
    muts = draw(st.lists(st.tuples(st.sampled_from(["key", "value", "del", "dup", "ins", "sect", "trunc", "unknown", "badsect"]), st.integers(0, 9999), st.integers(0, 9999)), min_size=0, max_size=3))
    return {"cfg": base, "muts": [list(m) for m in muts], "auto": draw(B), "bytes": draw(st.integers(0, 15)) == 0, "missing": draw(st.integers(0, 31)) == 0}


def conf_check(case, ctx):
    d = ctx.fresh()
    t = cc.toml(case["cfg"])
    must = True if not case["muts"] else None
    for k, a, b in case["muts"]:
        lines = t.split("\n")
        i = a % len(lines)
        if k == "key":
            lines.insert(0, "%s = %s" % (KEYS[a % len(KEYS)], BADV[b % len(BADV)]))
        elif k == "value" and "=" in lines[i]:
            lines[i] = lines[i].split("=")[0] + "= " + BADV[b % len(BADV)]
        elif k == "del":
            t = t[:a % (len(t) + 1)] + t[a % (len(t) + 1) + 1:]
            continue
        elif k == "dup":
            lines.insert(i, lines[i])
        elif k == "ins":
            x = a % (len(t) + 1)
            t = t[:x] + "=[]{}\"'#\n.,\\"[b % 12] + t[x:]
            continue
        elif k == "sect":
            lines.insert(i, "[%s]" % ["fn", "export", "struct", "x", "export.rename", "a.b", "", "parse.expand", "defines"][b % 9])
        elif k == "trunc":
            t = t[:a % (len(t) + 1)]
            continue
        elif k == "unknown":
            lines.insert(0, "no_such_key_%d = 1" % b)
            must = False if len(case["muts"]) == 1 else None
        elif k == "badsect":
            lines.append("[no_such_section_%d]\nx = 1" % b)
            must = False if len(case["muts"]) == 1 else None
        t = "\n".join(lines)
    src = CONF_SRC
    vp.write(os.path.join(d, "lib.rs"), src)
    cname = "cbindgen.toml" if case["auto"] else "c.toml"
    if not case["missing"]:
        with open(os.path.join(d, cname), "wb") as f:
            f.write(t.encode() + (b"\xff\xfe" if case["bytes"] else b""))
        if case["bytes"]:
            must = False
    else:
        must = True if case["auto"] else False
    p = run(ctx, d, ["-q"] + ([] if case["auto"] else ["-c", cname]) + ["-o", "o.h", "lib.rs"])
    # tab_width = 0 and the like are the user's choice: they still must not panic
    ok = judge(p, os.path.join(d, "o.h"), src, t, must)
    if not ok and must is None and "config" not in p.stderr:
        raise vp.Violation("rejected for another reason than the configuration\n%s\n%s" % (p.stderr, t))
    ctx.label("config:" + ("accepted" if ok else "rejected"))
    ctx.nontrivial(bool(case["muts"]))


# ----------------------------------------------------------------- invalid
BROKEN = ["}", "{", ")", "fn", "pub struct", "pub struct X {", "let x = 1;", "1 + 2;", "struct 5;", "enum E { A = }", "fn f(a) {}", "const A: = 1;", "\"unterminated", "/* unterminated", "'", "impl {", "#[x", "@", "pub pub fn f() {}",
          "type A = ;", "use ;", "extern fn ;", "struct S { a u8 }", "fn f() -> { }", "static: u8 = 1;", "mod;", "r#\"x", "0x", "`", "struct S<T { a: T }", "match", "fn f(self x) {}", "\\"]


@st.composite
def inv_cases(draw):
    prog = draw(gen.program(drop=("box", "wrap"), max_items=3, max_fns=2))
    return {"prog": prog, "how": draw(st.sampled_from(["main", "main", "sub", "sub", "subsub", "inline", "utf8", "subutf8", "missing", "dir", "crate"])), "bad": draw(st.sampled_from(BROKEN)), "front": draw(B), "lang": draw(st.sampled_from(["C", "C++", "Cython"])),
            "out": draw(st.sampled_from(["fresh", "existing", "stdout"])), "verify": draw(st.integers(0, 3)) == 0}


def inv_check(case, ctx):
    d = ctx.fresh()
    src = rs.rust_program(case["prog"]["items"])
    bad = case["bad"] + "\n" + src if case["front"] else src + "\n" + case["bad"] + "\n"
    how, files = case["how"], {}
    inp = "lib.rs"
    if how == "main":
        files = {"lib.rs": bad}
    elif how == "sub":
        files = {"lib.rs": src + "\nmod sub;\n", "sub.rs": bad}
    elif how == "subsub":
        files = {"lib.rs": src + "\nmod sub;\n", "sub/mod.rs": "pub mod deep;\n", "sub/deep.rs": bad}
    elif how == "inline":
        files = {"lib.rs": src + "\nmod outer { pub mod deep; }\n", "outer/deep.rs": bad}
    elif how == "utf8":
        files = {"lib.rs": src.encode() + b"// \xff\n"}
    elif how == "subutf8":
        files = {"lib.rs": src + "\nmod sub;\n", "sub.rs": src.encode() + b"// \xc3\n"}
    elif how == "dir":
        files = {"lib.rs/x": ""}
    elif how == "crate":
        files = {"Cargo.toml": "[package]\nname = \"vp\"\nversion = \"0.1.0\"\n[lib]\npath = \"lib.rs\"\n", "lib.rs": bad, "Cargo.lock": "version = 3\n[[package]]\nname = \"vp\"\nversion = \"0.1.0\"\n"}
        inp = "."
    for f, t in files.items():
        if isinstance(t, str):
            vp.write(os.path.join(d, f), t)
        else:
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(t)
    out = os.path.join(d, "o.h")
    if case["out"] == "existing":
        vp.write(out, "previous\n")
    args = ["--lang", case["lang"]] + ([] if case["out"] == "stdout" else ["-o", "o.h"]) + (["--verify"] if case["verify"] and case["out"] != "stdout" else [])
    p = run(ctx, d, ["-q"] + args + [inp])
    desc = "%s, %s" % (how, args)
    if p.stdout:
        raise vp.Violation("invalid input, but a header was printed\n%s\n%s" % (desc, bad))
    if case["out"] == "existing":
        if vp.read(out) != "previous\n":
            raise vp.Violation("invalid input, but the existing header was overwritten\n%s\n%s" % (desc, bad))
        os.unlink(out)
    judge(p, out, "[%s]\n%s" % (desc, bad), "", must=False)
    ctx.label("invalid:" + how)
    ctx.nontrivial(True)


def strategies(tier):
    return [("wild", wild_cases(), wild_check, 4), ("isolation", iso_cases(), iso_check, 2), ("corpus", corp_cases(), corp_check, 2), ("config", conf_cases(), conf_check, 2), ("invalid", inv_cases(), inv_check, 1)]
