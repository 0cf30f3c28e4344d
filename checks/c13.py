"""C13: module files resolved as rustc does; depfile = exactly the files read, acceptable to make."""
import os, re
from hypothesis import strategies as st
import cc, vp, hdr

PROP = "C13"
N = {"quick": 4000, "thorough": 60000}
RULE = ("case = a random tree of modules (inline, name.rs, name/mod.rs, #[path] to files and on inline modules, raw identifiers, cfg(test) modules) with decoy files at the other "
        "candidate places, in a directory with special characters, as single file or as crate, with explicit, discovered or no configuration file; rustc --emit=dep-info says which "
        "files belong to the crate: the header must contain exactly the functions of these files, the depfile must list exactly these plus the configuration, once each, and GNU make "
        "must rebuild the header after a touch of exactly these files; non-trivial = at least 3 files read")
ASSUMPTIONS = ["rustc's dep-info is the reference for which files a crate consists of", "GNU make is the reference reader of depfiles"]
B = st.booleans()
IDENTS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam", "mu", "nu", "r#type", "r#match", "r#loop", "mod_x", "lib2", "main", "xi", "omi", "pi"]
SPECIAL = ["", "", "", " ", "  x", "#", "$", "$$", "$(x)", "\\", "\\ ", "\u00fc", "'", "&", "-", "\\#"]


@st.composite
def node(draw, pool, depth, infile):
    out = []
    for _ in range(draw(st.integers(0 if depth < 3 else 1, 3 if depth == 3 else 2))):
        if not pool or depth == 0:
            break
        name = pool.pop(draw(st.integers(0, len(pool) - 1)))
        k = draw(st.sampled_from(["inline", "inline", "rs", "rs", "mod", "path", "path", "inlinepath", "test"]))
        c = {"k": k, "name": name, "pub": draw(B)}
        if k in ("path", "inlinepath"):
            c["dir"] = draw(st.sampled_from(["", "", "p_", "p_/q_", "./", "../up_" if k == "path" else "in_", ".."if k == "path" else "in_/deep"]))
            c["file"] = draw(st.sampled_from(["rs", "rs", "inc", "mod", "plain"]))
            c["sp"] = draw(st.sampled_from(SPECIAL))
            c["attr"] = draw(st.integers(0, 2))
        c["decoy"] = draw(st.integers(0, 3))
        c["ch"] = draw(node(pool, depth - 1, k)) if k != "test" else []
        out.append(c)
    return out


@st.composite
def cases(draw):
    pool = list(IDENTS)
    t = draw(node(pool, 3, "root"))
    return {"tree": t, "dirsp": draw(st.sampled_from(SPECIAL)), "mode": draw(st.sampled_from(["file"] * 6 + ["crate", "crate"])), "conf": draw(st.sampled_from(["explicit", "auto", "none", "explicit-sp"])),
            "root": draw(st.sampled_from(["lib.rs", "main.rs", "other.rs", "mod.rs"])), "sub": draw(B), "outsp": draw(st.sampled_from(SPECIAL)), "depdir": draw(B), "abs": draw(B)}


class Builder:
    def __init__(self):
        self.files = {}          # relative path -> text
        self.decoys = {}
        self.dirs = set()
        self.owner = {}          # function -> file
        self.n = 0

    def fn(self, f, tag):
        self.n += 1
        name = "%s_%d" % (tag, self.n)
        self.owner[name] = f
        return '#[no_mangle] pub extern "C" fn %s() {}\n' % name

    def body(self, children, cur, d, rel, ind=""):
        out = self.fn(cur, "fn")
        for c in children:
            nm = c["name"]
            plain = nm.replace("r#", "")
            base = os.path.join(d, rel) if rel else d
            vis = "pub " if c["pub"] else ""
            k = c["k"]
            if k == "test":
                out += "#[cfg(test)] %smod %s;\n" % (vis, nm)
                if c["decoy"]:
                    self.decoy(os.path.join(base, plain + ".rs"))
                continue
            if k == "inline":
                out += "%smod %s {\n%s}\n" % (vis, nm, self.body(c["ch"], cur, os.path.join(base, plain), None))
                continue
            if k == "inlinepath":
                p = os.path.join(c["dir"], "ip%s_%s" % (c["sp"], plain))
                out += "%s%smod %s {\n%s}\n" % (self.attr(p, c["attr"]), vis, nm, self.body(c["ch"], cur, os.path.join(d, p), None))
                continue
            if k == "rs":
                f = os.path.join(base, plain + ".rs")
                out += "%smod %s;\n" % (vis, nm)
                if c["decoy"] & 1 and base != d:
                    self.decoy(os.path.join(d, plain + ".rs"))
                    self.decoy(os.path.join(d, plain, "mod.rs"))
                if c["decoy"] & 2:
                    self.decoy(os.path.join(base, plain, "lib.rs"))
                self.put(f, c["ch"], base, plain)
            elif k == "mod":
                f = os.path.join(base, plain, "mod.rs")
                out += "%smod %s;\n" % (vis, nm)
                if c["decoy"] & 1 and base != d:
                    self.decoy(os.path.join(d, plain + ".rs"))
                if c["decoy"] & 2:
                    self.decoy(os.path.join(base, plain, plain + ".rs"))
                self.put(f, c["ch"], os.path.join(base, plain), None)
            else:
                fnm = {"rs": "pf%s_%s.rs", "inc": "pf%s_%s.inc", "mod": "pd%s_%s/mod.rs", "plain": "pf%s_%s"}[c["file"]] % (c["sp"], plain)
                p = os.path.join(c["dir"], fnm)
                f = os.path.join(d, p)
                self.dirs.add(d)
                out += "%s%smod %s;\n" % (self.attr(p, c["attr"]), vis, nm)
                if c["decoy"] & 1:
                    self.decoy(os.path.join(base, plain + ".rs"))
                if c["decoy"] & 2:
                    self.decoy(os.path.join(base, plain, "mod.rs"))
                    if base != d:
                        self.decoy(os.path.join(base, p))
                self.put(f, c["ch"], os.path.dirname(f), None)
        return out

    def attr(self, p, form):
        q = '"%s"' % p.replace("\\", "\\\\").replace('"', '\\"') if form < 2 else 'r#"%s"#' % p
        a = "#[path = %s]\n" % q
        return "#[allow(dead_code)]\n" + a + "#[doc(hidden)]\n" if form == 1 else a

    def put(self, f, children, d, rel):
        f = os.path.normpath(f) if ".." not in f else f
        self.files[f] = None
        self.files[f] = self.body(children, f, d, rel)

    def decoy(self, f):
        self.decoys[f] = self.fn("decoy:" + f, "decoy")


def unesc_rustc(s):
    return s.replace("\\ ", " ")


def make_parse(text):
    """GNU make's reading of 'target: prereqs' (one rule, continuations): -> (targets, prereqs)"""
    text = re.sub(r"\\\n[ \t]*", " ", text)
    lines = [l for l in text.split("\n") if l.strip()]
    if len(lines) != 1:
        raise ValueError("%d rules" % len(lines))
    l = lines[0]
    words, cur, i = [], "", 0
    tgt = None
    while i < len(l):
        m = re.match(r"(\\*)([ \t#])", l[i:])
        if m:
            nb = len(m.group(1))
            cur += "\\" * (nb // 2)
            i += len(m.group(0))
            if nb % 2:
                cur += m.group(2)
            elif m.group(2) == "#":
                raise ValueError("comment")
            else:
                if cur:
                    words.append(cur)
                cur = ""
            continue
        if l.startswith("$$", i):
            cur += "$"
            i += 2
            continue
        if l[i] == "$":
            raise ValueError("unescaped $")
        if l[i] == ":" and tgt is None and (i + 1 == len(l) or l[i + 1] in " \t"):
            words.append(cur)
            cur = ""
            tgt, words = words, []
            i += 1
            continue
        cur += l[i]
        i += 1
    if cur:
        words.append(cur)
    return tgt, words


def check(case, ctx):
    d0 = ctx.fresh()
    d = os.path.join(d0, "w" + case["dirsp"])
    root = ("src/" if case["sub"] or case["mode"] == "crate" else "") + case["root"]
    rdir = os.path.join(d, os.path.dirname(root))
    b = Builder()
    b.put(os.path.basename(root), case["tree"], "", None)
    real = lambda f: os.path.realpath(os.path.join(rdir, f))
    for x in b.dirs:
        os.makedirs(os.path.join(rdir, x), exist_ok=True)
    for f in b.files:
        os.makedirs(os.path.join(rdir, os.path.dirname(f)), exist_ok=True)
    seen = set()
    for f, t in b.files.items():
        if real(f) in seen:
            raise vp.Discard("two modules share a file")
        seen.add(real(f))
        vp.write(os.path.join(rdir, f), t)
    decoys = []
    for f, t in b.decoys.items():
        p = os.path.join(rdir, f)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            continue
        if not os.path.exists(p):
            vp.write(p, t)
            decoys.append(f)
    # reference
    p = vp.run([vp.rustc_path(), "--edition", "2021", "--crate-type=lib", "--crate-name=vpx", "-Awarnings", "--emit=dep-info=" + os.path.join(d0, "ref.d"), os.path.basename(root)], cwd=rdir)
    if p.returncode != 0:
        raise vp.Discard("rustc: " + (re.findall(r"error(?:\[E\d+\])?: .*", p.stderr) or ["?"])[0])
    ref = set()
    for l in vp.read(os.path.join(d0, "ref.d")).split("\n"):
        if l.endswith(":") and not l.startswith("#"):
            ref.add(os.path.realpath(os.path.join(rdir, unesc_rustc(l[:-1]))))
    want = {n for n, f in b.owner.items() if not f.startswith("decoy:") and real(f) in ref} | {n for n, f in b.owner.items() if f.startswith("decoy:") and real(f[6:]) in ref and f[6:] in decoys}
    # cbindgen
    conf = None
    args = ["-q"]
    cfg = 'language = "C"\n'
    if case["conf"].startswith("explicit"):
        conf = os.path.join(d, "cfg dir#1" if case["conf"] == "explicit-sp" else "", "conf.toml")
        args += ["-c", conf if case["abs"] else os.path.relpath(conf, d)]
    elif case["conf"] == "auto":
        conf = os.path.join(d if case["mode"] == "crate" else rdir, "cbindgen.toml")
    if conf:
        vp.write(conf, cfg)
    out = "o%s/x%s.h" % (case["outsp"], case["outsp"])
    dep = "deps/d/o.d" if case["depdir"] else "o.d"
    args += ["-o", os.path.join(d, out) if case["abs"] else out, "--depfile", dep]
    if case["mode"] == "crate":
        vp.write(os.path.join(d, "Cargo.toml"), '[package]\nname = "vpx"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "%s"\n[workspace]\n' % root)
        env = dict(vp.ENV, CARGO_TARGET_DIR=os.path.join(d0, "tgt"))
        p = ctx.bindgen(d, args, env=env)
    else:
        p = ctx.bindgen(d, args + [root])
    tree = "\n".join("== %s\n%s" % (f, t) for f, t in b.files.items()) + "\n== decoys: %s" % decoys

    def fail(m):
        raise vp.Violation("%s\n--- arguments %s in %s\n--- tree (root %s)\n%s\n--- rustc reads\n%s" % (m, args, d, root, tree, "\n".join(sorted(ref))))
    if p.returncode != 0:
        fail("cbindgen failed (exit %d): %s" % (p.returncode, p.stderr[-800:]))
    h = vp.read(os.path.join(d, out))
    got = set(re.findall(r"\b((?:fn|decoy)_\d+)\(", h))
    if got != want:
        fail("functions in the header: missing %s, unexpected %s" % (sorted((n, b.owner[n]) for n in want - got), sorted((n, b.owner[n]) for n in got - want)))
    if len(re.findall(r"\b((?:fn|decoy)_\d+)\(", h)) != len(got):
        fail("a function is declared twice\n" + h)
    text = vp.read(os.path.join(d, dep))
    exp = set(ref) | ({os.path.realpath(conf)} if conf else set())
    try:
        tg, pre = make_parse(text)
    except ValueError as e:
        fail("the depfile is not one well-formed rule (%s)\n%s" % (e, text))
    if tg != [os.path.realpath(os.path.join(d, out))]:
        fail("depfile target is %r\n%s" % (tg, text))
    if sorted(pre) != sorted(exp):
        fail("depfile prerequisites: missing %s, unexpected or repeated %s\n%s" % (sorted(exp - set(pre)), sorted(set(pre) - exp) or sorted(x for x in set(pre) if pre.count(x) > 1), text))
    # make as the judge
    if re.search(r"[~=]", case["dirsp"] + case["outsp"]) is None:
        mk = os.path.join(d0, "mk")
        with open(mk, "w") as f:
            f.write(text + "\t@echo REMAKE\n")
        outp = os.path.join(d, out)
        allf = sorted(exp | {real(x) for x in decoys})
        for f in allf:
            os.utime(f, (1000, 1000))
        os.utime(outp, (2000, 2000))
        probe = [None] + allf[:7]
        for f in probe:
            if f:
                os.utime(f, (3000, 3000))
            r = vp.run(["make", "-r", "-s", "-f", mk], cwd=d0)
            remade = "REMAKE" in r.stdout
            if r.returncode != 0:
                fail("make rejects the depfile: %s\n%s" % (r.stderr, text))
            if remade != (f in exp):
                fail("make %s the header after touching %s\n%s" % ("rebuilds" if remade else "does not rebuild", f, text))
            if f:
                os.utime(f, (1000, 1000))
            ctx.evaluated()
    ctx.label("mode:" + case["mode"], "conf:" + case["conf"], "files:%d" % min(8, len(ref)), "decoys:%d" % min(4, len(decoys)))

    def walk(l, inl):
        for c in l:
            ctx.label(("in-inline:" if inl else "") + c["k"])
            walk(c["ch"], c["k"].startswith("inline"))
    walk(case["tree"], False)
    ctx.nontrivial(len(ref) >= 3)


def strategy(tier):
    return cases()
