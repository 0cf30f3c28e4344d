"""C12: histories of source/config/output edits and runs: write-if-changed, verify, failure atomicity."""
import os, shutil
from hypothesis import strategies as st
import cc, vp

PROP = "C12"
HELPER = True
N = {"quick": 4000, "thorough": 80000}
RULE = ("case = a history of 4-14 operations over a scratch directory: edit the source (valid variants, syntax errors, missing file), edit the configuration (valid, invalid), tamper with "
        "the output (delete, truncate, append, replace, white-space change, line endings), run (-o, --verify, stdout, with depfile/symfile, Builder::write_to_file, recursive run under "
        "_CBINDGEN_IS_RUNNING); before every run the output gets a fixed old mtime, afterwards contents, mtime, inode, exit status and reported change are compared with the model; "
        "non-trivial = at least one run that must not touch the file and one that must change it")
ASSUMPTIONS = ["a rewrite is visible as a changed mtime (the file is given an mtime in the past before each run)"]
B = st.booleans()

# sources: what they declare is irrelevant here, that they give different headers matters
FN = ['#[no_mangle] pub extern "C" fn f%d(a: u32) {}', '#[repr(C)] pub struct S%d { x: u8 } #[no_mangle] pub extern "C" fn g%d(s: S%d) {}', "pub const K%d: i32 = 5;",
      "/// doc\n#[no_mangle] pub static ST%d: u8 = 0;", '#[repr(u8)] pub enum E%d { A, B } #[no_mangle] pub extern "C" fn h%d(e: E%d) {}', "// nothing %d", "fn private%d() {}"]
BADSRC = ["fn {", "pub struct S { x: }", "#[no_mangle] pub extern \"C\" fn f(a: u32 {}", "}", "\"unterminated", "mod a { fn x( }", "#![cfg(", "pub const A: i32 = ;"]
CFGS = [{}, {"language": "C"}, {"language": "C", "cpp_compat": True}, {"language": "Cython"}, {"line_endings": "CRLF"}, {"header": "/* h */", "include_guard": "G"},
        {"language": "C", "include_version": True}, {"namespace": "n"}, {"no_includes": True}, {"trailer": "/* no newline at the end */"}, {"header": "// \u00fc\u4e2d"}]
BADCFG = ["language = ", "language = \"Pascal\"\n", "no_such_key = 1\n", "tab_width = \"x\"\n", "[fn]\nargs = 3\n", "[[[", "include_guard = [1]\n"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["src", "src", "cfg", "tamper", "tamper", "run", "run", "run", "run", "verify", "verify", "api", "api", "noop", "stdout", "bad", "badcfg", "nosrc"]))
    if k == "src":
        return ["src", draw(st.lists(st.integers(0, len(FN) - 1), max_size=4))]
    if k == "bad":
        return ["bad", draw(st.integers(0, len(BADSRC) - 1)), draw(B)]
    if k == "cfg":
        return ["cfg", draw(st.integers(0, len(CFGS) - 1))]
    if k == "badcfg":
        return ["badcfg", draw(st.integers(0, len(BADCFG) - 1))]
    if k == "tamper":
        return ["tamper", draw(st.sampled_from(["delete", "truncate", "empty", "append", "prepend", "space", "crlf", "garbage", "flip", "swapcase", "doubled", "nonutf8", "deletedir"]))]
    if k in ("run", "verify"):
        return [k, draw(st.sampled_from(["", "", "dep", "sym", "depsym"]))]
    return [k]


@st.composite
def cases(draw):
    ops = draw(st.lists(op(), min_size=4, max_size=14))
    return {"ops": ops, "out": draw(st.sampled_from(["out.h", "out.h", "sub/dir/out.h", "a b/ou t.h", "no_ext"])), "src0": draw(st.lists(st.integers(0, len(FN) - 1), min_size=1, max_size=3)),
            "cfg0": draw(st.integers(0, len(CFGS) - 1)), "abs": draw(B), "autoconf": draw(st.integers(0, 3)) == 0}


OLD = 1_000_000_000_000_000_000  # ns


def snap(path):
    try:
        s = os.stat(path)
    except FileNotFoundError:
        return None
    with open(path, "rb") as f:
        return (f.read(), s.st_mtime_ns, s.st_ino)


def check(case, ctx):
    d = ctx.fresh()
    out = os.path.join(d, case["out"]) if case["abs"] else case["out"]
    outp = os.path.join(d, case["out"])
    srcp, cfgp = os.path.join(d, "lib.rs"), os.path.join(d, "cbindgen.toml" if case["autoconf"] else "conf.toml")
    cfgargs = [] if case["autoconf"] else ["-c", "conf.toml"]
    log = []
    state = {"src": None, "cfg": None, "ok": True}

    def put_src(l):
        state["src"] = "\n".join(FN[k].replace("%d", str(i)) for i, k in enumerate(l)) + "\n"
        vp.write(srcp, state["src"])

    def put_cfg(i):
        state["cfg"] = cc.toml(CFGS[i])
        vp.write(cfgp, state["cfg"])
    put_src(case["src0"])
    put_cfg(case["cfg0"])
    srcok, cfgok = True, True
    cache = {}

    def fail(msg):
        raise vp.Violation("%s\n--- history\n%s\n--- output option %s\n--- source\n%s\n--- config\n%s" % (msg, "\n".join(log), out, state["src"], state["cfg"]))

    def expected():
        k = (state["src"], state["cfg"])
        if k not in cache:
            p = ctx.bindgen(d, ["-q"] + cfgargs + ["lib.rs"])
            if p.returncode != 0:
                fail("printing to stdout failed with exit %d: %s" % (p.returncode, p.stderr))
            # capture bytes exactly
            import subprocess
            cache[k] = subprocess.run([ctx.cbindgen, "-q"] + cfgargs + ["lib.rs"], cwd=d, env=vp.ENV, capture_output=True).stdout
        return cache[k]

    untouched = changed = 0
    for o in case["ops"]:
        log.append(str(o))
        k = o[0]
        if k == "src":
            put_src(o[1]); srcok = True
        elif k == "bad":
            t = BADSRC[o[1]]
            state["src"] = (state["src"] or "") + t if o[2] else t
            vp.write(srcp, state["src"]); srcok = False
        elif k == "nosrc":
            if os.path.exists(srcp):
                os.remove(srcp)
            srcok = False; state["src"] = None
        elif k == "cfg":
            put_cfg(o[1]); cfgok = True
        elif k == "badcfg":
            state["cfg"] = BADCFG[o[1]]
            vp.write(cfgp, state["cfg"]); cfgok = False
        elif k == "tamper":
            cur = snap(outp)
            if o[1] == "deletedir":
                if os.path.dirname(case["out"]):
                    shutil.rmtree(os.path.join(d, case["out"].split("/")[0]), ignore_errors=True)
                continue
            if cur is None:
                continue
            b = cur[0]
            if o[1] == "delete":
                os.remove(outp)
                continue
            nb = {"truncate": b[:len(b) // 2], "empty": b"", "append": b + b"x", "prepend": b"\n" + b, "space": b.replace(b" ", b"  ", 1), "crlf": b.replace(b"\n", b"\r\n"),
                  "garbage": b"garbage", "flip": b[:-1] + bytes([b[-1] ^ 1]) if b else b, "swapcase": b.swapcase(), "doubled": b + b, "nonutf8": b + b"\xff\xfe"}[o[1]]
            with open(outp, "wb") as f:
                f.write(nb)
        else:
            before = snap(outp)
            if before:
                os.utime(outp, ns=(OLD, OLD))
                before = snap(outp)
            ok = srcok and cfgok
            if k == "stdout":
                p = ctx.bindgen(d, ["-q"] + cfgargs + ["lib.rs"])
                if snap(outp) != before:
                    fail("a run printing to stdout modified the output file")
                if (p.returncode == 0) != ok:
                    fail("printing to stdout exits %d on %s input" % (p.returncode, "good" if ok else "bad"))
                continue
            if k == "noop":
                env = dict(vp.ENV, _CBINDGEN_IS_RUNNING="1")
                p = ctx.bindgen(d, ["-q"] + cfgargs + ["-o", out, "lib.rs"], env=env)
                if snap(outp) != before:
                    fail("a recursive run (_CBINDGEN_IS_RUNNING) wrote the output")
                continue
            if k == "api":
                req = {"src": ["lib.rs"], "out": out}
                req.update({"root": "."} if case["autoconf"] else {"config": "conf.toml"})
                p = ctx.helper(d, req)
                rc = p.returncode
            else:
                args = ["-q"] + cfgargs + ["-o", out]
                if k == "verify":
                    args.append("--verify")
                if "dep" in o[1]:
                    args += ["--depfile", "o.d"]
                if "sym" in o[1]:
                    args += ["--symfile", "o.sym"]
                p = ctx.bindgen(d, args + ["lib.rs"])
                rc = p.returncode
            after = snap(outp)
            ctx.evaluated()
            ctx.label("op:" + k)
            if not ok:
                if rc == 0:
                    fail("%s succeeded on invalid input" % k)
                if k == "verify" and rc == 2:
                    fail("--verify reports changed bindings (exit 2) on invalid input")
                if after != before:
                    fail("a failed run %s the output file" % ("created" if before is None else "modified"))
                untouched += before is not None
                continue
            exp = expected()
            if after is None or after[0] != exp:
                fail("after %s the output differs from what is printed to stdout" % k)
            same = before is not None and before[0] == exp
            if same and (after[1] != OLD or after[2] != before[2]):
                fail("%s rewrote an output that was already up to date" % k)
            if k == "run" and rc != 0:
                fail("run exits with %d: %s" % (rc, p.stderr))
            if k == "verify" and rc != (0 if same else 2):
                fail("--verify exits with %d although the file was %s" % (rc, "up to date" if same else "absent" if before is None else "different"))
            if k == "api":
                if rc != 0 or p.stdout.strip() != "changed=%s" % ("false" if same else "true"):
                    fail("write_to_file reported %r (exit %d), the file was %s" % (p.stdout.strip(), rc, "up to date" if same else "not up to date"))
            untouched += same
            changed += not same
    ctx.nontrivial(untouched > 0 and changed > 0)


def strategy(tier):
    return cases()
