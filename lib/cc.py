"""Running cbindgen, rustc, gcc/g++ on cases."""
import json, os, re
import vp, rs
from vp import Violation, HarnessError, Discard


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join("%s = %s" % (json.dumps(k), toml_value(x)) for k, x in v.items()) + " }"
    raise ValueError(v)


def toml(cfg):
    """nested dict -> TOML text; sub-tables are dicts at the top level"""
    top = "".join("%s = %s\n" % (json.dumps(k), toml_value(v)) for k, v in cfg.items() if not isinstance(v, dict))

    def tables(prefix, d):
        out = ""
        for k, v in d.items():
            if isinstance(v, dict):
                name = prefix + [json.dumps(k)]
                out += "[%s]\n" % ".".join(name)
                out += "".join("%s = %s\n" % (json.dumps(k2), toml_value(v2)) for k2, v2 in v.items() if not isinstance(v2, dict))
                out += tables(name, v)
        return out
    return top + tables([], cfg)


def merge(a, b):
    r = {k: (dict(v) if isinstance(v, dict) else v) for k, v in a.items()}
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(r.get(k), dict):
            r[k] = merge(r[k], v)
        else:
            r[k] = v
    return r


def bindgen(ctx, d, src, cfg, out="out.h", extra=None, srcname="lib.rs", ok=True):
    """run cbindgen on a single file in directory d; returns header text"""
    if src is not None:
        vp.write(os.path.join(d, srcname), src)
    cname = out + ".toml"
    vp.write(os.path.join(d, cname), toml(cfg))
    p = ctx.bindgen(d, ["-q", "-c", cname, "-o", out, srcname] + (extra or []))
    if not ok:
        return p
    if p.returncode != 0 or not os.path.exists(os.path.join(d, out)):
        raise Violation("cbindgen failed (exit %d) on a valid program\n--- stderr\n%s\n--- config\n%s\n--- source\n%s" % (
            p.returncode, p.stderr[-3000:], toml(cfg), src))
    return vp.read(os.path.join(d, out))


WARN = ["-Werror=implicit-int", "-Werror=implicit-function-declaration"]


def compile_c(d, name, text, cxx=False, flags=(), what="probe"):
    ext = ".cpp" if cxx else ".c"
    vp.write(os.path.join(d, name + ext), text)
    cmd = (["g++", "-std=c++17", "-Wno-invalid-offsetof"] if cxx else ["gcc", "-std=gnu11"]) + ["-fsyntax-only", "-w", "-ftabstop=1"] + list(flags) + [name + ext]
    p = vp.run(cmd, cwd=d)
    return p


def cc_exe(d, name, text, cxx=False, flags=(), objs=()):
    ext = ".cpp" if cxx else ".c"
    vp.write(os.path.join(d, name + ext), text)
    cmd = (["g++", "-std=c++17", "-Wno-invalid-offsetof"] if cxx else ["gcc", "-std=gnu11"]) + ["-w", "-O0"] + list(flags) + ["-o", name, name + ext] + list(objs)
    return vp.run(cmd, cwd=d)


def rust_check(d, src, name="chk.rs", features=""):
    """does rustc accept the program (type check only)?"""
    vp.write(os.path.join(d, name), features + src)
    p = vp.run([vp.rustc_path(), "--edition", "2021", "--crate-type=lib", "--emit=metadata", "-Awarnings", "-o", name + ".rmeta", name], cwd=d)
    return p


def rust_run(d, src, name="probe", features="", edition="2021"):
    vp.write(os.path.join(d, name + ".rs"), features + src)
    p = vp.run([vp.rustc_path(), "--edition", edition, "-Awarnings", "-Cdebuginfo=0", "-Copt-level=0",
                "-Ccodegen-units=1", "-Clink-arg=-fuse-ld=lld", "--crate-name", name, "-o", name, name + ".rs"], cwd=d)
    if p.returncode != 0:
        p2 = vp.run([vp.rustc_path(), "--edition", edition, "-Awarnings", "--crate-name", name, "-o", name, name + ".rs"], cwd=d) if "linking" in p.stderr else p
        if p2.returncode != 0:
            if os.environ.get("VP_DEBUG"):
                print(p2.stderr[:3000])
            raise Discard("rustc rejects: " + (re.findall(r"error(?:\[E\d+\])?: .*", p2.stderr) or ["?"])[0])
    r = vp.run(["./" + name], cwd=d)
    if r.returncode != 0:
        raise HarnessError("rust probe failed: " + r.stderr[-500:])
    return r.stdout


def fail(msg, src=None, cfg=None, header=None, extra=None):
    t = msg
    if cfg is not None:
        t += "\n--- config\n" + toml(cfg)
    if src is not None:
        t += "\n--- source\n" + src
    if header is not None:
        t += "\n--- header\n" + header
    if extra:
        t += "\n--- details\n" + extra
    raise Violation(t)


def c_names(items, lang, style):
    """C spelling of each declared type"""
    names = {}
    for it in items:
        n = it["name"]
        if it["k"] not in ("struct", "union", "enum", "type", "opaque"):
            continue
        names[n] = n
        if lang == "c" and style == "tag":
            if it["k"] == "struct" and it.get("repr") != ["transparent"]:
                names[n] = "struct " + n
            elif it["k"] == "opaque":
                names[n] = "struct " + n
            elif it["k"] == "union":
                names[n] = "union " + n
            elif it["k"] == "enum":
                if it.get("tagged"):
                    names[n] = ("struct " if it["repr"][0] == "C" else "union ") + n
                elif it["repr"] == ["C"]:
                    names[n] = "enum " + n
    return names


LAYOUT = {"packed": "__attribute__((packed))", "aligned_n": "VP_ALIGNED"}
ALIGN_DEF = "#ifndef VP_ALIGNED\n#define VP_ALIGNED(n) __attribute__((aligned(n)))\n#endif"
CXX_INC = {"no_includes": True, "sys_includes": ["stdint.h", "stddef.h", "stdlib.h", "stdarg.h", "stdbool.h"]}
