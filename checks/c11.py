"""C11: formatting options change only white space; line endings and layout are honoured."""
import random, re
from hypothesis import strategies as st
import cc, vp, hdr, rs, gen
import c09

PROP = "C11"
N = {"quick": 4000, "thorough": 150000}
RULE = ("case = generated program (types/generics, constants, or cfg trees; documentation lines added) x language/style/derive options x 3 random settings of braces, line_length, "
        "tab_width, fn.args and line_endings; the tokens and comments of all headers must be those of the default one, every line terminator the configured one, signatures "
        "laid out as fn.args says, braces and field indentation as configured; non-trivial = the formatted text differs from the default text in at least two variants")
ASSUMPTIONS = ["white space inside comments and between tokens is the only difference allowed", "Auto layout is checked for functions without documentation, cfg and function pointers only"]
B = st.booleans()


@st.composite
def fmt(draw):
    c = {}
    if draw(B):
        c["braces"] = draw(st.sampled_from(["SameLine", "NextLine"]))
    if draw(st.integers(0, 3)) > 0:
        c["line_length"] = draw(st.one_of(st.sampled_from([1, 10, 30, 40, 60, 80, 100, 200, 1000]), st.integers(20, 120)))
    if draw(B):
        c["tab_width"] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 13]))
    if draw(st.integers(0, 3)) > 0:
        c["fn"] = {"args": draw(st.sampled_from(["Auto", "Vertical", "Horizontal"]))}
    if draw(B):
        c["line_endings"] = draw(st.sampled_from(["LF", "CR", "CRLF", "Native"]))
    return c


@st.composite
def cases(draw):
    c = draw(c09.det_cases())
    opt = {}
    lang = None
    if c["kind"] == "prog":
        for k in ("braces", "line_length", "tab_width", "fn"):
            c["cfg"].pop(k, None)
        if draw(st.integers(0, 2)) == 0:
            opt["struct"] = {k: True for k in draw(st.lists(st.sampled_from(["derive_eq", "derive_neq", "derive_lt", "derive_constructor", "derive_ostream"]), unique=True, max_size=3))}
        if draw(st.integers(0, 2)) == 0:
            opt["enum"] = {k: True for k in draw(st.lists(st.sampled_from(["derive_helper_methods", "derive_const_casts", "derive_tagged_enum_destructor", "add_sentinel", "private_default_tagged_enum_constructor"]), unique=True, max_size=3))}
        if draw(st.integers(0, 3)) == 0:
            opt["header"] = "/* head */"
            opt["include_guard"] = "VP_G"
            opt["trailer"] = "/* tail */"
        if draw(st.integers(0, 3)) == 0:
            opt["documentation_style"] = draw(st.sampled_from(["C", "C99", "Doxy", "C++"]))
        if draw(st.integers(0, 3)) == 0 and c["cfg"]["language"] == "C++":
            opt["namespace"] = "nsx"
    c["opt"] = opt
    c["docs"] = draw(st.integers(0, 3))
    c["fmts"] = draw(st.lists(fmt(), min_size=2, max_size=3))
    return c


DOCW = ["a b", "one", "two words here", "x" * 70, "tab\tin", "trailing  ", "* star", "- list item", "", "(paren, comma; semi)", "{ brace }"]


def sprinkle(src, rnd, amount):
    """documentation lines above items, fields and functions"""
    if amount == 0:
        return src
    out = []
    for l in src.split("\n"):
        m = re.match(r"(\s*)(#\[(repr|no_mangle|derive)|pub (struct|enum|union|fn|static|const|type|\w+:))", l)
        if m and rnd.randint(0, 3) < amount:
            for _ in range(rnd.randint(1, 3)):
                out.append(m.group(1) + "/// " + rnd.choice(DOCW))
        out.append(l)
    return "\n".join(out)


def norm(h, lang):
    """token stream with comments; white space inside comments normalised"""
    if lang == "Cython":
        return [" ".join(l.split()) for l in h.split("\n") if l.strip()]
    out = []
    for k, s, _ in hdr.lex(h):
        if k in ("lc", "bc"):
            s = " ".join(s.split())
        out.append(s)
    return out


def eol(h, cfg):
    want = {"LF": "\n", "CR": "\r", "CRLF": "\r\n", "Native": "\n", None: "\n"}[cfg.get("line_endings")]
    rest = h.replace(want, "\x00") if want != "\n" else h.replace("\n", "\x00")
    if "\n" in rest or "\r" in rest:
        return None
    return rest.replace("\x00", "\n")


def cyth_norm(h):
    # Cython: one declaration may be spread over several lines (vertical arguments)
    return hdr_tokens_cython(h)


def hdr_tokens_cython(h):
    return re.findall(r'"[^"\n]*"|\w+|[^\w\s]', h)


def signatures(h):
    """(text with newlines from the first token of a function declaration to its ';', first line number)"""
    lines = h.split("\n")
    out = []
    toks = hdr.lex(h)
    for dcl in hdr.decls(h):
        if dcl["kind"] == "fn" and not any("{" == t for t in dcl["toks"]):
            l0 = dcl["line"] - 1
            l1 = l0
            while not lines[l1].rstrip().endswith(";") and l1 + 1 < len(lines):
                l1 += 1
            out.append((dcl, lines[l0:l1 + 1], lines[l0 - 1] if l0 else ""))
    return out


def depth_commas(ls):
    """for every comma of the signature's own (depth 1) parameter list: is it at a line end?"""
    txt = "\n".join(ls)
    # the function's own parameter list is the last top-level (...) group that follows the name
    d = 0
    ang = 0
    res = []
    for i, ch in enumerate(txt):
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        elif ch == "<":
            ang += 1
        elif ch == ">":
            ang -= 1
        elif ch == "," and ang == 0:
            res.append((d, txt[i + 1:i + 2] == "\n"))
    return res


def check(case, ctx):
    d = ctx.fresh()
    src, cfg = c09.det_source(case)
    for k in ("braces", "line_length", "tab_width", "line_endings"):
        cfg.pop(k, None)
    if isinstance(cfg.get("fn"), dict):
        cfg["fn"] = {k: v for k, v in cfg["fn"].items() if k != "args"}
    if case["sort"]:
        cfg["sort_by"] = case["sort"]
    cfg = cc.merge(cfg, case["opt"])
    src = sprinkle(src, random.Random(case["seed"]), case["docs"])
    lang = cfg.get("language", "C++")
    base = cc.bindgen(ctx, d, src, cfg)
    if lang == "Cython":
        N0 = hdr_tokens_cython(base)
    else:
        N0 = norm(base, lang)
    diffs = 0
    for f in case["fmts"]:
        c2 = cc.merge(cfg, f)
        raw = cc.bindgen(ctx, d, src, c2, out="v.h")
        h = eol(raw, c2)
        if h is None:
            cc.fail("a line terminator other than the configured %s is in the output" % c2.get("line_endings"), src, c2, repr(raw))
        if h and not h.endswith("\n"):
            cc.fail("last line is not terminated", src, c2, h)
        N1 = hdr_tokens_cython(h) if lang == "Cython" else norm(h, lang)
        if N0 != N1:
            i = next((i for i, (a, b) in enumerate(zip(N0, N1)) if a != b), min(len(N0), len(N1)))
            cc.fail("formatting options change the tokens: %r became %r" % (" ".join(N0[max(0, i - 6):i + 6]), " ".join(N1[max(0, i - 6):i + 6])), src, c2, base, h)
        ctx.evaluated()
        if h != base:
            diffs += 1
        if any(l != l.rstrip() and l.strip() == "" for l in h.split("\n")) and not any(l != l.rstrip() and l.strip() == "" for l in base.split("\n")):
            pass
        if lang != "Cython":
            layout(case, src, c2, h, ctx)
    ctx.label(case["kind"], lang)
    ctx.nontrivial(diffs >= 2)


def layout(case, src, cfg, h, ctx):
    args = cfg.get("fn", {}).get("args", "Auto")
    width = cfg.get("line_length", 100)
    tab = cfg.get("tab_width", 2)
    for dcl, ls, prev in signatures(h):
        commas = depth_commas(ls)
        txt = " ".join(x.strip() for x in ls)
        nested = txt.count("(") > 1
        if args == "Horizontal" and len(ls) > 1:
            cc.fail("fn.args = Horizontal, but the signature of %s spans lines" % dcl["name"], src, cfg, h)
        if args == "Vertical" and any(not e for _, e in commas):
            cc.fail("fn.args = Vertical, but two arguments of %s share a line" % dcl["name"], src, cfg, h)
        if args == "Auto" and not nested and commas:
            doc = prev.strip().startswith(("/", "*")) or prev.strip().startswith("#") or prev.strip().endswith("*/")
            if len(ls) == 1 and len(ls[0]) > width:
                cc.fail("fn.args = Auto leaves the signature of %s (%d columns) longer than line_length %d" % (dcl["name"], len(ls[0]), width), src, cfg, h)
            if len(ls) > 1:
                if any(not e for _, e in commas):
                    cc.fail("fn.args = Auto lays %s out neither horizontally nor vertically" % dcl["name"], src, cfg, h)
                # the condition under which breaking is unjustified: the one-line form fits
                if not doc and len(ls[0]) - len(ls[0].lstrip()) + len(txt) <= width:
                    cc.fail("fn.args = Auto breaks the signature of %s although it fits into line_length %d" % (dcl["name"], width), src, cfg, h)
        if len(ls) > 1 and not nested:
            cols = [len(l) - len(l.lstrip()) for l in ls[1:]]
            first = ls[0].index("(") + 1
            if any(c != first for c in cols):
                cc.fail("vertical arguments of %s are not aligned" % dcl["name"], src, cfg, h)
        ctx.label("layout:%s:%s" % (args, "1" if len(ls) == 1 else "n"))
        ctx.evaluated()
    # braces and indentation of type definitions
    lines = h.split("\n")
    nextl = cfg.get("braces", "SameLine") == "NextLine"
    for i, l in enumerate(lines):
        m = re.match(r"(\s*)((typedef )?(struct|union|enum)\b[^;(={]*?)(\s*\{)?$", l)
        if not m or l.strip().startswith(("//", "*", "/*")):
            continue
        opens = l.rstrip().endswith("{")
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        if not opens and nxt.strip() != "{":
            continue
        ctx.label("brace")
        if nextl and opens:
            cc.fail("braces = NextLine, but %r opens on the same line" % l, src, cfg, h)
        if not nextl and not opens:
            cc.fail("braces = SameLine, but %r opens on the next line" % l, src, cfg, h)
        body = lines[i + 1 if opens else i + 2]
        ind = len(l) - len(l.lstrip())
        if body.strip() and not body.strip().startswith(("}", "#", "/* body")):
            bi = len(body) - len(body.lstrip())
            if bi != ind - ind % tab + tab:
                cc.fail("tab_width = %d, but the body of %r is indented by %d" % (tab, l.strip(), bi - ind), src, cfg, h)


def strategy(tier):
    return cases()
