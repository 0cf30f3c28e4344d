"""Reading generated C/C++ headers: tokens, comments, preprocessor, top-level declarations."""
import re

TOK = re.compile(r'''
  (?P<ws>[ \t\f\v]+|\\\n)
 |(?P<nl>\r\n|\n|\r)
 |(?P<lc>//[^\r\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>(?:u8|[uUL])?"(?:\\.|[^"\\\n])*")
 |(?P<chr>[uUL]?'(?:\\.|[^'\\\n])+')
 |(?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|::|\#\#|.)
''', re.X | re.S)


def lex(text):
    """-> list of (kind, text, line); preprocessor directives become one ('pp', text, line) token.
    Comments are included with kinds lc / bc."""
    out = []
    pos, line, bol = 0, 1, True
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        k, s = m.lastgroup, m.group()
        if k == "op" and s == "#" and bol:
            # directive: up to end of line, honouring continuations; comments cut off
            e = pos
            while True:
                j = len(text) if text.find("\n", e) < 0 else text.find("\n", e)
                if j > 0 and text[j - 1] == "\\" and j < n:
                    e = j + 1
                    continue
                e = j
                break
            d = text[pos:e].rstrip("\r")
            d = re.sub(r"//.*$", "", d) if '"' not in d else d
            d2 = re.sub(r"/\*.*?\*/", " ", d, flags=re.S) if '"' not in d else d
            out.append(("pp", " ".join(d2.replace("\\\n", " ").split()), line))
            line += text.count("\n", pos, e)
            pos = e
            continue
        if k == "nl":
            bol = True
            line += 1
        elif k == "ws":
            line += s.count("\n")
        else:
            if k not in ("lc", "bc"):
                bol = False
            out.append((k, s, line))
            line += s.count("\n")
        pos = m.end()
    return out


def tokens(text):
    """token texts without comments"""
    return [s for k, s, _ in lex(text) if k not in ("lc", "bc")]


def comments(text):
    return [(s, l) for k, s, l in lex(text) if k in ("lc", "bc")]


class Decl(dict):
    def __getattr__(self, k):
        return self.get(k)


OPEN, CLOSE = {"(", "{", "["}, {")", "}", "]"}
IGN_ATTR = {"__attribute__", "__declspec", "alignas"}


def decls(text):
    """top-level declarations of a header: list of Decl(kind, name, toks, conds, body, ns, extern_c, line).
    kind: fn static const define struct union enum typedef fwd using include other"""
    res = []
    conds = []
    scopes = []          # ("ns", name) / ("extern",)
    cur = []
    depth = 0
    line0 = None
    for k, s, line in lex(text):
        if k in ("lc", "bc"):
            continue
        if k == "pp":
            d = re.sub(r"^#\s*", "#", s)
            if cur:
                cur.append(("pp", d))
                continue
            if re.match(r"#(if|ifdef|ifndef)\b", d):
                conds.append(d)
            elif d.startswith("#endif"):
                if conds:
                    conds.pop()
            elif re.match(r"#(elif|else)\b", d):
                conds[-1] = conds[-1] + " || " + d
            elif d.startswith("#define"):
                m = re.match(r"#define\s+(\w+)", d)
                res.append(Decl(kind="define", name=m.group(1), toks=tokens(d[len(m.group(0)):]), conds=list(conds),
                                scopes=list(scopes), line=line))
            elif d.startswith("#include"):
                res.append(Decl(kind="include", name=d.split(None, 1)[1], toks=[], conds=list(conds), scopes=list(scopes), line=line))
            else:
                res.append(Decl(kind="pp", name=d, toks=[], conds=list(conds), scopes=list(scopes), line=line))
            continue
        if not cur:
            line0 = line
        if not cur and s == "}" and scopes:
            scopes.pop()
            continue
        cur.append((k, s))
        txt = [x for _, x in cur]
        if depth == 0 and s == "{":
            if txt[0] == "extern" and len(txt) == 3 and txt[1].startswith('"'):
                scopes.append(("extern",)); cur = []
                continue
            if txt[0] == "namespace":
                scopes.append(("ns", "".join(txt[1:-1]))); cur = []
                continue
        if s in OPEN:
            depth += 1
        elif s in CLOSE:
            depth -= 1
            if depth == 0 and s == "}" and is_fn_def(txt):
                res.append(classify(cur, conds, scopes, line0)); cur = []
        elif s == ";" and depth == 0:
            if len(cur) > 1:
                res.append(classify(cur, conds, scopes, line0))
            cur = []
    if cur:
        res.append(Decl(kind="other", name=None, toks=[x for _, x in cur], conds=list(conds), scopes=list(scopes), line=line0))
    return res


def is_fn_def(txt):
    """a '{...}' closing at depth 0 ends an inline function definition"""
    i = 0
    depth = 0
    for i, s in enumerate(txt):
        if s == "{" and depth == 0:
            head = txt[:i]
            break
        if s in OPEN:
            depth += 1
        elif s in CLOSE:
            depth -= 1
    else:
        return False
    if head[0] == "typedef":
        return False
    if "struct" in head or "union" in head or "enum" in head or "class" in head:
        # struct Foo f(...) { is still a function: parameter list right before the brace
        return head[-1] in (")", "const") and "enum" not in head and "(" in head and "__attribute__" not in head and "alignas" not in head
    if "=" in head:
        return False
    return ")" in head


def strip_attrs(t):
    """drop __attribute__((..)), alignas(..), template<..> prefixes"""
    out = []
    i = 0
    while i < len(t):
        if t[i] in IGN_ATTR and i + 1 < len(t) and t[i + 1] == "(":
            d = 0
            i += 1
            while True:
                if t[i] == "(":
                    d += 1
                elif t[i] == ")":
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
            continue
        if t[i] == "template" and i + 1 < len(t) and t[i + 1] == "<":
            d = 0
            i += 1
            while True:
                if t[i] == "<":
                    d += 1
                elif t[i] == ">":
                    d -= 1
                elif t[i] == ">>":
                    d -= 2
                i += 1
                if d <= 0:
                    break
            continue
        out.append(t[i])
        i += 1
    return out


def classify(cur, conds, scopes, line):
    full = [x for _, x in cur]
    ids = {x for k, x in cur if k == "id"}
    t = strip_attrs([x for k, x in cur if k != "pp"])
    D = lambda kind, name, **kw: Decl(kind=kind, name=name, toks=full, conds=list(conds), scopes=list(scopes), line=line, **kw)
    isid = lambda s: bool(re.match(r"[A-Za-z_]\w*$", s))
    if t[0] == "using":
        if len(t) > 2 and t[2] == "=":
            return D("typedef", t[1])
        return D("using", " ".join(t[1:-1]))
    if t[0] == "typedef":
        # typedef struct [tag] {...} Name; / typedef struct tag Name; / typedef T (*Name)(..)
        body = "{" in t
        tagk = t[1] if t[1] in ("struct", "union", "enum") else None
        name = declared_name(t[1:-1])
        if tagk and body:
            tag = t[2] if isid(t[2]) else None
            return D(tagk, name, tag=tag, typedef=True, body=brace_body(t))
        return D("typedef", name, tagk=tagk)
    if t[0] in ("struct", "union", "enum", "class") or (t[0] == "enum" and t[1] == "class"):
        j = 1
        if t[1] in ("class", "struct") and t[0] == "enum":
            j = 2
        # attributes / macros may precede the name: the name is the last identifier before { or : or ;
        k = j
        while k < len(t) and t[k] not in ("{", ":", ";", "(", "="):
            k += 1
        if t[k] == "{" or t[k] == ":" and t[0] == "enum" and "{" in t or (t[k] == ":" and "{" in t):
            ident = [x for x in t[j:k] if isid(x)]
            return D(t[0], ident[-1] if ident else None, body=brace_body(t))
        if t[k] == ":" and t[0] == "enum":
            ident = [x for x in t[j:k] if isid(x)]
            return D("fwd", ident[-1], tagk=t[0])
        if t[k] == ";" and k - j == 1:
            return D("fwd", t[j], tagk=t[0])
    if "{" in t and is_fn_def(t):
        return D("fndef", declared_name(t[:t.index("{")]))
    if "=" in t:
        return D("const", declared_name(t[:t.index("=")]))
    if t[0] == "extern" and not fn_like(t):
        return D("static", declared_name(t[1:-1]))
    nm = declared_name([x for x in t[:-1] if x != "extern"])
    if fn_like(t):
        return D("fn", nm)
    return D("static" if t[0] == "extern" else "other", nm)


def fn_like(t):
    """function declaration (not a variable of function-pointer type)"""
    t = [x for x in t if x not in ("extern",)]
    nm = declared_name(t[:-1] if t[-1] == ";" else t)
    for i, x in enumerate(t):
        if x == nm and i + 1 < len(t) and t[i + 1] == "(":
            return True
    return False


QUAL = {"const", "volatile", "static", "inline", "constexpr", "extern", "unsigned", "signed", "long", "short", "int", "char",
        "float", "double", "void", "bool", "struct", "union", "enum", "restrict", "noexcept", "class"}


def declared_name(t):
    """name declared by a declarator sequence (without trailing ';'): follows C declarator rules:
    the first identifier that is followed by ( [ ) , or the end, not counting specifier identifiers."""
    # remove brace bodies
    out, d = [], 0
    for x in t:
        if x == "{":
            d += 1
        if d == 0:
            out.append(x)
        if x == "}":
            d -= 1
    t = out
    # find "(*" or "( const*" groups first: descend into the innermost leading declarator parens
    i = 0
    cands = []
    ang = 0
    for i, x in enumerate(t):
        if x == "<":
            ang += 1
        elif x == ">":
            ang -= 1
        elif x == ">>":
            ang -= 2
        if ang > 0:
            continue
        if re.match(r"[A-Za-z_]\w*$", x) and x not in QUAL:
            nxt = t[i + 1] if i + 1 < len(t) else None
            if nxt in (None, "(", "[", ")", ";", "=", ",", ":"):
                if nxt == "(" and i + 2 < len(t) and t[i + 2] == "*":
                    continue            # return type followed by (*name...)
                return x
    return None


def brace_body(t):
    i = t.index("{")
    d = 0
    for j in range(i, len(t)):
        if t[j] == "{":
            d += 1
        elif t[j] == "}":
            d -= 1
            if d == 0:
                return t[i + 1:j]
    return t[i + 1:]


def split_top(t, sep):
    """split a token list at separators at nesting depth 0"""
    out, cur, d = [], [], 0
    for x in t:
        if x in OPEN:
            d += 1
        elif x in CLOSE:
            d -= 1
        if x == sep and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def find(ds, name, kinds=None):
    return [x for x in ds if x["name"] == name and (kinds is None or x["kind"] in kinds)]
