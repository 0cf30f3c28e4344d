"""Strategies for configuration dictionaries (cbindgen.toml contents)."""
from hypothesis import strategies as st

B = st.booleans()


def maybe(draw, d, key, strat, p=3):
    """with probability 1/p set d[key]"""
    if draw(st.integers(0, p - 1)) == p - 1:
        d[key] = draw(strat)


@st.composite
def formatting(draw):
    c = {}
    maybe(draw, c, "braces", st.sampled_from(["SameLine", "NextLine"]), 2)
    maybe(draw, c, "line_length", st.sampled_from([1, 10, 40, 60, 80, 100, 120, 200, 1000]), 2)
    maybe(draw, c, "tab_width", st.sampled_from([1, 2, 3, 4, 8]), 2)
    f = {}
    maybe(draw, f, "args", st.sampled_from(["Auto", "Vertical", "Horizontal"]), 2)
    if f:
        c["fn"] = f
    return c


GUARDS = ["VP_GUARD_H", "my_guard", "_X1"]


@st.composite
def framing(draw, cxx, extern_ns=True):
    c = {}
    maybe(draw, c, "header", st.sampled_from(["/* header text */", "// one line", "/* a */\n/* b */"]))
    maybe(draw, c, "trailer", st.sampled_from(["/* trailer text */", "// end"]))
    maybe(draw, c, "include_guard", st.sampled_from(GUARDS), 2)
    maybe(draw, c, "pragma_once", B, 3)
    maybe(draw, c, "autogen_warning", st.just("/* autogenerated */"))
    maybe(draw, c, "include_version", B, 3)
    maybe(draw, c, "after_includes", st.sampled_from(["/* after */", "#define VP_AFTER 1"]), 3)
    if cxx:
        maybe(draw, c, "namespace", st.just("nsalpha"), 3)
        maybe(draw, c, "namespaces", st.lists(st.sampled_from(["nsb", "nsc", "nsd"]), min_size=1, max_size=3), 3)
    return c


RULES = ["none", "GeckoCase", "LowerCase", "UpperCase", "PascalCase", "CamelCase", "SnakeCase", "ScreamingSnakeCase", "QualifiedScreamingSnakeCase", "prefix:m_"]


@st.composite
def anyconfig(draw, names=("Foo",), p=4):
    """any valid configuration: every documented key with a well-typed value"""
    S = st.sampled_from
    txt = S(["X", "/* t */", "MACRO", "M(a)", "a b", ""])
    nm = st.lists(S(list(names)), max_size=3)
    top = {"header": txt, "includes": st.lists(S(["a.h", "b/c.h"]), max_size=2), "sys_includes": st.lists(S(["d.h"]), max_size=1), "after_includes": txt, "trailer": txt, "include_guard": S(["G_H", "g"]), "pragma_once": B,
           "no_includes": B, "package_version": B, "autogen_warning": txt, "include_version": B, "namespace": S(["n"]), "namespaces": st.lists(S(["a", "b"]), max_size=2), "using_namespaces": st.lists(S(["u"]), max_size=1),
           "braces": S(["SameLine", "NextLine"]), "line_length": st.integers(0, 200), "tab_width": st.integers(0, 9), "line_endings": S(["LF", "CR", "CRLF", "Native"]), "language": S(["C", "C++", "Cython"]), "cpp_compat": B,
           "style": S(["both", "tag", "type"]), "sort_by": S(["Name", "None"]), "usize_is_size_t": B, "documentation": B, "documentation_style": S(["auto", "C", "C99", "C++", "Doxy", "cxx"]), "documentation_length": S(["full", "short"])}
    secs = {
        "export": {"include": nm, "exclude": nm, "rename": st.dictionaries(S(list(names)), S(["R1", "R2"]), max_size=2), "pre_body": st.dictionaries(S(list(names)), txt, max_size=1), "body": st.dictionaries(S(list(names)), txt, max_size=1),
                   "prefix": S(["P_", ""]), "item_types": st.lists(S(["constants", "globals", "enums", "structs", "unions", "typedefs", "opaque", "functions"]), max_size=8), "renaming_overrides_prefixing": B},
        "layout": {"packed": S(["PACKED"]), "aligned_n": S(["ALIGNED"])},
        "fn": {"prefix": txt, "postfix": txt, "must_use": txt, "deprecated": txt, "deprecated_with_note": S(["D({})", "D"]), "args": S(["Auto", "Vertical", "Horizontal", "auto", "vertical", "horizontal"]), "rename_args": S(RULES), "swift_name_macro": S(["SWIFT"]), "sort_by": S(["Name", "None"]), "no_return": S(["NR"])},
        "struct": dict({"rename_fields": S(RULES), "must_use": txt, "deprecated": txt, "deprecated_with_note": S(["D({})"]), "rename_associated_constant": S(RULES)},
                       **{k: B for k in ("derive_constructor", "derive_eq", "derive_neq", "derive_lt", "derive_lte", "derive_gt", "derive_gte", "derive_ostream", "associated_constants_in_body")}),
        "enum": dict({"rename_variants": S(RULES), "rename_variant_name_fields": S(RULES), "cast_assert_name": S(["ASSERT"]), "must_use": txt, "deprecated": txt, "deprecated_with_note": S(["D({})"]), "deprecated_variant": txt, "deprecated_variant_with_note": S(["D({})"])},
                     **{k: B for k in ("add_sentinel", "prefix_with_name", "derive_helper_methods", "derive_const_casts", "derive_mut_casts", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor",
                                       "derive_tagged_enum_copy_assignment", "derive_ostream", "enum_class", "private_default_tagged_enum_constructor")}),
        "const": {"allow_static_const": B, "allow_constexpr": B, "sort_by": S(["Name", "None"])},
        "macro_expansion": {"bitflags": B},
        "ptr": {"non_null_attribute": S(["NONNULL"]), "nullable_attribute": S(["NULLABLE"])},
        "cython": {"header": S(["h.h"]), "cimports": st.dictionaries(S(["m"]), st.lists(S(["a"]), max_size=1), max_size=1)},
        "defines": {"unix": S(["U"]), "feature = x": S(["FX"]), "a": S(["DA"]), "target_os = linux": S(["L"])},
        "parse": {"parse_deps": B, "clean": B, "exclude": nm, "extra_bindings": nm},
    }
    c = {}
    for k, s in top.items():
        maybe(draw, c, k, s, p)
    for sec, opts in secs.items():
        if draw(B):
            d = {}
            for k, s in opts.items():
                maybe(draw, d, k, s, p)
            if d:
                c[sec] = d
    if draw(st.integers(0, 7)) == 0:
        c.setdefault("export", {})["mangle"] = {"remove_underscores": draw(B), "rename_types": draw(S(RULES))}
    return c
