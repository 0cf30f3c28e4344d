//! Drives cbindgen's public Builder API from a JSON request on stdin.
//! {"config": path?, "text_config": toml?, "src": [..], "crate": dir?, "crate_name": name?, "lockfile": path?,
//!  "calls": [["with_header", "x"], ...], "out": path?, "depfile": path?, "symfile": path?}
//! With "out": prints changed=true|false; otherwise the bindings go to stdout.
use cbindgen::{Braces, Builder, Config, Language, LineEndingStyle, Style};
use std::io::Read;

fn strs(v: &serde_json::Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect()
}

fn apply(b: Builder, call: &serde_json::Value) -> Builder {
    let name = call[0].as_str().unwrap();
    let a = &call[1];
    let s = || a.as_str().unwrap();
    let t = || a.as_bool().unwrap();
    let u = || a.as_u64().unwrap() as usize;
    match name {
        "with_header" => b.with_header(s()),
        "with_no_includes" => b.with_no_includes(),
        "with_include" => b.with_include(s()),
        "with_sys_include" => b.with_sys_include(s()),
        "with_after_include" => b.with_after_include(s()),
        "with_trailer" => b.with_trailer(s()),
        "with_include_guard" => b.with_include_guard(s()),
        "with_pragma_once" => b.with_pragma_once(t()),
        "with_autogen_warning" => b.with_autogen_warning(s()),
        "with_include_version" => b.with_include_version(t()),
        "with_namespace" => b.with_namespace(s()),
        "with_namespaces" => b.with_namespaces(&strs(a)),
        "with_using_namespaces" => b.with_using_namespaces(&strs(a)),
        "with_braces" => b.with_braces(match s() { "SameLine" => Braces::SameLine, _ => Braces::NextLine }),
        "with_line_length" => b.with_line_length(u()),
        "with_tab_width" => b.with_tab_width(u()),
        "with_language" => b.with_language(match s() { "C" => Language::C, "Cython" => Language::Cython, _ => Language::Cxx }),
        "with_cpp_compat" => b.with_cpp_compat(t()),
        "with_style" => b.with_style(match s() { "both" => Style::Both, "tag" => Style::Tag, _ => Style::Type }),
        "include_item" => b.include_item(s()),
        "exclude_item" => b.exclude_item(s()),
        "rename_item" => b.rename_item(a[0].as_str().unwrap(), a[1].as_str().unwrap()),
        "with_item_prefix" => b.with_item_prefix(s()),
        "with_parse_deps" => b.with_parse_deps(t()),
        "with_parse_include" => b.with_parse_include(&strs(a)),
        "with_parse_exclude" => b.with_parse_exclude(&strs(a)),
        "with_parse_extra_bindings" => b.with_parse_extra_bindings(&strs(a)),
        "with_only_target_dependencies" => b.with_only_target_dependencies(t()),
        "with_documentation" => b.with_documentation(t()),
        "with_target_os_define" => b.with_target_os_define(a[0].as_str().unwrap(), a[1].as_str().unwrap()),
        "with_define" => b.with_define(a[0].as_str().unwrap(), a[1].as_str().unwrap(), a[2].as_str().unwrap()),
        "with_line_endings" => b.with_line_endings(match s() {
            "CR" => LineEndingStyle::CR,
            "CRLF" => LineEndingStyle::CRLF,
            "Native" => LineEndingStyle::Native,
            _ => LineEndingStyle::LF,
        }),
        other => panic!("helper: unknown call {other}"),
    }
}

fn main() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let req: serde_json::Value = serde_json::from_str(&text).expect("helper: bad request");
    let mut b = Builder::new();
    if let Some(p) = req["config"].as_str() {
        match Config::from_file(p) {
            Ok(c) => b = b.with_config(c),
            Err(e) => {
                eprintln!("config error: {e}");
                std::process::exit(4);
            }
        }
    } else if let Some(p) = req["root"].as_str() {
        b = b.with_config(Config::from_root_or_default(p));
    }
    for c in req["calls"].as_array().into_iter().flatten() {
        b = apply(b, c);
    }
    for s in req["src"].as_array().into_iter().flatten() {
        b = b.with_src(s.as_str().unwrap());
    }
    if let Some(l) = req["lockfile"].as_str() {
        b = b.with_lockfile(l);
    }
    if let Some(d) = req["crate"].as_str() {
        b = match req["crate_name"].as_str() {
            Some(n) => b.with_crate_and_name(d, n),
            None => b.with_crate(d),
        };
    }
    match b.generate() {
        Err(e) => {
            eprintln!("generate error: {e}");
            std::process::exit(5);
        }
        Ok(bindings) => {
            if let Some(o) = req["out"].as_str() {
                println!("changed={}", bindings.write_to_file(o));
                if let Some(d) = req["depfile"].as_str() {
                    bindings.generate_depfile(o, d);
                }
                if let Some(d) = req["symfile"].as_str() {
                    bindings.generate_symfile(d);
                }
            } else {
                bindings.write(std::io::stdout());
            }
        }
    }
}
