//! The languages of genco: how to construct their imports, configurations and
//! comments from a description.
use crate::{emit, repr, run, text, Ctx, HL};
use genco::lang::*;
use genco::quote_in;
use genco::tokens::ItemStr;
use genco::Tokens;
use relative_path::RelativePathBuf;
use serde_json::Value;

fn a(d: &Value, i: usize) -> ItemStr {
    repr(text(&d["a"][i]))
}

fn mods(d: &Value) -> Vec<(String, ItemStr)> {
    d["m"]
        .as_array()
        .map(|v| {
            v.iter()
                .map(|m| {
                    (
                        m[0].as_str().unwrap().to_string(),
                        repr(m.get(1).map(text).unwrap_or_default()),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn bad(m: &str) -> ! {
    panic!("harness: bad modifier {m}")
}

impl HL for C {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let i = match d["f"].as_str().unwrap() {
            "include" => c::include(a(d, 0), a(d, 1)),
            "include_system" => c::include_system(a(d, 0), a(d, 1)),
            f => bad(f),
        };
        emit!(t, how, i)
    }
    fn config(_: &Value) -> c::Config {
        c::Config::default()
    }
}

impl HL for Csharp {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let mut i = csharp::import(a(d, 0), a(d, 1));
        for (m, _) in mods(d) {
            i = match &*m {
                "qualified" => i.qualified(),
                m => bad(m),
            };
        }
        emit!(t, how, i)
    }
    fn config(v: &Value) -> csharp::Config {
        match v.get("ns") {
            Some(n) => csharp::Config::default().with_namespace(repr(text(n))),
            None => csharp::Config::default(),
        }
    }
    fn comment(t: &mut Tokens<Self>, how: &str, lines: Vec<String>) {
        match how {
            "block" => t.append(csharp::block_comment(lines)),
            "blockiter" => t.append(csharp::block_comment(crate::lazy(&lines))),
            "blockupto" => t.append(csharp::block_comment(lines.iter().filter(|_| true))),
            "blockstatic" => t.append(csharp::block_comment(crate::leak_all(&lines))),
            "line" => t.append(csharp::comment(lines)),
            "lineiter" => t.append(csharp::comment(crate::lazy(&lines))),
            "lineupto" => t.append(csharp::comment(lines.iter().filter(|_| true))),
            "linestatic" => t.append(csharp::comment(crate::leak_all(&lines))),
            "block&" => t.append(csharp::block_comment(&lines)),
            "line&" => t.append(csharp::comment(&lines)),
            "blockq" => quote_in!(*t => $(csharp::block_comment(lines))),
            "lineq" => quote_in!(*t => $(csharp::comment(lines))),
            _ => bad(how),
        }
    }
}

impl HL for Dart {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let mut i = dart::import(a(d, 0), a(d, 1));
        for (m, x) in mods(d) {
            i = match &*m {
                "with_alias" => i.with_alias(x),
                m => bad(m),
            };
        }
        emit!(t, how, i)
    }
    fn config(_: &Value) -> dart::Config {
        dart::Config::default()
    }
    fn comment(t: &mut Tokens<Self>, how: &str, lines: Vec<String>) {
        match how {
            "doc" => t.append(dart::doc_comment(lines)),
            "dociter" => t.append(dart::doc_comment(crate::lazy(&lines))),
            "docupto" => t.append(dart::doc_comment(lines.iter().filter(|_| true))),
            "docstatic" => t.append(dart::doc_comment(crate::leak_all(&lines))),
            "doc&" => t.append(dart::doc_comment(&lines)),
            "docq" => quote_in!(*t => $(dart::doc_comment(lines))),
            _ => bad(how),
        }
    }
}

impl HL for Go {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        emit!(t, how, go::import(a(d, 0), a(d, 1)))
    }
    fn config(v: &Value) -> go::Config {
        match v.get("pkg") {
            Some(n) => go::Config::default().with_package(repr(text(n))),
            None => go::Config::default(),
        }
    }
}

impl HL for Java {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        emit!(t, how, java::import(a(d, 0), a(d, 1)))
    }
    fn config(v: &Value) -> java::Config {
        match v.get("pkg") {
            Some(n) => java::Config::default().with_package(repr(text(n))),
            None => java::Config::default(),
        }
    }
    fn comment(t: &mut Tokens<Self>, how: &str, lines: Vec<String>) {
        match how {
            "block" => t.append(java::block_comment(lines)),
            "blockiter" => t.append(java::block_comment(crate::lazy(&lines))),
            "blockupto" => t.append(java::block_comment(lines.iter().filter(|_| true))),
            "blockstatic" => t.append(java::block_comment(crate::leak_all(&lines))),
            "block&" => t.append(java::block_comment(&lines)),
            "blockq" => quote_in!(*t => $(java::block_comment(lines))),
            _ => bad(how),
        }
    }
}

impl HL for JavaScript {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let mut i = match d["f"].as_str().unwrap() {
            // everything a module can be made of
            "import" => match a(d, 0).len() % 4 {
                0 => js::import(a(d, 0).to_string(), a(d, 1)),
                1 => js::import(&*a(d, 0), a(d, 1)),
                2 => js::import(a(d, 0), a(d, 1)),
                _ => js::import(js::Module::Global(a(d, 0)), a(d, 1)),
            },
            "import_path" => js::import(js::Module::Path(RelativePathBuf::from(a(d, 0).to_string())), a(d, 1)),
            f => bad(f),
        };
        for (m, x) in mods(d) {
            i = match &*m {
                "with_alias" => i.with_alias(x),
                "into_default" => i.into_default(),
                "into_wildcard" => i.into_wildcard(),
                m => bad(m),
            };
        }
        emit!(t, how, i)
    }
    fn config(v: &Value) -> js::Config {
        match v.get("path") {
            Some(n) => js::Config::default().with_module_path(RelativePathBuf::from(text(n))),
            None => js::Config::default(),
        }
    }
}

impl HL for Nix {
    fn add(cx: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let i = match d["f"].as_str().unwrap() {
            "argument" => nix::argument(a(d, 0)),
            "inherit" => nix::inherit(a(d, 0), a(d, 1)),
            "with" => nix::with(a(d, 0), a(d, 1)),
            "variable" => {
                let mut v = Tokens::new();
                run(cx, &mut v, &d["v"]);
                nix::variable(a(d, 0), v)
            }
            f => bad(f),
        };
        emit!(t, how, i)
    }
    fn config(v: &Value) -> nix::Config {
        match v.get("scoped") {
            Some(n) => nix::Config::default().with_scoped(n.as_bool().unwrap()),
            None => nix::Config::default(),
        }
    }
}

impl HL for Python {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        match d["f"].as_str().unwrap() {
            "import" => {
                let mut i = python::import(a(d, 0), a(d, 1));
                for (m, x) in mods(d) {
                    i = match &*m {
                        "with_alias" => i.with_alias(x),
                        "qualified" => i.qualified(),
                        "with_module_alias" => i.with_module_alias(x),
                        m => bad(m),
                    };
                }
                emit!(t, how, i)
            }
            "import_module" => {
                let mut i = python::import_module(a(d, 0));
                for (m, x) in mods(d) {
                    i = match &*m {
                        "with_alias" => i.with_alias(x),
                        m => bad(m),
                    };
                }
                emit!(t, how, i)
            }
            f => bad(f),
        }
    }
    fn config(_: &Value) -> python::Config {
        python::Config::default()
    }
}

impl HL for Rust {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let mut i = rust::import(a(d, 0), a(d, 1));
        for (m, x) in mods(d) {
            i = match &*m {
                "with_alias" => i.with_alias(x),
                "with_module_alias" => i.with_module_alias(x),
                "qualified" => i.qualified(),
                "direct" => i.direct(),
                m => bad(m),
            };
        }
        emit!(t, how, i)
    }
    fn config(v: &Value) -> rust::Config {
        match v.get("mode").and_then(Value::as_str) {
            Some("q") => rust::Config::default().with_default_import(rust::ImportMode::Qualified),
            Some("d") => rust::Config::default().with_default_import(rust::ImportMode::Direct),
            _ => rust::Config::default(),
        }
    }
}

impl HL for Swift {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        emit!(t, how, swift::import(a(d, 0), a(d, 1)))
    }
    fn config(_: &Value) -> swift::Config {
        swift::Config::default()
    }
}
