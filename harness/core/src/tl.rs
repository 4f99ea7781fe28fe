//! Languages of the harness: `Tl` overrides everything in an observable way,
//! `Tp` uses all the defaults.
use crate::{text, Ctx, HL};
use genco::fmt;
use genco::{impl_lang, Tokens};
use serde_json::Value;
use std::fmt::Write as _;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Import(pub u32, pub String);

impl_lang! {
    pub Tl {
        type Config = ();
        type Format = ();
        type Item = Import;

        fn default_indentation() -> fmt::Indentation {
            fmt::Indentation::Space(3)
        }

        fn open_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &(), e: bool) -> fmt::Result {
            out.write_str(if e { "<<" } else { "<" })
        }

        fn close_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &(), e: bool) -> fmt::Result {
            out.write_str(if e { ">>" } else { ">" })
        }

        fn string_eval_literal(out: &mut fmt::Formatter<'_>, _: &(), _: &(), s: &str) -> fmt::Result {
            write!(out, "={}=", s)
        }

        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_char('{')
        }

        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_char('}')
        }

        fn write_quoted(out: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
            for c in s.chars() {
                out.write_char('\\')?;
                out.write_char(c)?;
            }
            Ok(())
        }
    }

    Import {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str(&self.1)
        }
    }
}

pub mod plain {
    use genco::{fmt, impl_lang};
    use std::fmt::Write as _;

    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Import(pub u32, pub String);

    impl_lang! {
        pub Tp {
            type Config = ();
            type Format = ();
            type Item = Import;
        }

        Import {
            fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
                for c in self.1.chars() {
                    out.write_char(c)?;
                }
                Ok(())
            }
        }
    }
}

#[macro_export]
macro_rules! emit {
    ($t:expr, $how:expr, $e:expr) => {{
        let e = $e;
        let t = &mut *$t;
        match $how {
            "ref" => t.append(e),
            "&ref" => t.append(&e),
            "opt" => t.append(Some(e)),
            "vec" => t.append(vec![e]),
            "slice" => t.append(&[e][..]),
            "quote" => $crate::put(t, e),
            "&quote" => $crate::put(t, &e),
            "reg" => t.register(e),
            "&reg" => t.register(&e),
            "regfn" => t.append($crate::register(e)),
            "&regfn" => t.append($crate::register(&e)),
            "regtup" => t.register((e,)),
            "regtupfn" => t.append($crate::register((e,))),
            "regtup2" => t.register(((&e,),)),
            "regquote" => $crate::put(t, $crate::register(e)),
            h if h.starts_with("item") => $crate::raw_item(t, h, e),
            h => panic!("harness: bad import kind {h}"),
        }
    }};
}

#[macro_export]
macro_rules! emit_tuple {
    ($t:expr, $how:expr, $v:expr) => {{
        let t = &mut *$t;
        let mut v = $v.into_iter();
        let mut n = || v.next().unwrap();
        match v_len!($v) {
            1 => $crate::tup(t, $how, (n(),)),
            2 => $crate::tup(t, $how, (n(), n())),
            3 => $crate::tup(t, $how, (n(), n(), n())),
            4 => $crate::tup(t, $how, (n(), n(), n(), n())),
            5 => $crate::tup(t, $how, (n(), n(), n(), n(), n())),
            6 => $crate::tup(t, $how, (n(), n(), n(), n(), n(), n())),
            7 => $crate::tup(t, $how, (n(), n(), n(), n(), n(), n(), n())),
            8 => $crate::tup(t, $how, (n(), n(), n(), n(), n(), n(), n(), n())),
            9 => $crate::tup(t, $how, ((n(), n(), n()), (n(), n(), n(), n(), n(), n()))),
            k => panic!("harness: bad tuple {k}"),
        }
    }};
}

fn import(d: &Value) -> Import {
    Import(d["id"].as_u64().unwrap() as u32, text(&d["s"]))
}

macro_rules! v_len {
    ($v:expr) => {
        $v.len()
    };
}

impl HL for Tl {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        emit!(t, how, import(d))
    }
    fn add_tuple(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &[&Value], how: &str) {
        let v = d.iter().map(|d| import(d)).collect::<Vec<_>>();
        emit_tuple!(t, how, v.clone())
    }
    fn config(_: &Value) {}
}

impl HL for plain::Tp {
    fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
        let i = import(d);
        emit!(t, how, plain::Import(i.0, i.1))
    }
    fn config(_: &Value) {}
}
