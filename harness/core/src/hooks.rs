//! Languages which record how their functions are called: `Tr` defines all of
//! them, `Td` leaves most of them to the defaults.
use crate::{cps, text, Ctx, HL};
use genco::{fmt, Tokens};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

thread_local! {
    static LOG: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
    /// Number of the call which fails, counted from 1.
    static FAIL: Cell<u64> = const { Cell::new(0) };
}

pub fn start(fail: u64) {
    LOG.with(|l| l.borrow_mut().clear());
    FAIL.with(|f| f.set(fail));
}

pub fn log() -> (Value, bool) {
    let v = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let fail = FAIL.with(|f| f.replace(0));
    let failed = fail > 0 && v.len() as u64 >= fail;
    (v.into(), failed)
}

fn call(h: &str, n: usize, s: &str, c: &str, f: &str) -> fmt::Result {
    let k = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(json!({"h": h, "n": n, "s": cps(s), "c": c, "f": f}));
        l.len() as u64
    });
    if FAIL.with(|f| f.get()) == k {
        return Err(std::fmt::Error);
    }
    Ok(())
}

// Note: neither of these can be cloned.
pub struct Config {
    pub tag: String,
}

impl Default for Config {
    fn default() -> Self {
        Config { tag: "dc".into() }
    }
}

pub struct Format {
    pub tag: String,
}

impl Default for Format {
    fn default() -> Self {
        Format { tag: "df".into() }
    }
}

macro_rules! items {
    ($($lang:tt)*) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct Alpha(pub u32, pub String);

        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct Beta(pub u32, pub String);

        genco::impl_lang! {
            $($lang)*

            Alpha {
                fn format(&self, out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                    call("item", self.0 as usize, "", &c.tag, &f.tag)?;
                    out.write_str(&self.1)
                }
            }

            Beta {
                fn format(&self, out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                    call("item", self.0 as usize, "", &c.tag, &f.tag)?;
                    out.write_char('B')?;
                    write!(out, "{}", self.1)
                }
            }
        }
    };
}

macro_rules! hl {
    ($l:ty, $m:ident) => {
        impl HL for $l {
            fn add(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str) {
                let (n, s) = (d["id"].as_u64().unwrap() as u32, text(&d["s"]));
                if d["ty"] == "a" {
                    $crate::emit!(t, how, $m::Alpha(n, s))
                } else {
                    $crate::emit!(t, how, $m::Beta(n, s))
                }
            }
            fn add_tuple(_: &Ctx<Self>, t: &mut Tokens<Self>, d: &[&Value], how: &str) {
                let a = |d: &Value| $m::Alpha(d["id"].as_u64().unwrap() as u32, text(&d["s"]));
                let b = |d: &Value| $m::Beta(d["id"].as_u64().unwrap() as u32, text(&d["s"]));
                // of mixed types
                match d {
                    [x, y] if x["ty"] == "a" && y["ty"] == "a" => $crate::tup(t, how, (a(x), &a(y))),
                    [x, y] if x["ty"] == "a" => $crate::tup(t, how, (a(x), b(y))),
                    [x, y] if y["ty"] == "a" => $crate::tup(t, how, (&b(x), a(y))),
                    [x, y] => $crate::tup(t, how, (b(x), b(y))),
                    _ => panic!("harness: bad tuple"),
                }
            }
            fn config(v: &Value) -> Config {
                v.as_str().map_or_else(Config::default, |t| Config { tag: t.into() })
            }
            fn format(v: &Value) -> Format {
                v.as_str().map_or_else(Format::default, |t| Format { tag: t.into() })
            }
        }
    };
}

pub mod full {
    use super::*;
    use genco::prelude::*;
    use std::fmt::Write as _;

    items! {
        pub Tr {
            type Config = Config;
            type Format = Format;
            type Item = Any;

            fn default_indentation() -> fmt::Indentation {
                fmt::Indentation::Space(3)
            }

            fn open_quote(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format, e: bool) -> fmt::Result {
                call("open", e as usize, "", &c.tag, &f.tag)?;
                out.write_str(if e { "<<" } else { "<" })
            }

            fn close_quote(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format, e: bool) -> fmt::Result {
                call("close", e as usize, "", &c.tag, &f.tag)?;
                out.write_str(if e { ">>" } else { ">" })
            }

            fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format, s: &str) -> fmt::Result {
                call("lit", 0, s, &c.tag, &f.tag)?;
                write!(out, "={s}=")
            }

            fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                call("start", 0, "", &c.tag, &f.tag)?;
                out.write_char('{')
            }

            fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                call("end", 0, "", &c.tag, &f.tag)?;
                out.write_char('}')
            }

            fn write_quoted(out: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
                call("text", 0, s, "", "")?;
                for c in s.chars() {
                    out.write_char('\\')?;
                    out.write_char(c)?;
                }
                Ok(())
            }

            fn format_file(tokens: &Tokens<Self>, out: &mut fmt::Formatter<'_>, c: &Config) -> fmt::Result {
                call("file", 0, "", &c.tag, "")?;
                let mut head: Tokens<Self> = quote!(file $(&c.tag));
                head.line();
                head.format(out, c, &Format { tag: "fh".into() })?;
                tokens.format(out, c, &Format { tag: "ff".into() })?;
                let mut tail = Tokens::<Self>::new();
                tail.line();
                tail.append("end");
                tail.format(out, c, &Format::default())
            }
        }
    }

    hl!(Tr, full);
    use super::full;
}

pub mod part {
    use super::*;
    use std::fmt::Write as _;

    items! {
        pub Td {
            type Config = Config;
            type Format = Format;
            type Item = Any;

            fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                call("start", 0, "", &c.tag, &f.tag)?;
                out.write_char('{')
            }

            fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Config, f: &Format) -> fmt::Result {
                call("end", 0, "", &c.tag, &f.tag)?;
                out.write_char('}')
            }
        }
    }

    hl!(Td, part);
    use super::part;
}
