//! What generated programs need: a language which marks strings and
//! evaluations, a log of evaluated expressions, and recording of results.
pub use genco;
use genco::fmt;
use genco::impl_lang;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;

impl genco::lang::LangSupportsEval for Tl {}

impl_lang! {
    pub Tl {
        type Config = ();
        type Format = ();
        type Item = Import;

        fn open_quote(out: &mut fmt::Formatter<'_>, _: &Self::Config, _: &Self::Format, has_eval: bool) -> fmt::Result {
            out.write_str(if has_eval { "<<" } else { "<" })
        }

        fn close_quote(out: &mut fmt::Formatter<'_>, _: &Self::Config, _: &Self::Format, has_eval: bool) -> fmt::Result {
            out.write_str(if has_eval { ">>" } else { ">" })
        }

        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &Self::Config, _: &Self::Format) -> fmt::Result {
            out.write_str("{")
        }

        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &Self::Config, _: &Self::Format) -> fmt::Result {
            out.write_str("}")
        }

        fn string_eval_literal(out: &mut fmt::Formatter<'_>, _: &Self::Config, _: &Self::Format, literal: &str) -> fmt::Result {
            write!(out, "{{{literal}}}")
        }

        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                write!(out, "\\{c}")?;
            }
            Ok(())
        }
    }

    Import {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            write!(out, "I{}", self.0)
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Import(pub i64);

pub type Toks = genco::Tokens<Tl>;

/// import number n
pub fn imp(n: i64) -> Import {
    Import(n)
}

thread_local! {
    static LOG: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}

/// Evaluate something and log that it has been.
pub fn ev<T>(key: i64, value: T) -> T {
    LOG.with(|l| l.borrow_mut().push(key));
    value
}

/// Iterators over all of the values, which know nothing about their size, how
/// many there are at most, and which go backwards.
pub fn lazy<T>(values: Vec<T>) -> impl Iterator<Item = T> {
    let mut it = values.into_iter();
    std::iter::from_fn(move || it.next())
}

pub fn upto<T>(values: Vec<T>) -> impl Iterator<Item = T> {
    values.into_iter().filter(|_| true)
}

pub fn back<T>(mut values: Vec<T>) -> impl Iterator<Item = T> {
    values.reverse();
    values.into_iter().rev()
}

fn cps(s: &str) -> String {
    let mut out = String::from("[");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            out.push(',');
        }
        write!(out, "{}", c as u32).unwrap();
    }
    out.push(']');
    out
}

fn nums(v: &[i64]) -> String {
    format!("{v:?}")
}

fn outcome(f: fn() -> Toks) -> (String, String, Vec<i64>) {
    let t = f();
    let mut imps = t.walk_imports().map(|i| i.0).collect::<Vec<_>>();
    imps.sort();
    let mut w = fmt::FmtWriter::new(String::new());
    let c = fmt::Config::from_lang::<Tl>().with_indentation(fmt::Indentation::Space(3));
    match t.format(&mut w.as_formatter(&c), &(), &()) {
        Ok(()) => ("ok".into(), w.into_inner(), imps),
        Err(_) => ("err".into(), String::new(), imps),
    }
}

/// Run the cases and write what was observed, one line each.
pub fn run(cases: &[(u32, fn() -> Toks)]) {
    std::panic::set_hook(Box::new(|_| ()));
    let mut all = String::new();
    let sync = std::env::var_os("GMAC_SYNC").is_some();
    for (id, f) in cases {
        LOG.with(|l| l.borrow_mut().clear());
        let r = std::panic::catch_unwind(|| outcome(*f));
        let (res, out, imps) = r.unwrap_or_else(|_| ("panic".into(), String::new(), Vec::new()));
        let log = LOG.with(|l| l.borrow().clone());
        writeln!(all, "{{\"id\":{id},\"res\":\"{res}\",\"out\":{},\"log\":{},\"imps\":{}}}", cps(&out), nums(&log), nums(&imps)).unwrap();
        if sync {
            print!("{all}");
            std::io::stdout().flush().unwrap();
            all.clear();
        }
    }
    print!("{all}");
}
