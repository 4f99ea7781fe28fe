//! Executes op programs (NDJSON) against the real genco crate and records what
//! can be observed through its public API (NDJSON).
mod hooks;
mod langs;
mod tl;

use std::borrow::Cow;
use std::fmt::Write as _;
use std::io::{self, BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use genco::fmt;
use genco::lang::Lang;
use genco::prelude::*;
use genco::tokens::{self, from_fn, quoted, static_literal, Item, ItemStr};
use genco::Tokens;
use serde_json::{json, Value};

pub trait HL: Lang + Ord + std::hash::Hash {
    /// Add the import described by `d` in the given way.
    fn add(cx: &Ctx<Self>, t: &mut Tokens<Self>, d: &Value, how: &str);
    fn add_tuple(_: &Ctx<Self>, _: &mut Tokens<Self>, _: &[&Value], _: &str) {
        panic!("harness: tuples are not supported")
    }
    fn config(v: &Value) -> Self::Config;
    fn format(_: &Value) -> Self::Format {
        Self::Format::default()
    }
    fn comment(_: &mut Tokens<Self>, _: &str, _: Vec<String>) {
        panic!("harness: comments are not supported")
    }
}

pub use genco::tokens::register;

pub fn put<L: Lang, T: FormatInto<L>>(t: &mut Tokens<L>, e: T) {
    quote_in!(*t => $e)
}

pub fn tup<L: Lang, T: tokens::Register<L>>(t: &mut Tokens<L>, how: &str, e: T) {
    if how == "fn" {
        t.append(register(e))
    } else {
        t.register(e)
    }
}

pub struct Ctx<L: Lang> {
    pub imps: Vec<Value>,
    pub table: Vec<L::Item>,
}

pub fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a
            .iter()
            .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("harness: char"))
            .collect(),
        _ => panic!("harness: bad text {v}"),
    }
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

/// An iterator with a bound of its own.
struct Hint<I>(I, Option<usize>);

impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.1)
    }
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

thread_local! { static REPR: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

/// The same text, each time kept in another way.
pub fn repr(s: String) -> ItemStr {
    let n = REPR.get();
    REPR.set(n + 1);
    match n % 5 {
        0 | 3 => ItemStr::from(s),
        1 | 2 => ItemStr::Static(leak(s)),
        _ => ItemStr::from(&*s),
    }
}

/// an iterator which knows nothing about its size
pub fn lazy(lines: &[String]) -> impl Iterator<Item = &str> {
    let mut it = lines.iter();
    std::iter::from_fn(move || it.next().map(|l| &**l))
}

pub fn leak_all(v: &[String]) -> Vec<genco::tokens::ItemStr> {
    v.iter().map(|s| ItemStr::Static(leak(s.clone()))).collect()
}

/// Add an import by means of an item which was taken from (or made for) another
/// place of some stream.
pub fn raw_item<L: HL>(t: &mut Tokens<L>, how: &str, e: impl genco::tokens::FormatInto<L>) {
    let mut x = Tokens::new();
    x.append(e);
    let (n, b) = match x.into_iter().next() {
        Some(Item::Lang(n, b) | Item::Register(n, b)) => (n, b),
        _ => panic!("harness: no item"),
    };
    let item = |n| if how.contains("reg") { Item::Register(n, b.clone()) } else { Item::Lang(n, b.clone()) };
    match how.rsplit('_').next().unwrap() {
        "same" => t.append(item(n)),
        "one" => t.append(item(1)),
        "far" => t.append(item(1000)),
        "max" => t.append(item(usize::MAX)),
        "ext" => t.extend([item(2)]),
        "extref" => t.extend([item(3)].iter().cloned()),
        "vec" => t.append(vec![item(4)]),
        "collect" => t.append([item(1)].into_iter().collect::<Tokens<L>>()),
        "clone" => t.append([item(5)].iter().collect::<Tokens<L>>().clone()),
        h => panic!("harness: bad item kind {h}"),
    }
}

fn put_text<L: HL>(t: &mut Tokens<L>, s: String, how: &str) {
    macro_rules! num {
        ($ty:ty) => {{
            let n: $ty = s.parse().expect("harness: number");
            t.append(n)
        }};
    }
    match how {
        "" | "str" => t.append(&*s),
        "String" => t.append(s),
        "&String" => t.append(&s),
        "Rc" => t.append(Rc::new(s)),
        "&Rc" => t.append(&Rc::new(s)),
        "cow_b" => t.append(Cow::Borrowed(&*s)),
        "cow_o" => t.append(Cow::<'_, str>::Owned(s)),
        "&cow_b" => t.append(&Cow::Borrowed(&*s)),
        "&cow_o" => t.append(&Cow::<'_, str>::Owned(s)),
        "args" => t.append(format_args!("{}", s)),
        "args2" => {
            let (a, b) = s.split_at(s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0));
            t.append(format_args!("{a}{b}"))
        }
        "static" => t.append(static_literal(leak(s))),
        "display" => t.append(tokens::display(s)),
        "item_box" => t.append(Item::Literal(ItemStr::Box(s.into()))),
        "item_static" => t.append(Item::Literal(ItemStr::Static(leak(s)))),
        "itemstr" => t.append(ItemStr::Box(s.into())),
        "&itemstr" => t.append(&ItemStr::Static(leak(s))),
        "from_box" => t.append(ItemStr::from(s.into_boxed_str())),
        "from_&itemstr" => t.append(ItemStr::from(&ItemStr::Box(s.into()))),
        "from_&String" => t.append(ItemStr::from(&s)),
        "from_String" => t.append(ItemStr::from(s)),
        "from_str" => t.append(ItemStr::from(&*s)),
        "from_&str" => t.append(ItemStr::from(&&*s)),
        "from_cow" => t.append(ItemStr::from(Cow::Borrowed(&*s))),
        "from_&cow" => t.append(ItemStr::from(&Cow::<'_, str>::Owned(s))),
        "from_cow_o" => t.append(ItemStr::from(Cow::<'_, str>::Owned(s))),
        "from_&cow_b" => t.append(ItemStr::from(&Cow::Borrowed(&*s))),
        "as_ref" => t.append(AsRef::<str>::as_ref(&ItemStr::Static(leak(s)))),
        "as_ref_box" => t.append(AsRef::<str>::as_ref(&ItemStr::from(s))),
        "deref" => t.append(&*ItemStr::from(s)),
        "itemstr_display" => t.append(tokens::display(ItemStr::Static(leak(s)))),
        "from_Rc" => t.append(ItemStr::from(Rc::new(s))),
        "quote" => quote_in!(*t => $s),
        "quoteref" => quote_in!(*t => $(&s)),
        "u8" => num!(u8),
        "u16" => num!(u16),
        "u32" => num!(u32),
        "u64" => num!(u64),
        "u128" => num!(u128),
        "i8" => num!(i8),
        "i16" => num!(i16),
        "i32" => num!(i32),
        "i64" => num!(i64),
        "i128" => num!(i128),
        "isize" => num!(isize),
        "usize" => num!(usize),
        "disp_bool" => t.append(tokens::display(s.parse::<bool>().unwrap())),
        "disp_char" => t.append(tokens::display(s.chars().next().unwrap())),
        "disp_f64" => t.append(tokens::display(s.parse::<f64>().unwrap())),
        "fmt_pad" => {
            // a Display implementation which writes itself in several pieces
            struct Pieces(String);
            impl std::fmt::Display for Pieces {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    for c in self.0.chars() {
                        f.write_char(c)?;
                    }
                    Ok(())
                }
            }
            t.append(tokens::display(Pieces(s)))
        }
        _ => panic!("harness: bad text kind {how}"),
    }
}

fn sub<L: HL>(cx: &Ctx<L>, prog: &Value) -> Tokens<L> {
    let mut t = Tokens::new();
    run(cx, &mut t, prog);
    t
}

pub fn run<L: HL>(cx: &Ctx<L>, t: &mut Tokens<L>, prog: &Value) {
    for op in prog.as_array().expect("harness: prog") {
        exec(cx, t, op);
    }
}

fn nest<L: HL>(cx: &Ctx<L>, t: &mut Tokens<L>, how: &str, c: &[Value]) {
    let one = |i: usize| sub::<L>(cx, &c[i]);
    let all = || c.iter().map(|p| sub::<L>(cx, p)).collect::<Vec<_>>();
    match how {
        "tokens" => t.append(one(0)),
        "&tokens" => t.append(&one(0)),
        "clone" => t.append(one(0).clone()),
        "opt" => t.append(Some(one(0))),
        "&opt" => {
            let x = one(0);
            t.append(Some(&x))
        }
        "none" => t.append(None::<Tokens<L>>),
        "optopt" => t.append(Some(Some(one(0)))),
        "optnone" => t.append(Some(None::<Tokens<L>>)),
        "vec" => t.append(all()),
        "&vec" => t.append(&all()),
        "vecref" => {
            let v = all();
            t.append(v.iter().collect::<Vec<&Tokens<L>>>())
        }
        "slice" => t.append(&all()[..]),
        "cow_b" => {
            let v = all();
            t.append(Cow::Borrowed(&v[..]))
        }
        "cow_o" => t.append(Cow::<'_, [Tokens<L>]>::Owned(all())),
        "&cow_b" => {
            let v = all();
            t.append(&Cow::Borrowed(&v[..]))
        }
        "&cow_o" => t.append(&Cow::<'_, [Tokens<L>]>::Owned(all())),
        "vec_opt" => t.append(all().into_iter().map(Some).collect::<Vec<_>>()),
        "vecvec" => t.append(vec![all(), Vec::new()]),
        "from_fn" => t.append(from_fn(|t| {
            for p in c {
                run(cx, t, p);
            }
        })),
        "quote_fn" => {
            let x = one(0);
            let f = quote_fn! { $x };
            t.append(f)
        }
        "quote" => {
            let x = one(0);
            let q: Tokens<L> = quote! { $x };
            t.append(q)
        }
        "quote_in" => {
            let x = one(0);
            quote_in!(*t => $x)
        }
        "quote_in_ref" => quote_in!(*t => $(ref t => { for p in c { run(cx, t, p); } })),
        "quoted" => t.append(quoted(one(0))),
        "quoted&" => t.append(quoted(&one(0))),
        "quotedvec" => t.append(quoted(all())),
        "quotedopt" => t.append(quoted(Some(one(0)))),
        "quotedfn" => t.append(quoted(from_fn(|t| {
            for p in c {
                run(cx, t, p);
            }
        }))),
        "extend_own" => t.extend(one(0)),
        "extend_iter" => {
            let x = one(0);
            t.extend(x.iter().cloned());
        }
        "extend_vec" => {
            let v = one(0).into_iter().collect::<Vec<Item<L>>>();
            t.extend(v);
        }
        "collect_own" => t.append(one(0).into_iter().collect::<Tokens<L>>()),
        "collect_ref" => t.append(one(0).iter().collect::<Tokens<L>>()),
        "collect_refinto" => {
            let x = one(0);
            t.append((&x).into_iter().collect::<Tokens<L>>())
        }
        "collect_chunks" => {
            // collect all fragments into one stream
            t.append(
                all()
                    .into_iter()
                    .flat_map(|t| t.into_iter())
                    .collect::<Tokens<L>>(),
            )
        }
        "collect_tail" | "extend_tail" | "collect_tailref" => {
            // the items of the fragment where it follows something else
            let mut x = Tokens::new();
            for (n, i) in cx.imps.iter().enumerate() {
                L::add(cx, &mut x, i, if n % 2 == 0 { "ref" } else { "reg" });
            }
            x.append("x");
            let k = x.iter().count();
            run(cx, &mut x, &c[0]);
            match how {
                "collect_tail" => t.append(x.into_iter().skip(k).collect::<Tokens<L>>()),
                "collect_tailref" => t.append(x.iter().skip(k).collect::<Tokens<L>>()),
                _ => t.extend(x.into_iter().skip(k)),
            }
        }
        // iterators are free to say that there may be very many items
        "collect_wide" => t.append(Hint(one(0).into_iter(), Some(usize::MAX)).collect::<Tokens<L>>()),
        "collect_wideref" => t.append(Hint(one(0).iter(), Some(usize::MAX)).collect::<Tokens<L>>()),
        "extend_wide" => t.extend(Hint(one(0).into_iter(), Some(usize::MAX))),
        "extend_nohint" => t.extend(Hint(one(0).into_iter(), None)),
        "collect_nohint" => t.append(Hint(one(0).into_iter(), None).collect::<Tokens<L>>()),
        "items" => {
            for it in one(0) {
                t.append(it);
            }
        }
        "vec_items" => t.append(one(0).into_iter().collect::<Vec<Item<L>>>()),
        "slice_items" => t.append(&one(0).iter().cloned().collect::<Vec<Item<L>>>()[..]),
        "with_capacity" => {
            let mut x = Tokens::with_capacity(c.len());
            run(cx, &mut x, &c[0]);
            t.append(x)
        }
        _ => panic!("harness: bad container {how}"),
    }
}

fn exec<L: HL>(cx: &Ctx<L>, t: &mut Tokens<L>, op: &Value) {
    let how = op["how"].as_str().unwrap_or("");
    let n = op["n"].as_i64().unwrap_or(0);
    let imp = |n: i64| &cx.imps[(n - 1) as usize];
    match op["k"].as_str().expect("harness: op") {
        "t" => put_text(t, text(&op["s"]), how),
        "sp" if how == "item" => t.append(Item::Space),
        "pu" if how == "item" => t.append(Item::Push),
        "li" if how == "item" => t.append(Item::Line),
        "sp" if how == "quote" => quote_in!(*t => $[' ']),
        "pu" if how == "quote" => quote_in!(*t => $['\r']),
        "li" if how == "quote" => quote_in!(*t => $['\n']),
        "sp" => t.space(),
        "pu" => t.push(),
        "li" => t.line(),
        "ind" if how == "api" && n == 1 => t.indent(),
        "ind" if how == "api" && n == -1 => t.unindent(),
        "ind" => t.append(Item::Indentation(n as i16)),
        "oq" => t.append(Item::OpenQuote(n != 0)),
        "cq" => t.append(Item::CloseQuote),
        "oe" => t.append(Item::OpenEval),
        "ce" => t.append(Item::CloseEval),
        "ref" => L::add(cx, t, imp(n), if how.is_empty() { "ref" } else { how }),
        "reg" => L::add(cx, t, imp(n), if how.is_empty() { "reg" } else { how }),
        "regs" => {
            let v = op["c"].as_array().unwrap();
            let v = v.iter().map(|n| imp(n.as_i64().unwrap())).collect::<Vec<_>>();
            L::add_tuple(cx, t, &v, how)
        }
        "nest" => nest(cx, t, how, op["c"].as_array().unwrap()),
        "comment" => {
            let lines = op["c"].as_array().unwrap().iter().map(text).collect();
            L::comment(t, how, lines)
        }
        "id" => match how {
            "clone" => *t = t.clone(),
            "collect_ref" => *t = t.iter().collect(),
            "collect_own" => *t = std::mem::take(t).into_iter().collect(),
            "extend" => {
                let mut x = Tokens::new();
                x.extend(std::mem::take(t));
                *t = x;
            }
            _ => panic!("harness: bad id"),
        },
        k => panic!("harness: bad op {k}"),
    }
}

fn index<L: HL>(cx: &Ctx<L>, item: &L::Item) -> usize {
    if let Some(n) = cx.table.iter().position(|i| i == item) {
        return n + 1;
    }
    // whether equal texts are equal is not the question here
    let show = |i: &L::Item| format!("{i:?}").replace("Static(", "Box(");
    let it = show(item);
    cx.table.iter().position(|i| show(i) == it).map_or(0, |n| n + 1)
}

fn proj<L: HL>(cx: &Ctx<L>, item: &Item<L>) -> Value {
    let r = |k: &str, n: i64| json!({"k": k, "n": n, "s": []});
    match item {
        Item::Literal(s) => json!({"k": "t", "n": 0, "s": cps(s)}),
        Item::Lang(_, i) => r("ref", index(cx, i) as i64),
        Item::Register(_, i) => r("reg", index(cx, i) as i64),
        Item::Push => r("pu", 0),
        Item::Line => r("li", 0),
        Item::Space => r("sp", 0),
        Item::Indentation(n) => r("ind", *n as i64),
        Item::OpenQuote(e) => r("oq", *e as i64),
        Item::CloseQuote => r("cq", 0),
        Item::OpenEval => r("oe", 0),
        Item::CloseEval => r("ce", 0),
    }
}

fn imports<L: HL>(cx: &Ctx<L>, t: &Tokens<L>) -> Value {
    // NB: bounded, so that a cycle is an observation.
    let lim = t.iter().count() + 2;
    t.walk_imports()
        .take(lim)
        .map(|i| json!(index(cx, i)))
        .collect::<Vec<_>>()
        .into()
}

pub fn fmt_config<L: HL>(v: &Value) -> fmt::Config {
    let mut c = fmt::Config::from_lang::<L>();
    // the order in which a configuration is built must not matter
    let nl_first = v["nlfirst"].as_bool().unwrap_or(false);
    if nl_first {
        if let Some(nl) = v.get("nl") {
            c = c.with_newline(leak(text(nl)));
        }
    }
    match v["ind"].as_i64() {
        None => {}
        Some(-1) => c = c.with_indentation(fmt::Indentation::Tab),
        Some(n) => c = c.with_indentation(fmt::Indentation::Space(n as usize)),
    }
    if !nl_first {
        if let Some(nl) = v.get("nl") {
            c = c.with_newline(leak(text(nl)));
        }
    }
    c
}

#[derive(Default)]
struct Sink {
    sched: Vec<Value>,
    pos: usize,
    data: Vec<u8>,
    calls: Vec<Value>,
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let step = self.sched.get(self.pos).cloned();
        self.pos += 1;
        let (a, n) = match &step {
            None => ("acc", buf.len()),
            Some(s) => (
                s["a"].as_str().unwrap(),
                usize::min(s["n"].as_u64().unwrap_or(0) as usize, buf.len()),
            ),
        };
        let got = if a == "acc" { n } else { 0 };
        self.calls.push(json!({"a": a, "len": buf.len(), "n": got}));
        match a {
            "acc" => {
                self.data.extend(&buf[..n]);
                Ok(n)
            }
            "zero" => Ok(0),
            "int" => Err(io::ErrorKind::Interrupted.into()),
            "err" => Err(io::ErrorKind::Other.into()),
            "block" => Err(io::ErrorKind::WouldBlock.into()),
            _ => panic!("harness: bad schedule"),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.calls.push(json!({"a": "flush", "len": 0, "n": 0}));
        Ok(())
    }
}

struct FmtSink {
    sched: Vec<Value>,
    pos: usize,
    data: String,
    calls: Vec<Value>,
}

impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let a = match self.sched.get(self.pos) {
            Some(x) if x["a"] == "err" => "err",
            _ => "acc",
        };
        self.pos += 1;
        let n = if a == "acc" { s.len() } else { 0 };
        self.calls.push(json!({"a": a, "len": s.len(), "n": n}));
        if a == "err" {
            return Err(std::fmt::Error);
        }
        self.data.push_str(s);
        Ok(())
    }
}

fn res<T, E>(r: &Result<T, E>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}

fn bytes(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => cps(s),
        // an incomplete code point at the end: keep the raw bytes negated
        Err(e) => {
            let (a, z) = b.split_at(e.valid_up_to());
            let mut v = std::str::from_utf8(a).unwrap().chars().map(|c| json!(c as u32)).collect::<Vec<_>>();
            v.extend(z.iter().map(|b| json!(-(*b as i64))));
            v.into()
        }
    }
}

fn lines(v: Vec<String>) -> Value {
    v.iter().map(|s| cps(s)).collect::<Vec<_>>().into()
}

/// Write text directly.
fn direct(w: &mut dyn std::fmt::Write, p: &Value) -> fmt::Result {
    let s = text(&p["s"]);
    match p["how"].as_str().unwrap() {
        "str" => w.write_str(&s),
        "chars" => s.chars().try_for_each(|c| w.write_char(c)),
        "fmt" => w.write_fmt(format_args!("{}{}", "", s)),
        k => panic!("harness: bad direct {k}"),
    }
}

/// Several renderings through the same writer, and those in between "new" and
/// "raw" through the same formatter.
macro_rules! chain {
    ($cx:expr, $L:ty, $w:ident, $fc:expr, $cfg:expr, $parts:expr) => {{
        let format = <$L as Lang>::Format::default();
        let mut x = Ok(());
        let mut parts = $parts.iter().peekable();
        while parts.peek().is_some() && x.is_ok() {
            let mut f = $w.as_formatter($fc);
            let mut raw = None;
            for p in parts.by_ref() {
                let build = || {
                    let mut t = Tokens::<$L>::new();
                    for op in p["p"].as_array().unwrap() {
                        exec($cx, &mut t, op);
                    }
                    t
                };
                x = match p["k"].as_str().unwrap() {
                    "fmt" => build().format(&mut f, $cfg, &format),
                    "file" => build().format_file(&mut f, $cfg),
                    "w" => direct(&mut f, p),
                    "new" => break,
                    "raw" => {
                        raw = Some(p);
                        break;
                    }
                    k => panic!("harness: bad part {k}"),
                };
                if x.is_err() {
                    break;
                }
            }
            drop(f);
            if let Some(p) = raw {
                x = direct(&mut $w, p);
            }
        }
        x
    }};
}

fn render<L: HL>(cx: &Ctx<L>, t: &Tokens<L>, r: &Value) -> Value
where
    L::Config: Sized,
{
    let fc = fmt_config::<L>(r);
    let cfg = L::config(&r["cfg"]);
    let format = L::format(&r["format"]);
    let file = r["file"].as_bool().unwrap_or(false);
    let go = |f: &mut fmt::Formatter<'_>| {
        if file {
            t.format_file(f, &cfg)
        } else {
            t.format(f, &cfg, &format)
        }
    };
    match r["w"].as_str().unwrap_or("fmt") {
        "fmt" => {
            let mut w = fmt::FmtWriter::new(String::new());
            let x = go(&mut w.as_formatter(&fc));
            json!({"res": res(&x), "out": cps(&w.into_inner())})
        }
        "io" => {
            let mut w = fmt::IoWriter::new(Vec::<u8>::new());
            let x = go(&mut w.as_formatter(&fc));
            json!({"res": res(&x), "out": bytes(&w.into_inner())})
        }
        "vec" => {
            let mut w = fmt::VecWriter::new();
            let x = go(&mut w.as_formatter(&fc));
            json!({"res": res(&x), "lines": lines(w.into_vec())})
        }
        "sink" => {
            let mut w = fmt::IoWriter::new(Sink {
                sched: r["sched"].as_array().cloned().unwrap_or_default(),
                ..Sink::default()
            });
            let x = go(&mut w.as_formatter(&fc));
            let s = w.into_inner();
            json!({"res": res(&x), "bytes": s.data, "calls": s.calls})
        }
        "fmtsink" => {
            let mut w = fmt::FmtWriter::new(FmtSink {
                sched: r["sched"].as_array().cloned().unwrap_or_default(),
                pos: 0,
                data: String::new(),
                calls: Vec::new(),
            });
            let x = go(&mut w.as_formatter(&fc));
            let s = w.into_inner();
            json!({"res": res(&x), "bytes": s.data.as_bytes(), "calls": s.calls})
        }
        "chain" => {
            let parts = r["parts"].as_array().unwrap();
            match r["on"].as_str().unwrap() {
                "fmt" => {
                    let mut w = fmt::FmtWriter::new(String::new());
                    let x = chain!(cx, L, w, &fc, &cfg, parts);
                    json!({"res": res(&x), "out": cps(&w.into_inner())})
                }
                "io" => {
                    let mut w = fmt::IoWriter::new(Vec::<u8>::new());
                    let x = chain!(cx, L, w, &fc, &cfg, parts);
                    json!({"res": res(&x), "out": bytes(&w.into_inner())})
                }
                "vec" => {
                    let mut w = fmt::VecWriter::new();
                    let x = chain!(cx, L, w, &fc, &cfg, parts);
                    json!({"res": res(&x), "lines": lines(w.into_vec())})
                }
                k => panic!("harness: bad writer {k}"),
            }
        }
        k => panic!("harness: bad writer {k}"),
    }
}

fn default_render<L: HL>(t: &Tokens<L>, w: &str) -> Option<Value>
where
    L::Config: Default,
{
    let s = |r: fmt::Result<String>| match r {
        Ok(s) => json!({"res": "ok", "out": cps(&s)}),
        Err(_) => json!({"res": "err", "out": []}),
    };
    let v = |r: fmt::Result<Vec<String>>| match r {
        Ok(v) => json!({"res": "ok", "lines": lines(v)}),
        Err(_) => json!({"res": "err", "lines": []}),
    };
    Some(match w {
        "to_string" => s(t.to_string()),
        "to_vec" => v(t.to_vec()),
        "to_file_string" => s(t.to_file_string()),
        "to_file_vec" => v(t.to_file_vec()),
        _ => return None,
    })
}

/// Other ways to look at a stream: what its iterators yield and announce, and
/// what it is equal to.
fn views<L: HL>(cx: &Ctx<L>, t: &Tokens<L>) -> Value {
    fn walk<T>(mut it: impl Iterator<Item = T>, mut f: impl FnMut(T) -> Value, lim: usize) -> (Value, Value) {
        let (mut items, mut hints) = (Vec::new(), Vec::new());
        for _ in 0..lim {
            let (lo, hi) = it.size_hint();
            hints.push(json!([lo, hi.map_or(-1, |n| n as i64)]));
            match it.next() {
                Some(i) => items.push(f(i)),
                None => break,
            }
        }
        (items.into(), hints.into())
    }
    let lim = t.iter().count() + 2;
    let own = walk(t.clone().into_iter(), |i| proj(cx, &i), lim);
    let by_ref = walk(t.into_iter(), |i| proj(cx, i), lim);
    let iter = walk(t.iter(), |i| proj(cx, i), lim);
    let same = t.iter().cloned().collect::<Vec<_>>();
    let mut longer = same.clone();
    longer.push(Item::Space);
    let mut others = vec![longer];
    if !same.is_empty() {
        others.push(same[1..].to_vec());
        others.push(same[..same.len() - 1].to_vec());
        let mut other = same.clone();
        let k = other.len() / 2;
        other[k] = Item::Literal(ItemStr::Static("\u{1}other"));
        others.push(other);
    }
    // other streams, and whether they are equal
    let hash = |t: &Tokens<L>| {
        use std::hash::{BuildHasher, BuildHasherDefault};
        BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(t)
    };
    let alter = |k: usize, f: &dyn Fn(&Item<L>) -> Option<Item<L>>| {
        same.iter().enumerate().filter_map(|(n, i)| if n == k { f(i) } else { Some(i.clone()) }).collect::<Tokens<L>>()
    };
    let mut streams = vec![t.clone(), same.iter().collect(), same.iter().cloned().collect()];
    for k in (0..same.len()).take(8) {
        streams.push(alter(k, &|_| None));
        streams.push(alter(k, &|i| Some(match i {
            Item::Literal(ItemStr::Box(s)) => Item::Literal(ItemStr::Static(leak(s.to_string()))),
            Item::Literal(s) => Item::Literal(ItemStr::Box((**s).into())),
            Item::Lang(_, i) => Item::Register(7, i.clone()),
            Item::Register(_, i) => Item::Lang(7, i.clone()),
            Item::Indentation(n) => Item::Indentation(n.wrapping_neg()),
            Item::OpenQuote(e) => Item::OpenQuote(!e),
            Item::Push => Item::Line,
            Item::Line => Item::Space,
            Item::Space => Item::Push,
            Item::OpenEval => Item::CloseQuote,
            Item::CloseQuote => Item::CloseEval,
            Item::CloseEval => Item::OpenEval,
        })));
    }
    let same_as = streams.iter().map(|s| {
        let items = s.iter().map(|i| proj(cx, i)).collect::<Vec<_>>();
        let (e, o) = ([*s == *t, *t == *s, !(*s != *t)], [s.cmp(t).is_eq(), t.partial_cmp(s) == Some(std::cmp::Ordering::Equal)]);
        json!({"items": items, "eq": [e[0], e[1], e[2], o[0], o[1]], "hash": hash(s) == hash(t)})
    }).collect::<Vec<_>>();
    let eq = |v: &Vec<Item<L>>| json!([*t == *v, *v == *t, *t == v[..], v[..] == *t]);
    json!({"items": [own.0, by_ref.0, iter.0], "hints": [own.1, by_ref.1, iter.1], "eq": eq(&same), "same": same_as,
           "ne": others.iter().map(eq).collect::<Vec<_>>()})
}

fn case<L: HL>(v: &Value) -> Value
where
    L::Config: Default,
{
    REPR.set(0);
    let mut cx = Ctx::<L> {
        imps: v["imps"].as_array().cloned().unwrap_or_default(),
        table: Vec::new(),
    };
    for d in cx.imps.clone() {
        let mut t = Tokens::<L>::new();
        L::add(&cx, &mut t, &d, "ref");
        let i = t.walk_imports().next().expect("harness: import").clone();
        cx.table.push(i);
    }
    let mut t = Tokens::<L>::new();
    let mut steps = Vec::new();
    let prog = v["prog"].as_array().expect("harness: prog");
    let tr = v["tr"].as_bool().unwrap_or(false);
    for op in prog {
        exec(&cx, &mut t, op);
        if tr {
            let items = t.iter().map(|i| proj(&cx, i)).collect::<Vec<_>>();
            steps.push(json!({"items": items, "imps": imports(&cx, &t), "empty": t.is_empty()}));
        }
    }
    if let Some(s) = steps.last_mut() {
        s["views"] = views(&cx, &t);
    }
    let mut o = serde_json::Map::new();
    if tr {
        o.insert("steps".into(), steps.into());
    }
    if v["fin"].as_bool().unwrap_or(false) {
        let items = t.iter().map(|i| proj(&cx, i)).collect::<Vec<_>>();
        o.insert("items".into(), items.into());
        o.insert("imps".into(), imports(&cx, &t));
    }
    let mut rs = Vec::new();
    for r in v["renders"].as_array().map_or(&[][..], |v| &v[..]) {
        let w = r["w"].as_str().unwrap_or("fmt");
        hooks::start(r["fail"].as_u64().unwrap_or(0));
        let x = catch_unwind(AssertUnwindSafe(|| {
            default_render(&t, w).unwrap_or_else(|| render(&cx, &t, r))
        }));
        let (log, failed) = hooks::log();
        rs.push(match x {
            Ok(mut x) => {
                if v["lang"] == "tr" || v["lang"] == "td" {
                    x["log"] = log;
                    x["failed"] = failed.into();
                }
                x
            }
            Err(e) => json!({"res": "panic", "out": [], "lines": [], "bytes": [], "calls": [], "msg": msg(&*e)}),
        });
    }
    o.insert("renders".into(), rs.into());
    o.into()
}

fn msg(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

fn dispatch(v: &Value) -> Value {
    use genco::lang::*;
    match v["lang"].as_str().expect("harness: lang") {
        "tl" => case::<tl::Tl>(v),
        "tl2" => case::<tl::plain::Tp>(v),
        "tr" => case::<hooks::full::Tr>(v),
        "td" => case::<hooks::part::Td>(v),
        "c" => case::<C>(v),
        "csharp" => case::<Csharp>(v),
        "dart" => case::<Dart>(v),
        "go" => case::<Go>(v),
        "java" => case::<Java>(v),
        "js" => case::<JavaScript>(v),
        "nix" => case::<Nix>(v),
        "python" => case::<Python>(v),
        "rust" => case::<Rust>(v),
        "swift" => case::<Swift>(v),
        l => panic!("harness: bad lang {l}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let mut out = io::BufWriter::new(io::stdout().lock());
    let sync = std::env::var_os("GENCOH_SYNC").is_some();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).expect("harness: json");
        let o = match catch_unwind(AssertUnwindSafe(|| dispatch(&v))) {
            Ok(o) => o,
            Err(e) => {
                let m = msg(&*e);
                if m.starts_with("harness:") {
                    eprintln!("{m}: {line}");
                    std::process::exit(3);
                }
                json!({"panic": m})
            }
        };
        serde_json::to_writer(&mut out, &o).unwrap();
        out.write_all(b"\n").unwrap();
        if sync {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
