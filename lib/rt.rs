// Support code of the generated programs: data, tracing functions, custom filters, execution.
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Item { pub name: String, pub qty: i64, pub on: bool, pub tags: Vec<String> }
impl Item {
    /// A method without arguments that has an effect
    pub fn tick(&self) -> i64 { log(99_001); self.qty }
}
#[derive(Clone, Debug)]
pub struct P2 { pub x: i64, pub y: String }
#[derive(Clone, Debug)]
pub enum En { A, B(i64), C { x: i64, y: String } }

thread_local!(static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()));
pub fn log(id: u32) { LOG.with(|l| l.borrow_mut().push(id)) }

pub trait ToI { fn i(&self) -> i64; }
impl ToI for i64 { fn i(&self) -> i64 { *self } }
impl ToI for i32 { fn i(&self) -> i64 { *self as i64 } }
impl ToI for usize { fn i(&self) -> i64 { *self as i64 } }
impl<T: ToI + ?Sized> ToI for &T { fn i(&self) -> i64 { (**self).i() } }
pub trait ToB { fn b(&self) -> bool; }
impl ToB for bool { fn b(&self) -> bool { *self } }
impl<T: ToB + ?Sized> ToB for &T { fn b(&self) -> bool { (**self).b() } }

/// Tracing functions: every evaluation is recorded with its number.
pub mod t {
    use super::*;
    pub fn i(id: u32, v: impl ToI) -> i64 { log(id); v.i() }
    pub fn b(id: u32, v: impl ToB) -> bool { log(id); v.b() }
    pub fn s(id: u32, v: impl fmt::Display) -> String { log(id); v.to_string() }
    pub fn ok(id: u32, v: impl ToI) -> Result<i64, MyErr> { log(id); if v.i() > 0 { Ok(v.i()) } else { Err(MyErr(id)) } }
    pub fn fail(id: u32) -> Fail { log(id); Fail }
    /// For indices
    pub fn u(id: u32, v: impl ToI) -> usize { log(id); v.i() as usize }
    pub fn n(v: impl ToI) -> i64 { v.i() }
    pub fn bb(v: impl ToB) -> bool { v.b() }
    pub fn ss(v: impl fmt::Display) -> String { v.to_string() }
    pub fn p2(x: impl ToI, y: impl fmt::Display) -> P2 { P2 { x: x.i(), y: y.to_string() } }
    pub fn chunks(v: impl fmt::Display) -> Chunks { Chunks(v.to_string()) }
    /// Displays a dot, and calls what is set, but not recursively
    pub fn hook() -> Hook { Hook }
    pub struct Hook;
    thread_local!(static HOOK: RefCell<Option<*const dyn Fn()>> = RefCell::new(None));
    impl fmt::Display for Hook {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if let Some(h) = HOOK.with(|h| h.borrow_mut().take()) {
                // SAFETY: `hooked` is still running
                unsafe { (*h)() };
                HOOK.with(|x| *x.borrow_mut() = Some(h));
            }
            f.write_str("\u{b7}")
        }
    }
    pub fn hooked<R>(h: &dyn Fn(), f: impl FnOnce() -> R) -> R {
        // SAFETY: only the lifetime is changed, and the hook is removed below
        let p: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(h as *const dyn Fn()) };
        HOOK.with(|x| *x.borrow_mut() = Some(p));
        let r = f();
        HOOK.with(|x| *x.borrow_mut() = None);
        r
    }
    /// Counts to `n`, ends, and would start again with something else
    pub fn again(n: impl ToI) -> Again { Again(n.i(), 0) }
    pub struct Again(i64, i64);
    impl Iterator for Again {
        type Item = i64;
        fn next(&mut self) -> Option<i64> {
            self.1 += 1;
            if self.1 == self.0 + 1 { None } else if self.1 > 40 { None } else { Some(self.1) }
        }
    }
    /// Yields the values, but tells nothing, or little, of their number
    pub fn hints(v: &[i64]) -> Hints { Hints(v.to_vec(), 0) }
    pub struct Hints(Vec<i64>, usize);
    impl Iterator for Hints {
        type Item = i64;
        fn next(&mut self) -> Option<i64> { self.1 += 1; self.0.get(self.1 - 1).copied() }
        fn size_hint(&self) -> (usize, Option<usize>) { (0, [None, Some(100)][self.0.len() % 2]) }
    }
    /// A value that cannot be displayed if it is the one
    pub fn but(i: i64, at: i64) -> But { But(i, at) }
    pub struct But(i64, i64);
    impl fmt::Display for But { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.0 == self.1 { Err(fmt::Error) } else { write!(f, "{}", self.0) } } }
    pub fn grid(v: &[i64]) -> Vec<Vec<i64>> { vec![v.to_vec(), vec![1], v.iter().copied().skip(1).collect()] }
    pub fn oks(v: &[i64]) -> Result<Vec<i64>, MyErr> { Ok(v.to_vec()) }
    pub fn p2s(v: &[i64]) -> Vec<P2> { v.iter().map(|x| P2 { x: *x, y: (x + 1).to_string() }).collect() }
    pub fn count(r: impl Iterator<Item = i64>) -> i64 { r.count() as i64 }
    pub fn dbl(x: &i64) -> i64 { x * 2 }
    pub fn neg(x: &i64) -> i64 { -x }
    pub fn unit() {}
    pub fn none() -> Vec<i64> { Vec::new() }
    pub fn tick() -> i64 { log(99_002); 7 }
}
/// A traced macro
#[macro_export]
macro_rules! tm { ($id:literal, $v:expr) => { $crate::rt::t::i($id, &$v) } }

/// A value that cannot be displayed.
#[derive(Clone, Copy)]
pub struct Fail;
impl fmt::Display for Fail { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("part")?; Err(fmt::Error) } }
/// Displays its text one character at a time, by varying calls.
pub struct Chunks(pub String);
impl fmt::Display for Chunks {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        for (n, c) in self.0.chars().enumerate() {
            match n % 3 { 0 => f.write_char(c)?, 1 => f.write_fmt(format_args!("{}", c))?, _ => f.write_str(c.encode_utf8(&mut [0; 4]))? }
        }
        Ok(())
    }
}
#[derive(Debug)]
pub struct MyErr(pub u32);
impl fmt::Display for MyErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "myerr{}", self.0) } }
impl std::error::Error for MyErr {}

/// A text, or the error of what cannot be displayed
pub fn txt(s: impl fmt::Display) -> askama::Result<String> {
    use fmt::Write;
    let mut r = String::new();
    write!(r, "{s}")?;
    Ok(r)
}
pub mod filters {
    pub fn each<'a>(v: impl IntoIterator<Item = &'a i64>) -> askama::Result<Vec<i64>> { Ok(v.into_iter().copied().collect()) }
    use super::txt;
    use std::fmt::Display;
    pub fn wrap(s: impl Display, n: impl Display) -> askama::Result<String> { Ok(format!("[{}:{}]", txt(s)?, txt(n)?)) }
    pub fn tag(s: impl Display) -> askama::Result<String> { Ok(format!("<i>{}</i>", txt(s)?)) }
    pub fn len(s: impl Display) -> askama::Result<usize> { Ok(txt(s)?.len()) }
    pub fn rev(s: impl Display) -> askama::Result<String> { Ok(txt(s)?.chars().rev().collect()) }
    pub fn tf(s: impl Display, id: impl super::ToU) -> askama::Result<String> { super::log(id.u()); txt(s) }
    pub fn bad(_: impl Display, id: impl super::ToU) -> askama::Result<String> { super::log(id.u()); Err(askama::Error::Custom(Box::new(super::MyErr(id.u())))) }
}
pub trait ToU { fn u(&self) -> u32; }
impl ToU for u32 { fn u(&self) -> u32 { *self } }
impl<T: ToU + ?Sized> ToU for &T { fn u(&self) -> u32 { (**self).u() } }

/// An escaper for configured extensions: encloses special characters in square brackets.
pub struct Brackets;
impl askama_escape::Escaper for Brackets {
    fn write_escaped<W: fmt::Write>(&self, mut w: W, s: &str) -> fmt::Result {
        for c in s.chars() {
            match c { '<' | '>' | '&' | '"' | '\'' => write!(w, "[{}]", c as u32)?, c => w.write_char(c)? }
        }
        Ok(())
    }
}

pub fn hex(s: &[u8]) -> String { let mut r = String::from("x"); for b in s { r.push_str(&format!("{b:02x}")); } r }

pub fn err_kind(e: &askama::Error) -> String {
    match e {
        askama::Error::Fmt(_) => "fmt".to_string(),
        askama::Error::Custom(c) => match c.downcast_ref::<MyErr>() { Some(e) => format!("custom{}", e.0), None => "custom?".to_string() },
        _ => "other".to_string(),
    }
}

pub fn report(case: &str, inst: usize, what: &str, r: std::thread::Result<Result<String, askama::Error>>) {
    let log: Vec<String> = LOG.with(|l| std::mem::take(&mut *l.borrow_mut())).iter().map(|i| i.to_string()).collect();
    let (st, text) = match r {
        Ok(Ok(s)) => ("ok".to_string(), s),
        Ok(Err(e)) => (format!("err:{}", err_kind(&e)), String::new()),
        Err(_) => ("panic".to_string(), String::new()),
    };
    println!("R {case} {inst} {what} {st} {} t{}", hex(text.as_bytes()), log.join(","));
}

pub fn exec_as<T: askama::Template>(case: &str, inst: usize, chan: &str, t: &T) {
    report(case, inst, chan, catch_unwind(AssertUnwindSafe(|| t.render())));
}

pub fn exec<T: askama::Template>(case: &str, inst: usize, t: &T) {
    report(case, inst, "render", catch_unwind(AssertUnwindSafe(|| t.render())));
}

pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
