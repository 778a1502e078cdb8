
// Monitors of output channels: writers that record what arrives, and that fail, interrupt or accept little.
use std::fmt::Write as _;
use std::io;

fn bytes(case: &str, inst: usize, chan: &str, st: &str, b: &[u8]) {
    LOG.with(|l| l.borrow_mut().clear());
    println!("R {case} {inst} {chan} {st} {} t", hex(b));
}
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
fn fin<E>(r: Result<Result<(), E>, ()>, kind: impl Fn(E) -> String) -> String {
    match r { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => format!("err:{}", kind(e)), Err(()) => "panic".into() }
}

/// A formatter's target that fails at its `fail`-th call, and, if `once`, accepts all others
pub struct FW { pub got: Vec<u8>, pub calls: usize, pub fail: usize, pub once: bool }
impl FW {
    pub fn new(fail: usize, once: bool) -> FW { FW { got: Vec::new(), calls: 0, fail, once } }
    fn call(&mut self) -> fmt::Result {
        self.calls += 1;
        if self.calls - 1 == self.fail || (!self.once && self.calls > self.fail) { return Err(fmt::Error); }
        Ok(())
    }
}
impl fmt::Write for FW {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.call()?; self.got.extend(s.as_bytes()); Ok(()) }
}
/// Like `FW`, but with methods of its own for characters
pub struct FC(pub FW);
impl fmt::Write for FC {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.0.write_str(s) }
    fn write_char(&mut self, c: char) -> fmt::Result { self.0.call()?; let mut b = [0; 4]; self.0.got.extend(c.encode_utf8(&mut b).as_bytes()); Ok(()) }
}
/// Accepts a number of bytes only, even the first part of a text
pub struct FB { pub got: Vec<u8>, pub room: usize }
impl fmt::Write for FB {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.room);
        self.got.extend(&s.as_bytes()[..n]);
        self.room -= n;
        if n < s.len() { Err(fmt::Error) } else { Ok(()) }
    }
}
/// An `io::Write` that accepts at most `most` bytes at once, is interrupted from time to time, and fails at the
/// `fail`-th byte in some way
pub struct IW { pub got: Vec<u8>, pub most: usize, pub intr: usize, pub calls: usize, pub fail: usize, pub how: u8, pub failed: bool, pub flushed: usize }
impl IW { pub fn new(most: usize, intr: usize, fail: usize, how: u8) -> IW { IW { got: Vec::new(), most, intr, calls: 0, fail, how, failed: false, flushed: 0 } } }
impl io::Write for IW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if b.is_empty() { return Ok(0); }
        if !self.failed && self.got.len() >= self.fail {
            // once only: later writes succeed again
            self.failed = true;
            return match self.how {
                0 => Ok(0),
                1 => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                2 => Err(io::Error::new(io::ErrorKind::Other, MyErr(77))),
                _ => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
            };
        }
        let mut n = b.len().min(self.most);
        if !self.failed { n = n.min(self.fail - self.got.len()); }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed += 1; Ok(()) }
}
/// Forwards everything by all methods the trait has
pub struct IV(pub Vec<u8>);
impl io::Write for IV {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.0.extend(b); Ok(()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn ek(e: askama::Error) -> String { err_kind(&e) }
fn io_k(e: io::Error) -> String { format!("io{:?}", e.kind()) }
fn fmt_k(_: fmt::Error) -> String { "fmt".into() }

/// A wrapper with its own constants, so that the hint of the size may not matter
struct Hint<'a, T, const N: usize>(&'a T);
impl<T: askama::Template, const N: usize> fmt::Display for Hint<'_, T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: askama::Template, const N: usize> askama::Template for Hint<'_, T, N> {
    fn render_into(&self, w: &mut (impl fmt::Write + ?Sized)) -> askama::Result<()> { self.0.render_into(w) }
    const EXTENSION: Option<&'static str> = T::EXTENSION;
    const SIZE_HINT: usize = N;
    const MIME_TYPE: &'static str = T::MIME_TYPE;
}

pub fn channels<T: askama::Template + 'static>(case: &str, inst: usize, t: &T, stride: usize) {
    use askama::{DynTemplate, Template};
    let put = |chan: &str, st: String, b: &[u8]| bytes(case, inst, chan, &st, b);
    macro_rules! text { ($chan:expr, $e:expr) => { match guard(|| $e) {
        Ok(Ok(s)) => put($chan, "ok".into(), s.as_bytes()), Ok(Err(e)) => put($chan, format!("err:{}", ek(e)), b""), Err(()) => put($chan, "panic".into(), b"") } } }
    macro_rules! into { ($chan:expr, $new:expr, $k:expr, |$w:ident| $e:expr) => {{ let mut $w = $new; let st = fin(guard(|| $e), $k); ($chan, st, $w) }} }
    // Everything that gives a text
    text!("render", t.render());
    text!("render_ref", (&t).render());
    text!("render_ref2", Template::render(&&t));
    text!("render_ref3", <&T as Template>::render(&t));
    text!("dyn_render", t.dyn_render());
    text!("dyn_ref", (&t as &dyn DynTemplate).dyn_render());
    text!("hint0", Hint::<T, 0>(t).render());
    text!("hint1", Hint::<T, 1>(t).render());
    text!("hintmax", Hint::<T, { usize::MAX }>(t).render());
    text!("hinthalf", Hint::<T, { isize::MAX as usize }>(t).render());
    text!("again", t.render());
    // Everything that takes a formatter's target
    for (c, st, w) in [
        into!("into", String::new(), ek, |w| t.render_into(&mut w)), into!("into_ref", String::new(), ek, |w| (&t).render_into(&mut w)),
        into!("into_ref2", String::new(), ek, |w| <&&T as Template>::render_into(&&t, &mut w)),
        into!("into_mut", String::new(), ek, |w| t.render_into(&mut &mut w)), into!("into_dyn", String::new(), ek, |w| t.render_into(&mut w as &mut dyn fmt::Write)),
        into!("dyn_into", String::new(), ek, |w| t.dyn_render_into(&mut w)), into!("dyn_into2", String::new(), ek, |w| (&t as &dyn DynTemplate).dyn_render_into(&mut w)),
        into!("display", String::new(), fmt_k, |w| write!(w, "{t}")), into!("display_dyn", String::new(), fmt_k, |w| write!(w, "{}", t as &dyn DynTemplate)),
        into!("display_ref", String::new(), fmt_k, |w| write!(w, "{}", &&t)),
        // a width, a precision or flags mean nothing to a page
        into!("display_wide", String::new(), fmt_k, |w| write!(w, "{t:*^3000}")), into!("display_short", String::new(), fmt_k, |w| write!(w, "{t:.1}")), into!("display_flags", String::new(), fmt_k, |w| write!(w, "{t:+#09.3}")),
        into!("display_dyn_wide", String::new(), fmt_k, |w| write!(w, "{:*^3000}", t as &dyn DynTemplate)), into!("display_dyn_short", String::new(), fmt_k, |w| write!(w, "{:.1}", t as &dyn DynTemplate)),
        into!("display_dyn_flags", String::new(), fmt_k, |w| write!(w, "{:+#09.3}", t as &dyn DynTemplate)), into!("display_ref_wide", String::new(), fmt_k, |w| write!(w, "{:>3000.2}", &&t)),
    ] { put(c, st, w.as_bytes()) }
    for (c, st, w) in [into!("into_chars", FC(FW::new(usize::MAX, false)), ek, |w| t.render_into(&mut w)), into!("dyn_chars", FC(FW::new(usize::MAX, false)), ek, |w| t.dyn_render_into(&mut w))] { put(c, st, &w.0.got) }
    // Everything that takes an `io::Write`
    for (c, st, w) in [
        into!("write", Vec::new(), io_k, |w| t.write_into(&mut w)), into!("write_ref", Vec::new(), io_k, |w| (&t).write_into(&mut w)), into!("write_ref2", Vec::new(), io_k, |w| <&&T as Template>::write_into(&&t, &mut w)),
        into!("write_dyn", Vec::new(), io_k, |w| t.write_into(&mut w as &mut dyn io::Write)), into!("dyn_write", Vec::new(), io_k, |w| t.dyn_write_into(&mut w)),
        into!("dyn_write2", Vec::new(), io_k, |w| (&t as &dyn DynTemplate).dyn_write_into(&mut w)),
    ] { put(c, st, &w) }
    for (n, i) in [(1, 0), (1, 2), (2, 3), (3, 5), (7, 0), (7, 2), (64, 0), (usize::MAX, 2)] {
        let (c, st, w) = into!(format!("short{n}i{i}"), IW::new(n, i, usize::MAX, 0), io_k, |w| t.write_into(&mut w));
        put(&c, st, &w.got);
        let (c, st, w) = into!(format!("dynshort{n}i{i}"), IW::new(n, i, usize::MAX, 0), io_k, |w| t.dyn_write_into(&mut w));
        put(&c, st, &w.got);
    }
    let (c, st, w) = into!("all", IV(Vec::new()), io_k, |w| t.write_into(&mut w));
    put(c, st, &w.0);
    let (c, st, w) = into!("bufwriter", io::BufWriter::with_capacity(5, IW::new(2, 3, usize::MAX, 0)), io_k, |w| { t.write_into(&mut w)?; io::Write::flush(&mut w) });
    put(c, st, &w.into_parts().0.got);
    let (c, st, w) = into!("linewriter", io::LineWriter::with_capacity(5, Vec::new()), io_k, |w| { t.write_into(&mut w)?; io::Write::flush(&mut w) });
    put(c, st, w.get_ref());
    // Targets that fail. What the targets see of a rendering that fails by itself may not be a prefix of anything known.
    let mut probe = FW::new(usize::MAX, false);
    if !matches!(guard(|| t.render_into(&mut probe)), Ok(Ok(()))) { return; }
    let full = probe.got;
    let mut bad = Vec::new();
    let mut tried = 0;
    let mut judge = |what: String, panicked: bool, err: bool, got: &[u8], must: bool| {
        tried += 1;
        if panicked { bad.push(format!("{what}: panicked")); }
        else if must && !err { bad.push(format!("{what}: reported success though the target failed")); }
        else if !must && err { bad.push(format!("{what}: failed though the target did not")); }
        else if !full.starts_with(got) { bad.push(format!("{what}: delivered {:?}", String::from_utf8_lossy(got))); }
        else if !err && full != got { bad.push(format!("{what}: success, but delivered only {:?}", String::from_utf8_lossy(got))); }
    };
    macro_rules! fail { ($what:expr, $new:expr, |$w:ident| $e:expr, |$g:ident| $got:expr, |$m:ident| $must:expr) => {{
        let mut $w = $new;
        let r = guard(|| $e);
        let must = { let $m = &$w; $must };
        let $g = &$w;
        judge($what, r.is_err(), matches!(r, Ok(Err(_))), $got, must);
    }} }
    let calls = probe.calls;
    for k in (0..calls).step_by(stride) {
        fail!(format!("render_into, call {k} fails"), FW::new(k, false), |w| t.render_into(&mut w), |g| &g.got, |m| m.calls > k);
        fail!(format!("render_into, only call {k} fails"), FW::new(k, true), |w| t.render_into(&mut w), |g| &g.got, |m| m.calls > k);
        fail!(format!("dyn_render_into, only call {k} fails"), FW::new(k, true), |w| t.dyn_render_into(&mut w), |g| &g.got, |m| m.calls > k);
        fail!(format!("Display, only call {k} fails"), FW::new(k, true), |w| write!(w, "{t}"), |g| &g.got, |m| m.calls > k);
        fail!(format!("Display of dyn, only call {k} fails"), FW::new(k, true), |w| write!(w, "{}", t as &dyn DynTemplate), |g| &g.got, |m| m.calls > k);
        fail!(format!("render_into of a reference, only call {k} fails"), FC(FW::new(k, true)), |w| (&t).render_into(&mut w), |g| &g.0.got, |m| m.0.calls > k);
    }
    for k in (0..full.len()).step_by(stride) {
        fail!(format!("render_into, room for {k}"), FB { got: Vec::new(), room: k }, |w| t.render_into(&mut w), |g| &g.got, |_m| true);
        fail!(format!("write_into, fails after {k} bytes"), IW::new(1 + k % 5, [0, 3, 2, 5][k % 4], k, (k % 4) as u8), |w| t.write_into(&mut w), |g| &g.got, |m| m.failed);
        fail!(format!("dyn_write_into, fails after {k} bytes"), IW::new(1 + k % 7, [0, 2, 4][k % 3], k, (k / 4 % 4) as u8), |w| t.dyn_write_into(&mut w), |g| &g.got, |m| m.failed);
        fail!(format!("write_into of a reference, fails after {k} bytes"), IW::new(usize::MAX, 0, k, (k % 4) as u8), |w| (&t).write_into(&mut w), |g| &g.got, |m| m.failed);
        let mut buf = vec![0u8; k];
        let r = guard(|| { let mut s = &mut buf[..]; t.write_into(&mut s) });
        judge(format!("write_into a slice of {k} bytes"), r.is_err(), matches!(r, Ok(Err(_))), &buf, true);
    }
    let mut buf = vec![0u8; full.len()];
    let r = guard(|| { let mut s = &mut buf[..]; t.write_into(&mut s) });
    judge("write_into a slice that fits".to_string(), r.is_err(), matches!(r, Ok(Err(_))), &buf, false);
    put("faults", if bad.is_empty() { "ok".into() } else { "bad".into() }, bad.iter().take(3).cloned().collect::<Vec<_>>().join("; ").as_bytes());
    put("tried", "ok".into(), tried.to_string().as_bytes());
}
