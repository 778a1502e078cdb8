
// Monitors of repeated, nested and concurrent renderings.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

type Outcome = (String, String);
fn outcome<T: askama::Template>(t: &T) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| t.render())) { Ok(Ok(s)) => ("ok".into(), s), Ok(Err(e)) => (format!("err:{}", err_kind(&e)), String::new()), Err(_) => ("panic".into(), String::new()) }
}
fn into<T: askama::Template, W: fmt::Write>(t: &T, w: &mut W) -> String {
    match catch_unwind(AssertUnwindSafe(|| t.render_into(w))) { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => format!("err:{}", err_kind(&e)), Err(_) => "panic".into() }
}
/// Calls something for every piece of text it gets; its `fail`-th call fails
struct Cb<'a>(String, usize, usize, &'a mut dyn FnMut(usize));
impl fmt::Write for Cb<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1 += 1;
        (self.3)(self.1);
        if self.1 > self.2 { return Err(fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}

pub fn purity<T: askama::Template + Sync>(case: &str, vs: &[T], copies: &[&(dyn askama::DynTemplate + Sync)], rounds: usize) {
    let first: Vec<Outcome> = vs.iter().map(|v| outcome(v)).collect();
    let mut bad: Vec<String> = Vec::new();
    let mut seen = 0usize;
    let mut expect = |what: &str, i: usize, got: &Outcome, bad: &mut Vec<String>| { seen += 1; if *got != first[i] { bad.push(format!("{what}: instance {i} gave {got:?} instead of {:?}", first[i])) } };
    // again, in other orders, after renderings that failed at some point
    for r in 0..3 {
        for k in 0..vs.len() {
            let i = if r == 1 { vs.len() - 1 - k } else { (k + r) % vs.len() };
            for fail in [0, 1, 2, 3, 5, 8, 13] {
                let mut n = |_| ();
                let mut w = Cb(String::new(), 0, fail, &mut n);
                let st = into(&vs[i], &mut w);
                if st == "panic" { bad.push(format!("instance {i} panicked when its target failed")) }
                if w.1 <= fail { let o = (st.clone(), if st == "ok" { w.0 } else { String::new() }); expect("target that does not fail", i, &o, &mut bad); }
                expect("after a failure", i, &outcome(&vs[i]), &mut bad);
            }
            expect("again", i, &outcome(&vs[i]), &mut bad);
        }
    }
    // while the same or another value is being rendered: from the target, and from a value that is displayed
    for i in 0..vs.len() {
        let mut inner: Vec<(usize, Outcome)> = Vec::new();
        let mut cb = |n: usize| if n < 12 { let j = (i + n) % vs.len(); inner.push((j, outcome(&vs[j]))); };
        let mut w = Cb(String::new(), 0, usize::MAX, &mut cb);
        let st = into(&vs[i], &mut w);
        let text = if st == "ok" { w.0 } else { String::new() };
        expect("with renderings inside", i, &(st, text), &mut bad);
        for (j, o) in inner { expect("inside of a rendering", j, &o, &mut bad); }
        let inner: RefCell<Vec<(usize, Outcome)>> = RefCell::new(Vec::new());
        let n = Cell::new(0);
        let hook = || { n.set(n.get() + 1); if n.get() < 12 { let j = (i + n.get()) % vs.len(); let o = outcome(&vs[j]); inner.borrow_mut().push((j, o)); } };
        let o = t::hooked(&hook, || outcome(&vs[i]));
        expect("with a value that renders", i, &o, &mut bad);
        for (j, o) in inner.into_inner() { expect("inside of a value", j, &o, &mut bad); }
        hooks(n.get());
    }
    // the same template, derived again
    for (i, c) in copies.iter().enumerate() {
        let j = i % vs.len();
        let o = match catch_unwind(AssertUnwindSafe(|| c.dyn_render())) { Ok(Ok(s)) => ("ok".into(), s), Ok(Err(e)) => (format!("err:{}", err_kind(&e)), String::new()), Err(_) => ("panic".into(), String::new()) };
        expect("derived again", j, &o, &mut bad);
    }
    // from several threads at once
    let go = AtomicUsize::new(0);
    let threads = 4;
    let switches = AtomicUsize::new(0);
    let last = AtomicUsize::new(usize::MAX);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|me| {
            let (go, first, switches, last) = (&go, &first, &switches, &last);
            s.spawn(move || {
                let (mut bad, mut seen) = (Vec::new(), 0);
                go.fetch_add(1, Ordering::SeqCst);
                while go.load(Ordering::SeqCst) < threads { std::hint::spin_loop() }
                for r in 0..rounds {
                    for k in 0..vs.len() {
                        let i = (k + me + r) % vs.len();
                        let mut x = (me * 7 + r * 3 + k) as u32;
                        let mut cb = |_| {
                            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                            if last.swap(me, Ordering::Relaxed) != me { switches.fetch_add(1, Ordering::Relaxed); }
                            match x >> 30 { 0 => std::thread::yield_now(), 1 => for _ in 0..(x >> 20 & 63) { std::hint::spin_loop() }, _ => () }
                        };
                        let o = if r % 3 == 2 { outcome(&vs[i]) } else {
                            let mut w = Cb(String::new(), 0, usize::MAX, &mut cb);
                            let st = into(&vs[i], &mut w);
                            let t = if st == "ok" { w.0 } else { String::new() };
                            (st, t)
                        };
                        seen += 1;
                        if o != first[i] { bad.push(format!("in thread {me}: instance {i} gave {o:?} instead of {:?}", first[i])) }
                    }
                }
                (bad, seen)
            })
        }).collect();
        for h in hs { let (b, n) = h.join().unwrap(); bad.extend(b); seen += n; }
    });
    for i in 0..vs.len() { let o = outcome(&vs[i]); if o != first[i] { bad.push(format!("after threads: instance {i} gave {o:?} instead of {:?}", first[i])) } }
    LOG.with(|l| l.borrow_mut().clear());
    for (i, (st, t)) in first.iter().enumerate() { println!("R {case} {i} first {st} {} t", hex(t.as_bytes())); }
    let st = if bad.is_empty() { "ok" } else { "bad" };
    println!("R {case} 0 pure {st} {} t", hex(bad.iter().take(3).cloned().collect::<Vec<_>>().join("; ").as_bytes()));
    println!("R {case} 0 seen ok {} t", hex(format!("{seen} {} {}", switches.into_inner(), HOOKS.with(|h| h.replace(0))).as_bytes()));
}
thread_local!(static HOOKS: Cell<usize> = Cell::new(0));
fn hooks(n: usize) { HOOKS.with(|h| h.set(h.get() + n)) }
