//! Histories of using the safe API, to be run under AddressSanitizer and Miri.
use crate::parse::*;
use crate::tree::Walk;
use crate::util::*;
use askama_parser::{Ast, Expr, Node, Parsed, Syntax};
use std::fmt::Write;
use std::path::Path;
use std::rc::Rc;

/// A sink that looks at what it is given
#[derive(Default)]
pub struct Valid {
    pub out: String,
    pub bad: bool,
}

impl Write for Valid {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // (the check must not be removed because a `str` is valid by definition)
        if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
            self.bad = true;
        }
        self.out.push_str(s);
        Ok(())
    }
}

pub fn valid(what: &str, v: impl std::fmt::Display, input: &dyn std::fmt::Debug) -> Option<String> {
    let mut w = Valid::default();
    let r = write!(w, "{v}");
    let whole = std::str::from_utf8(std::hint::black_box(w.out.as_bytes())).is_err();
    if w.bad || whole {
        violation(what, &format!("{what}: writes invalid UTF-8 for {input:?}: {:02x?}", w.out.as_bytes()));
    }
    r.ok().map(|_| w.out)
}

struct Held {
    p: Parsed,
    text: String,
    syn: Option<[String; 6]>,
    tree: String,
    shown: String,
}

fn snapshot(p: &Parsed) -> (String, String) {
    (Walk::new(true).nodes(p.nodes()).to_string(), format!("{p:?}"))
}

fn hold(it: &Item, r: &mut Rng) -> Option<Held> {
    let syn = syntax(&it.syn);
    let path: Option<Rc<Path>> = r.chance(50).then(|| Rc::from(Path::new("a/b.html")));
    // (exact and larger allocations)
    let mut text = it.text.clone();
    match r.below(3) {
        0 => text.shrink_to_fit(),
        1 => text.reserve(100),
        _ => {}
    }
    let p = Parsed::new(text, path, &syn).ok()?;
    let (tree, shown) = snapshot(&p);
    Some(Held { p, text: it.text.clone(), syn: it.syn.clone(), tree, shown })
}

fn check(h: &Held, what: &str) {
    let (tree, shown) = snapshot(&h.p);
    if tree != h.tree || shown != h.shown {
        violation("parsed", &format!("a parsed template changed by {what}: {:?}\n was {}\n is {tree}", h.text, h.tree));
    }
}

/// The first expressions of the nodes, cloned
fn clones<'a>(nodes: &[Node<'a>]) -> Vec<Expr<'a>> {
    let mut out = Vec::new();
    for n in nodes {
        match n {
            Node::Expr(_, x) => out.push(x.clone()),
            Node::Let(l) => out.extend(l.val.clone()),
            Node::If(i) => i.branches.iter().for_each(|b| {
                out.extend(b.cond.as_ref().map(|c| c.expr.clone()));
                out.extend(clones(&b.nodes));
            }),
            Node::Loop(l) => {
                out.push(l.iter.clone());
                out.extend(clones(&l.body));
            }
            Node::Macro(m) => out.extend(clones(&m.nodes)),
            Node::BlockDef(m) => out.extend(clones(&m.nodes)),
            Node::FilterBlock(f) => {
                out.extend(f.filters.arguments.clone());
                out.extend(clones(&f.nodes));
            }
            _ => {}
        }
    }
    out
}

/// Lets the allocator give away what was freed
fn churn(r: &mut Rng) {
    let mut v: Vec<String> = (0..r.below(8)).map(|_| "#".repeat(r.below(400))).collect();
    if r.chance(50) {
        v.reverse();
    }
}

pub fn parsed(r: &mut Rng, n: usize, items: &[Item]) {
    let mut pool: Vec<Held> = Vec::new();
    let mut defaults: Vec<Parsed> = Vec::new();
    for i in 0..n {
        let op = r.below(13);
        at("parsed", &format!("{i} {op}"));
        stat("operations", 1);
        eval(true, (op, pool.len(), pool.first().map(|h| h.text.len())));
        let k = if pool.is_empty() { 0 } else { r.below(pool.len()) };
        if pool.is_empty() || op == 0 || op == 1 && pool.len() < 12 {
            if let Some(h) = hold(r.pick(items), r) {
                pool.push(h);
            }
            continue;
        }
        match op {
            2 => {
                // moved around in memory
                let h = pool.swap_remove(k);
                let b = Box::new(h);
                churn(r);
                pool.insert(0, *b);
                check(&pool[0], "moving");
            }
            3 => {
                let h = pool.remove(k);
                check(&h, "removing");
                drop(h);
                churn(r);
                pool.iter().for_each(|h| check(h, "dropping another"));
            }
            4 => {
                let j = r.below(pool.len());
                let eq = pool[k].p == pool[j].p;
                let same = pool[k].shown == pool[j].shown;
                if eq != same {
                    violation("parsed", &format!("{:?} and {:?} are {}equal", pool[k].text, pool[j].text, if eq { "" } else { "un" }));
                }
            }
            5 => {
                // taken out of its place, used, and put back
                let p = std::mem::take(&mut pool[k].p);
                churn(r);
                let x = clones(p.nodes());
                let s = format!("{x:?}");
                let empty = std::mem::replace(&mut pool[k].p, p);
                defaults.push(empty);
                let y = format!("{:?}", clones(pool[k].p.nodes()));
                same("cloned", y, s, &pool[k].text);
            }
            6 => {
                // what is cloned lives on beside the original
                let h = &pool[k];
                let x = clones(h.p.nodes());
                let y = x.clone();
                drop(x);
                churn(r);
                same("cloned", format!("{y:?}"), format!("{:?}", clones(h.p.nodes())), &h.text);
            }
            7 => {
                let h = &pool[k];
                // the same text elsewhere
                let again = Parsed::new(h.text.clone(), None, &syntax(&h.syn));
                if !again.is_ok_and(|q| q == h.p) {
                    violation("parsed", &format!("parsed differently: {:?}", h.text));
                }
            }
            8 => {
                // a borrowed tree, used while its source is shared
                let h = &pool[k];
                let syn = syntax(&h.syn);
                let ast = Ast::from_str(&h.text, None, &syn).unwrap();
                let t = Walk::new(true).nodes(ast.nodes()).to_string();
                let shown = format!("{ast:?}");
                drop(ast);
                same("borrowed", (t, shown.is_empty()), (h.tree.clone(), false), &h.text);
            }
            9 => {
                pool.rotate_left(k);
                pool.reserve(r.below(64));
                pool.shrink_to_fit();
                pool.iter().for_each(|h| check(h, "moving all"));
            }
            10 => {
                // failed parsing
                let (s, syn) = mutate(r, items);
                let e = Parsed::new(s, Some(Rc::from(Path::new("x.html"))), &syntax(&syn)).err();
                churn(r);
                let f = e.clone();
                drop(e.clone());
                let _ = (format!("{e:?}"), f == e, e.map(|e| e.to_string()));
            }
            11 => {
                // the syntax lives shorter than the tree
                let h = &mut pool[k];
                let syn = h.syn.clone();
                let p = {
                    let owned = syn;
                    let s: Syntax<'_> = syntax(&owned);
                    Parsed::new(h.text.clone(), None, &s).unwrap()
                };
                churn(r);
                h.p = p;
                check(h, "parsing again");
            }
            _ => {
                let h = pool.remove(k);
                let nodes = h.p.nodes().len();
                let h = std::thread::spawn(move || nodes).join().map(|n| (h, n)).unwrap();
                same("nodes", h.0.p.nodes().len(), h.1, "");
                pool.push(h.0);
            }
        }
        defaults.truncate(4);
        defaults.iter().for_each(|d| same("default", d.nodes().len(), 0, ""));
    }
    pool.iter().for_each(|h| check(h, "the end"));
}

/// All filters and escapers write valid text only
pub fn strings(r: &mut Rng, n: usize) {
    use askama::filters as f;
    use askama::{Html, Text};
    for _ in 0..n {
        let s = r.text();
        at("strings", &s);
        let k = r.below(30);
        let i = &s as &dyn std::fmt::Debug;
        let chunks = r.chunks(&s);
        let mut outs = vec![
            valid("escape", askama_escape::escape(&s, Html), i),
            valid("escape", askama_escape::escape(&s, Text), i),
            valid("MarkupDisplay", askama::MarkupDisplay::new_unsafe(&chunks, Html), i),
            valid("escape filter", f::escape(Html, &chunks).unwrap(), i),
            valid("safe filter", f::safe(Html, &chunks).unwrap(), i),
            valid("json", f::json(&s).unwrap(), i),
            valid("json", f::json(vec![(&s, k)]).unwrap(), i),
            valid("upper", f::upper(&chunks).unwrap(), i),
            valid("lower", f::lower(&chunks).unwrap(), i),
            valid("capitalize", f::capitalize(&chunks).unwrap(), i),
            valid("title", f::title(&chunks).unwrap(), i),
            valid("trim", f::trim(&chunks).unwrap(), i),
            valid("truncate", f::truncate(&chunks, k).unwrap(), i),
            valid("indent", f::indent(&chunks, k).unwrap(), i),
            valid("center", f::center(&chunks, k).unwrap(), i),
            valid("linebreaks", f::linebreaks(&chunks).unwrap(), i),
            valid("linebreaksbr", f::linebreaksbr(&chunks).unwrap(), i),
            valid("paragraphbreaks", f::paragraphbreaks(&chunks).unwrap(), i),
            valid("join", f::join([&s, &s], &s).unwrap(), i),
            valid("urlencode", f::urlencode(&chunks).unwrap(), i),
            valid("urlencode_strict", f::urlencode_strict(&chunks).unwrap(), i),
        ];
        let m: std::collections::BTreeMap<&str, f64> = [(s.as_str(), k as f64)].into();
        outs.push(valid("json", f::json(&m).unwrap(), i));
        eval(outs.iter().any(|o| o.as_deref() != Some(s.as_str())), &s);
        stat("strings", outs.len() as u64);
    }
}
