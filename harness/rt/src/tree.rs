//! Monitors of the syntax tree: what it contains is compared with the tree the template was printed from, with its own
//! reprint, and with an independent scan of the source.
use crate::parse::*;
use crate::util::*;
use askama_parser::node::*;
use askama_parser::{Ast, Expr, Filter, Node, Syntax};
use serde_json::{json, Value};

/// Walks a tree: builds its canonical form, and its slices of the source in the order of the source
pub struct Walk<'a> {
    pub slices: Vec<&'a str>,
    groups: bool,
}

fn sign(w: Option<Whitespace>) -> &'static str {
    match w {
        None => "",
        Some(Whitespace::Preserve) => "+",
        Some(Whitespace::Suppress) => "-",
        Some(Whitespace::Minimize) => "~",
    }
}

fn wss(w: &Ws) -> String {
    let s = |w| match sign(w) {
        "" => ".",
        s => s,
    };
    format!("{}{}", s(w.0), s(w.1))
}

impl<'a> Walk<'a> {
    pub fn new(groups: bool) -> Self {
        Walk { slices: Vec::new(), groups }
    }

    fn s(&mut self, s: &'a str) -> Value {
        self.slices.push(s);
        json!(s)
    }

    fn path(&mut self, p: &[&'a str]) -> Vec<Value> {
        p.iter().map(|s| self.s(s)).collect()
    }

    fn lit(&mut self, l: &Lit<'a>) -> Vec<Value> {
        vec![self.s(l.lws), self.s(l.val), self.s(l.rws)]
    }

    fn exprs(&mut self, head: Vec<Value>, es: &[Expr<'a>]) -> Value {
        let mut v = head;
        for e in es {
            v.push(self.expr(e));
        }
        Value::Array(v)
    }

    fn filter(&mut self, f: &Filter<'a>) -> Value {
        let x = self.expr(&f.arguments[0]);
        let n = self.s(f.name);
        self.exprs(vec![json!("|"), n, x], &f.arguments[1..])
    }

    pub fn expr(&mut self, e: &Expr<'a>) -> Value {
        match e {
            Expr::BoolLit(s) => json!(["bool", self.s(s)]),
            Expr::NumLit(s) => json!(["num", self.s(s)]),
            Expr::StrLit(s) => json!(["str", self.s(s)]),
            Expr::CharLit(s) => json!(["char", self.s(s)]),
            Expr::Var(s) => json!(["var", self.s(s)]),
            Expr::Path(p) => {
                let mut v = vec![json!("path")];
                v.extend(self.path(p));
                Value::Array(v)
            }
            Expr::Array(es) => self.exprs(vec![json!("array")], es),
            Expr::Attr(x, a) => json!([".", self.expr(x), self.s(a)]),
            Expr::Index(x, i) => json!(["index", self.expr(x), self.expr(i)]),
            Expr::Filter(f) => self.filter(f),
            Expr::NamedArgument(n, x) => json!(["named", self.s(n), self.expr(x)]),
            Expr::Unary(op, x) => json!(["un", self.s(op), self.expr(x)]),
            Expr::BinOp(op, l, r) => {
                let l = self.expr(l);
                json!(["bin", self.s(op), l, self.expr(r)])
            }
            Expr::Range(op, l, r) => {
                let l = l.as_ref().map(|x| self.expr(x));
                json!(["range", self.s(op), l, r.as_ref().map(|x| self.expr(x))])
            }
            Expr::Group(x) => match self.groups {
                true => json!(["group", self.expr(x)]),
                false => self.expr(x),
            },
            Expr::Tuple(es) => self.exprs(vec![json!("tuple")], es),
            Expr::Call(x, es) => {
                let x = self.expr(x);
                self.exprs(vec![json!("call"), x], es)
            }
            Expr::RustMacro(p, a) => json!(["macro", self.path(p), self.s(a)]),
            Expr::Try(x) => json!(["?", self.expr(x)]),
            Expr::Generated(_) => json!(["gen"]),
        }
    }

    fn target(&mut self, t: &Target<'a>) -> Value {
        match t {
            Target::Name(n) => json!(["name", self.s(n)]),
            Target::NumLit(s) => json!(["num", self.s(s)]),
            Target::StrLit(s) => json!(["str", self.s(s)]),
            Target::CharLit(s) => json!(["char", self.s(s)]),
            Target::BoolLit(s) => json!(["bool", self.s(s)]),
            Target::Tuple(p, ts) => {
                let mut v = vec![json!("tuple"), Value::Array(self.path(p))];
                v.extend(ts.iter().map(|t| self.target(t)));
                Value::Array(v)
            }
            Target::Struct(p, ts) => {
                let mut v = vec![json!("struct"), Value::Array(self.path(p))];
                v.extend(ts.iter().map(|(f, t)| json!([self.s(f), self.target(t)])));
                Value::Array(v)
            }
            Target::Path(p) => {
                let mut v = vec![json!("path")];
                v.extend(self.path(p));
                Value::Array(v)
            }
            Target::OrChain(ts) => {
                let mut v = vec![json!("or")];
                v.extend(ts.iter().map(|t| self.target(t)));
                Value::Array(v)
            }
        }
    }

    pub fn nodes(&mut self, ns: &[Node<'a>]) -> Value {
        Value::Array(ns.iter().map(|n| self.node(n)).collect())
    }

    fn node(&mut self, n: &Node<'a>) -> Value {
        match n {
            Node::Lit(l) => {
                let mut v = vec![json!("lit")];
                v.extend(self.lit(l));
                Value::Array(v)
            }
            Node::Comment(c) => {
                self.slices.push(c.content);
                json!(["comment", wss(&c.ws), c.content])
            }
            Node::Expr(w, x) => json!(["expr", wss(w), self.expr(x)]),
            Node::Call(c) => {
                let sc = c.scope.map(|s| self.s(s));
                let v = vec![json!("callm"), json!(wss(&c.ws)), json!(sc), self.s(c.name)];
                self.exprs(v, &c.args)
            }
            Node::Let(l) => json!(["let", wss(&l.ws), self.target(&l.var), l.val.as_ref().map(|x| self.expr(x))]),
            Node::If(i) => {
                let mut v = vec![json!("if")];
                for b in &i.branches {
                    let c = b.cond.as_ref().map(|c| {
                        let t = c.target.as_ref().map(|t| self.target(t));
                        json!([t, self.expr(&c.expr)])
                    });
                    v.push(json!([wss(&b.ws), c, self.nodes(&b.nodes)]));
                }
                v.push(json!(wss(&i.ws)));
                Value::Array(v)
            }
            Node::Match(m) => {
                let mut v = vec![json!("match"), json!(wss(&m.ws1)), self.expr(&m.expr)];
                for a in &m.arms {
                    v.push(json!([wss(&a.ws), self.target(&a.target), self.nodes(&a.nodes)]));
                }
                v.push(json!(wss(&m.ws2)));
                Value::Array(v)
            }
            Node::Loop(l) => json!([
                "for",
                wss(&l.ws1),
                self.target(&l.var),
                self.expr(&l.iter),
                l.cond.as_ref().map(|x| self.expr(x)),
                self.nodes(&l.body),
                wss(&l.ws2),
                self.nodes(&l.else_nodes),
                wss(&l.ws3)
            ]),
            Node::Extends(e) => json!(["extends", self.s(e.path)]),
            Node::BlockDef(b) => json!(["block", wss(&b.ws1), self.s(b.name), self.nodes(&b.nodes), wss(&b.ws2)]),
            Node::Include(i) => json!(["include", wss(&i.ws), self.s(i.path)]),
            Node::Import(i) => json!(["import", wss(&i.ws), self.s(i.path), self.s(i.scope)]),
            Node::Macro(m) => json!(["defmacro", wss(&m.ws1), self.s(m.name), self.path(&m.args), self.nodes(&m.nodes), wss(&m.ws2)]),
            Node::Raw(r) => {
                let mut v = vec![json!("raw"), json!(wss(&r.ws1))];
                v.extend(self.lit(&r.lit));
                v.push(json!(wss(&r.ws2)));
                Value::Array(v)
            }
            Node::Break(w) => json!(["break", wss(w)]),
            Node::Continue(w) => json!(["continue", wss(w)]),
            Node::FilterBlock(f) => json!(["filter", wss(&f.ws1), self.filter(&f.filters), self.nodes(&f.nodes), wss(&f.ws2)]),
        }
    }
}

/// Prints a tree
struct Print<'s> {
    out: String,
    src: &'s str,
    syn: &'s Syntax<'s>,
}

impl<'s> Print<'s> {
    fn tag(&mut self, w: &Ws, inner: String) {
        self.out += &format!("{}{} {inner} {}{}", self.syn.block_start, sign(w.0), sign(w.1), self.syn.block_end);
    }

    fn list(&self, es: &[Expr<'_>]) -> String {
        es.iter().map(|e| self.expr(e)).collect::<Vec<_>>().join(", ")
    }

    fn filter(&self, f: &Filter<'_>, top: bool) -> String {
        let mut s = match &f.arguments[0] {
            Expr::Generated(_) => String::new(),
            Expr::Filter(g) if top => self.filter(g, true) + "|",
            x => self.expr(x) + "|",
        };
        s += f.name;
        if f.arguments.len() > 1 {
            s += &format!("({})", self.list(&f.arguments[1..]));
        }
        s
    }

    fn expr(&self, e: &Expr<'_>) -> String {
        match e {
            Expr::BoolLit(s) | Expr::NumLit(s) | Expr::Var(s) => s.to_string(),
            Expr::StrLit(s) => format!("\"{s}\""),
            Expr::CharLit(s) => format!("'{s}'"),
            Expr::Path(p) => p.join("::"),
            Expr::Array(es) => format!("[{}]", self.list(es)),
            Expr::Attr(x, a) => format!("{} .{a}", self.expr(x)),
            Expr::Index(x, i) => format!("{}[{}]", self.expr(x), self.expr(i)),
            Expr::Filter(f) => self.filter(f, false),
            Expr::NamedArgument(n, x) => format!("{n}={}", self.expr(x)),
            Expr::Unary(op, x) => format!("{op} {}", self.expr(x)),
            Expr::BinOp(op, l, r) => format!("{} {op} {}", self.expr(l), self.expr(r)),
            Expr::Range(op, l, r) => format!("{} {op} {}", l.as_ref().map(|x| self.expr(x)).unwrap_or_default(), r.as_ref().map(|x| self.expr(x)).unwrap_or_default()),
            Expr::Group(x) => format!("({})", self.expr(x)),
            Expr::Tuple(es) if es.len() == 1 => format!("({},)", self.expr(&es[0])),
            Expr::Tuple(es) => format!("({})", self.list(es)),
            Expr::Call(x, es) => format!("{}({})", self.expr(x), self.list(es)),
            Expr::RustMacro(p, a) => format!("{}!({a})", p.join("::")),
            Expr::Try(x) => format!("{}?", self.expr(x)),
            Expr::Generated(_) => String::new(),
        }
    }

    fn targets(&self, ts: &[Target<'_>]) -> String {
        ts.iter().map(|t| self.target(t)).collect::<Vec<_>>().join(", ")
    }

    fn target(&self, t: &Target<'_>) -> String {
        match t {
            Target::Name(n) | Target::NumLit(n) | Target::BoolLit(n) => n.to_string(),
            Target::StrLit(s) => format!("\"{s}\""),
            Target::CharLit(s) => format!("'{s}'"),
            Target::Path(p) => p.join("::"),
            Target::Tuple(p, ts) if p.is_empty() && ts.len() == 1 => format!("({},)", self.targets(ts)),
            Target::Tuple(p, ts) => format!("{}({})", p.join("::"), self.targets(ts)),
            Target::Struct(p, ts) => {
                let fs: Vec<_> = ts
                    .iter()
                    .map(|(f, t)| match t {
                        Target::Name(n) if n.as_ptr() == f.as_ptr() => f.to_string(),
                        t => format!("{f}: {}", self.target(t)),
                    })
                    .collect();
                format!("{} {{ {} }}", p.join("::"), fs.join(", "))
            }
            // (nested ones can only stem from parentheses)
            Target::OrChain(ts) => ts.iter().map(|t| if matches!(t, Target::OrChain(_)) { format!("({})", self.target(t)) } else { self.target(t) }).collect::<Vec<_>>().join(" or "),
        }
    }

    fn nodes(&mut self, ns: &[Node<'_>]) {
        for n in ns {
            self.node(n);
        }
    }

    fn node(&mut self, n: &Node<'_>) {
        let none = Ws(None, None);
        match n {
            Node::Lit(l) => self.out += &format!("{}{}{}", l.lws, l.val, l.rws),
            Node::Comment(c) => self.out += &format!("{}{}{}", self.syn.comment_start, sign(c.ws.0), c.content),
            Node::Expr(w, x) => self.out += &format!("{}{} {} {}{}", self.syn.expr_start, sign(w.0), self.expr(x), sign(w.1), self.syn.expr_end),
            Node::Call(c) => self.tag(&c.ws, format!("call {}{}({})", c.scope.map(|s| s.to_string() + "::").unwrap_or_default(), c.name, self.list(&c.args))),
            Node::Let(l) => self.tag(&l.ws, format!("let {}{}", self.target(&l.var), l.val.as_ref().map(|x| " = ".to_string() + &self.expr(x)).unwrap_or_default())),
            Node::If(i) => {
                for (k, b) in i.branches.iter().enumerate() {
                    let s = match &b.cond {
                        None => String::new(),
                        Some(c) => format!("if {}{}", c.target.as_ref().map(|t| format!("let {} = ", self.target(t))).unwrap_or_default(), self.expr(&c.expr)),
                    };
                    self.tag(&b.ws, format!("{}{s}", if k > 0 { "else " } else { "" }));
                    self.nodes(&b.nodes);
                }
                self.tag(&i.ws, "endif".into());
            }
            Node::Match(m) => {
                self.tag(&m.ws1, format!("match {}", self.expr(&m.expr)));
                for a in &m.arms {
                    // (the name of `else` is no part of the source)
                    let s = match &a.target {
                        Target::Name(n @ "_") if offset(self.src, n).is_none() => "else".to_string(),
                        t => format!("when {}", self.target(t)),
                    };
                    self.tag(&a.ws, s);
                    self.nodes(&a.nodes);
                }
                self.tag(&m.ws2, "endmatch".into());
            }
            Node::Loop(l) => {
                self.tag(&l.ws1, format!("for {} in {}{}", self.target(&l.var), self.expr(&l.iter), l.cond.as_ref().map(|x| format!(" if {}", self.expr(x))).unwrap_or_default()));
                self.nodes(&l.body);
                if !l.else_nodes.is_empty() || l.ws2.1.is_some() || l.ws3.0.is_some() {
                    self.tag(&l.ws2, "else".into());
                    self.nodes(&l.else_nodes);
                    self.tag(&l.ws3, "endfor".into());
                } else {
                    self.tag(&Ws(l.ws2.0, l.ws3.1), "endfor".into());
                }
            }
            Node::Extends(e) => self.tag(&none, format!("extends \"{}\"", e.path)),
            Node::BlockDef(b) => {
                self.tag(&b.ws1, format!("block {}", b.name));
                self.nodes(&b.nodes);
                self.tag(&b.ws2, "endblock".into());
            }
            Node::Include(i) => self.tag(&i.ws, format!("include \"{}\"", i.path)),
            Node::Import(i) => self.tag(&i.ws, format!("import \"{}\" as {}", i.path, i.scope)),
            Node::Macro(m) => {
                self.tag(&m.ws1, format!("macro {}({})", m.name, m.args.join(", ")));
                self.nodes(&m.nodes);
                self.tag(&m.ws2, "endmacro".into());
            }
            Node::Raw(r) => {
                self.tag(&r.ws1, "raw".into());
                self.out += &format!("{}{}{}", r.lit.lws, r.lit.val, r.lit.rws);
                self.tag(&r.ws2, "endraw".into());
            }
            Node::Break(w) => self.tag(w, "break".into()),
            Node::Continue(w) => self.tag(w, "continue".into()),
            Node::FilterBlock(f) => {
                self.tag(&f.ws1, format!("filter {}", self.filter(&f.filters, true)));
                self.nodes(&f.nodes);
                self.tag(&f.ws2, "endfilter".into());
            }
        }
    }
}

/// Where in the text the slice is
fn offset(text: &str, slice: &str) -> Option<usize> {
    let (a, b) = (text.as_ptr() as usize, slice.as_ptr() as usize);
    (a <= b && b + slice.len() <= a + text.len()).then(|| b - a)
}

#[derive(Debug, Clone, PartialEq)]
enum Seg {
    Lit(String),
    Comment(String),
    Expr(Vec<String>),
    Block(Vec<String>),
}

/// The tokens of the content of a tag
fn tokens(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut i = 0;
    while let Some(c) = s[i..].chars().next() {
        let start = i;
        i += c.len_utf8();
        match c {
            ' ' | '\t' | '\r' | '\n' | '(' | ')' | ',' => continue,
            '"' | '\'' => {
                while let Some(d) = s[i..].chars().next() {
                    i += d.len_utf8();
                    if d == c {
                        break;
                    }
                    if d == '\\' {
                        i += s[i..].chars().next().map_or(0, char::len_utf8);
                    }
                }
            }
            c if c.is_ascii_alphanumeric() || c == '_' || c >= '\u{80}' => {
                let n = s[i..].find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c >= '\u{80}'));
                i += n.unwrap_or(s.len() - i);
            }
            _ => {}
        }
        let t = &s[start..i];
        match t {
            "with" => {}
            "elif" => out.extend(["else".to_string(), "if".to_string()]),
            "set" => out.push("let".to_string()),
            _ => out.push(t.to_string()),
        }
        let n = out.len();
        if n >= 2 && matches!(out[n - 2].as_str(), "endblock" | "endmacro") && !matches!(t, "-" | "+" | "~") {
            out.pop();
        }
    }
    out
}

/// Cuts a template into literals and tags; None if that takes more than looking for delimiters
fn segments(text: &str, syn: &Syntax<'_>) -> Option<Vec<Seg>> {
    let mut out: Vec<Seg> = Vec::new();
    let mut i = 0;
    let mut lit = String::new();
    // the end of a tag
    let close = |mut i: usize, end: &str| -> Option<usize> {
        loop {
            let rest = &text[i..];
            if rest.starts_with(end) {
                return Some(i);
            }
            let c = rest.chars().next()?;
            i += c.len_utf8();
            if c == '"' || c == '\'' {
                loop {
                    let d = text[i..].chars().next()?;
                    i += d.len_utf8();
                    if d == c {
                        break;
                    }
                    if d == '\\' {
                        i += text[i..].chars().next()?.len_utf8();
                    }
                }
            }
        }
    };
    let flush = |lit: &mut String, out: &mut Vec<Seg>| {
        if !lit.is_empty() {
            out.push(Seg::Lit(std::mem::take(lit)));
        }
    };
    while i < text.len() {
        let rest = &text[i..];
        if rest.starts_with(syn.comment_start) {
            flush(&mut lit, &mut out);
            let start = i + syn.comment_start.len();
            i = start;
            let mut depth = 1;
            while depth > 0 {
                if text[i..].starts_with(syn.comment_start) {
                    depth += 1;
                    i += syn.comment_start.len();
                } else if text[i..].starts_with(syn.comment_end) {
                    depth -= 1;
                    i += syn.comment_end.len();
                } else {
                    i += text[i..].chars().next()?.len_utf8();
                }
            }
            out.push(Seg::Comment(text[start..i].to_string()));
        } else if rest.starts_with(syn.expr_start) {
            flush(&mut lit, &mut out);
            let start = i + syn.expr_start.len();
            let end = close(start, syn.expr_end)?;
            out.push(Seg::Expr(tokens(&text[start..end])));
            i = end + syn.expr_end.len();
        } else if rest.starts_with(syn.block_start) {
            flush(&mut lit, &mut out);
            let start = i + syn.block_start.len();
            let end = close(start, syn.block_end)?;
            let t = tokens(&text[start..end]);
            i = end + syn.block_end.len();
            let first = t.iter().find(|t| !matches!(t.as_str(), "-" | "+" | "~")).cloned().unwrap_or_default();
            out.push(Seg::Block(t));
            if first == "raw" {
                // up to `endraw`
                let start = i;
                loop {
                    let j = i + text[i..].find(syn.block_start)?;
                    i = j + syn.block_start.len();
                    let Some(end) = close(i, syn.block_end) else { continue };
                    let t = tokens(&text[i..end]);
                    if t.iter().filter(|t| !matches!(t.as_str(), "-" | "+" | "~")).eq(["endraw"]) {
                        if start < j {
                            out.push(Seg::Lit(text[start..j].to_string()));
                        }
                        out.push(Seg::Block(t));
                        i = end + syn.block_end.len();
                        break;
                    }
                }
            } else if first == "match" {
                // white space and comments up to the first arm are dropped
                loop {
                    let rest = text[i..].trim_start_matches([' ', '\t', '\r', '\n']);
                    i = text.len() - rest.len();
                    if !rest.starts_with(syn.comment_start) {
                        break;
                    }
                    let mut depth = 0;
                    loop {
                        if text[i..].starts_with(syn.comment_start) {
                            depth += 1;
                            i += syn.comment_start.len();
                        } else if text[i..].starts_with(syn.comment_end) {
                            depth -= 1;
                            i += syn.comment_end.len();
                            if depth == 0 {
                                break;
                            }
                        } else {
                            i += text[i..].chars().next()?.len_utf8();
                        }
                    }
                }
            } else if first == "endmatch" {
                // (white space in front of it is dropped if nothing else is between it and the last arm)
            }
        } else {
            let c = rest.chars().next()?;
            lit.push(c);
            i += c.len_utf8();
        }
    }
    flush(&mut lit, &mut out);
    // `else` without content, in front of `endfor`
    let mut k = 0;
    while k + 1 < out.len() {
        if let (Seg::Block(a), Seg::Block(b)) = (&out[k], &out[k + 1]) {
            let (na, nb) = (a.len(), b.len());
            let (pa, pb) = (a.iter().position(|t| t == "else"), b.iter().position(|t| t == "endfor"));
            if na <= 2 && nb <= 2 && pa == Some(na.wrapping_sub(1)) && pb == Some(0) {
                let mut m = a[..na - 1].to_vec();
                m.extend(b.iter().cloned());
                out.splice(k..k + 2, [Seg::Block(m)]);
                continue;
            }
        }
        k += 1;
    }
    Some(out)
}

/// The tree of an accepted text is made of the text, all of it, in its order, and is read again from its reprint
pub fn faithful(text: &str, syn: &Syntax<'_>) {
    at("faithful", text);
    let Ok(ast) = Ast::from_str(text, None, syn) else { return };
    let mut w = Walk::new(true);
    let tree = w.nodes(ast.nodes());
    let bad = |m: String| violation("tree", &format!("{m}\n text: {text:?}\n syntax: {syn:?}\n tree: {tree}"));
    // slices of the source, in order
    let mut last = 0;
    for (k, s) in w.slices.iter().enumerate() {
        match offset(text, s) {
            None if s.is_empty() => {}
            None if *s == "_" => {}
            None => return bad(format!("{s:?} is not from the source")),
            Some(o) => {
                let again = k > 0 && w.slices[k - 1].as_ptr() == s.as_ptr() && w.slices[k - 1].len() == s.len();
                if o < last && !again {
                    return bad(format!("{s:?} at {o} is out of order"));
                }
                last = last.max(o + s.len());
            }
        }
    }
    stat("slices", w.slices.len() as u64);
    let mut p = Print { out: String::new(), src: text, syn };
    p.nodes(ast.nodes());
    let printed = p.out;
    eval(ast.nodes().len() > 1, (tree.to_string().len(), text));
    match Ast::from_str(&printed, None, syn) {
        Err(e) => return bad(format!("the reprint is not accepted: {e:?}\n {printed:?}")),
        Ok(again) => {
            let t = Walk::new(true).nodes(again.nodes());
            if t != tree {
                return bad(format!("the reprint is read as something else: {printed:?}\n {t}"));
            }
        }
    }
    stat("reprints", 1);
    // an independent scan, if the closing delimiters cannot be part of a tag
    let unique = |d: &str| d.contains(['@', '$', ';', '`', '#', '\\']) || d == "%}" || d == "}}";
    if !unique(syn.block_end) || !unique(syn.expr_end) {
        return;
    }
    if text.contains('!') && text.contains('(') && text.replace(' ', "").contains("!(") {
        return;
    }
    match (segments(text, syn), segments(&printed, syn)) {
        (Some(a), Some(b)) => {
            stat("scans", 1);
            // (numbers need no space behind, and the `or` of patterns none)
            let like = |x: &Seg, y: &Seg| match (x, y) {
                (Seg::Block(a), Seg::Block(b)) => a == b || a.iter().any(|t| t.len() > 2 && (t.contains("or") || t.starts_with(|c: char| c.is_ascii_digit()))) && a.concat() == b.concat(),
                (x, y) => x == y,
            };
            let k = a.iter().zip(&b).take_while(|(x, y)| like(x, y)).count();
            if k < a.len().max(b.len()) {
                bad(format!("the source has {:?}, the tree has {:?} (piece {k})", a.get(k), b.get(k)));
            }
        }
        _ => stat("not_scanned", 1),
    }
}

pub fn run(r: &mut Rng, part: usize, parts: usize, n: usize, items: &[Item]) {
    for (k, it) in items.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let syn = syntax(&it.syn);
        at("tree", &it.text);
        let mut want = None;
        if !it.tree.is_empty() {
            want = Some(serde_json::from_str::<Value>(&it.tree).unwrap());
        }
        for text in [Some(&it.text), it.other.as_ref()].into_iter().flatten() {
            let what = || format!("text: {text:?}\n syntax: {syn:?}");
            match no_panic("tree", &text, || Ast::from_str(text, None, &syn)) {
                None => continue,
                Some(Err(e)) => violation("tree", &format!("a template is not accepted: {e:?}\n {}", what())),
                Some(Ok(ast)) => {
                    let mut t = Walk::new(false).nodes(ast.nodes());
                    comments(&mut t, &syn);
                    stat("trees", 1);
                    match &want {
                        None => want = Some(t),
                        Some(w) if *w != t => {
                            let (x, y) = difference(w, &t);
                            violation("tree", &format!("expected {x}\n observed {y}\n {}", what()));
                            break;
                        }
                        Some(_) => {}
                    }
                }
            }
            faithful(text, &syn);
        }
        if k < 4 {
            sample(|| it.text.clone());
        }
    }
    for _ in 0..n {
        let (s, syn) = mutate(r, items);
        faithful(&s, &syntax(&syn));
    }
}

/// The innermost place where two trees differ
fn difference<'v>(a: &'v Value, b: &'v Value) -> (&'v Value, &'v Value) {
    if let (Value::Array(x), Value::Array(y)) = (a, b) {
        if x.len() == y.len() && (x.is_empty() || x[0] == y[0] || x[0].is_array()) {
            if let Some((p, q)) = x.iter().zip(y).find(|(p, q)| p != q) {
                if p.is_array() && q.is_array() {
                    return difference(p, q);
                }
            }
        }
    }
    (a, b)
}

/// What a comment says, without its closing delimiter and the white space around
fn comments(v: &mut Value, syn: &Syntax<'_>) {
    if let Value::Array(a) = v {
        if a.len() == 3 && a[0] == "comment" {
            let w = a[1].as_str().unwrap().to_string();
            let s = a[2].as_str().unwrap();
            let s = s.strip_suffix(syn.comment_end).unwrap_or("(no end)");
            let s = if w.ends_with('.') { s } else { s.strip_suffix(['-', '+', '~']).unwrap_or("(no sign)") };
            a[2] = json!(s.trim_matches([' ', '\t', '\r', '\n']));
            return;
        }
        if a.len() == 2 && a[0] == "path" && a[1] == "_" {
            // the wildcard is either
            a[0] = json!("name");
        }
        a.iter_mut().for_each(|x| comments(x, syn));
    }
}
