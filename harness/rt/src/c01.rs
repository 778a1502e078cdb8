//! HTML escaping: decoding the output gives the value back, and nothing of it is active.
use crate::util::*;
use askama::Template;
use askama_escape::{Escaper, Html, MarkupDisplay, Text};
use std::borrow::Cow;
use std::fmt::{self, Display, Write};
use std::rc::Rc;
use std::sync::Arc;

/// The characters a piece of HTML text stands for, if it has no active character
pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut i = 0;
    while let Some(c) = s[i..].chars().next() {
        match c {
            '<' | '>' | '"' | '\'' => return Err(format!("bare {c:?} at byte {i}")),
            '&' => {
                let Some(end) = s[i..].find(';') else { return Err(format!("bare '&' at byte {i}")) };
                let name = &s[i + 1..i + end];
                let ch = match name {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    _ => {
                        let n = match name.strip_prefix('#') {
                            Some(n) => match n.strip_prefix(['x', 'X']) {
                                Some(h) => u32::from_str_radix(h, 16),
                                None => n.parse(),
                            },
                            None => return Err(format!("unknown reference &{name}; at byte {i}")),
                        };
                        match n.ok().and_then(char::from_u32) {
                            Some(c @ ('&' | '<' | '>' | '"' | '\'')) => c,
                            // every other character is to be kept verbatim
                            _ => return Err(format!("needless or bad reference &{name}; at byte {i}")),
                        }
                    }
                };
                out.push(ch);
                i += end + 1;
            }
            c => {
                out.push(c);
                i += c.len_utf8();
            }
        }
    }
    Ok(out)
}

fn special(s: &str) -> bool {
    s.contains(['&', '<', '>', '"', '\''])
}

pub fn check(what: &str, got: &str, value: &str, input: &dyn fmt::Debug) {
    let bad = match decode(got) {
        Ok(v) if v == value => None,
        Ok(v) => Some(format!("decodes to {v:?}")),
        Err(e) => Some(e),
    };
    if let Some(bad) = bad {
        violation(what, &format!("{what}: {bad}\n value:  {value:?}\n output: {got:?}\n input:  {input:?}"));
    }
    eval(special(value), (what, value));
}

struct Out(String);
impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

fn api(s: &str) {
    let mut w = Out(String::new());
    Html.write_escaped(&mut w, s).unwrap();
    check("Html::write_escaped", &w.0, s, &s);
    check("escape()", &askama_escape::escape(s, Html).to_string(), s, &s);
    let mut w = Out(String::new());
    Text.write_escaped(&mut w, s).unwrap();
    same("Text::write_escaped", w.0.as_str(), s, s);
}

fn display(c: &Chunks) {
    let s = &c.to_string();
    check("MarkupDisplay::new_unsafe", &MarkupDisplay::new_unsafe(c, Html).to_string(), s, c);
    check("|escape", &askama::filters::escape(Html, c).unwrap().to_string(), s, c);
    check("|e", &askama::filters::e(Html, c).unwrap().to_string(), s, c);
    same("MarkupDisplay::new_safe", MarkupDisplay::new_safe(c, Html).to_string(), s.clone(), c);
    same("MarkupDisplay::mark_safe", MarkupDisplay::new_unsafe(c, Html).mark_safe().to_string(), s.clone(), c);
    same("safe.mark_safe", MarkupDisplay::new_safe(c, Html).mark_safe().to_string(), s.clone(), c);
    same("|safe", askama::filters::safe(Html, c).unwrap().to_string(), s.clone(), c);
    same("MarkupDisplay Text", MarkupDisplay::new_unsafe(c, Text).to_string(), s.clone(), c);
    // escaped twice when asked to twice
    let twice = MarkupDisplay::new_unsafe(MarkupDisplay::new_unsafe(c, Html), Html).to_string();
    match decode(&twice) {
        Ok(once) => check("escape of escape", &once, s, c),
        Err(e) => violation("escape of escape", &format!("{e}: {twice:?} of {c:?}")),
    }
}

// \u{1} separates what is compared
#[derive(Template)]
#[template(source = "{{ v }}\u{1}<p a=\"{{ v }}\" b='{{v}}'>{{ self.v }}</p>\u{1}{% for x in l %}{{ x }}\u{2}{% endfor %}\u{1}{% match o %}{% when Some with (x) %}{{ x }}{% when None %}-{% endmatch %}\u{1}{% let y = v %}{{ y }}\u{1}{{ l|join(\"\") }}\u{1}{{ v|fmt(\"{}\") }}\u{1}{{ \"{}{}\"|format(v, s) }}\u{1}{{ s|escape }}\u{1}{{ s|e(\"html\") }}\u{1}{% if let Some(x) = o %}{{ x }}{% endif %}\u{1}{{ m(v) }}\u{1}{{ s.clone() }}\u{1}{{ t.0 }}{{ t.1[0] }}\u{1}{{ v|trim|trim }}\u{1}{{ s|truncate(9000000) }}\u{1}{{ c }}\u{1}{% call mac(v, s) %}\u{1}{% block b %}{{ v }}{% endblock %}\u{1}{% filter trim %}{{ s }}{% endfilter %}\u{1}{{ format!(\"{}\", self.v) }}\u{1}{{ r }}{% macro mac(p, q) %}{{ p }}{{ q }}{% endmacro %}", ext = "html")]
struct Positions<'a> {
    v: &'a Chunks,
    s: &'a String,
    l: Vec<&'a str>,
    o: Option<&'a Chunks>,
    t: (&'a str, [&'a Chunks; 1]),
    c: char,
    m: fn(&Chunks) -> String,
    r: &'a &'a str,
}

fn text(c: &Chunks) -> String {
    c.to_string()
}

// (`filter trim` and the whole page keep what is next to their text)
fn positions(r: &mut Rng, c: &Chunks) {
    let s = c.to_string();
    if s.contains(['\u{1}', '\u{2}']) {
        return;
    }
    let n = r.below(4);
    let l: Vec<String> = (0..n).map(|_| r.text().replace(['\u{1}', '\u{2}'], "")).collect();
    let ch = match r.ch() {
        '\u{1}' | '\u{2}' => '<',
        c => c,
    };
    let t = Positions {
        v: c,
        s: &s,
        l: l.iter().map(|s| s.as_str()).collect(),
        o: Some(c).filter(|_| r.chance(80)),
        t: (&s, [c]),
        c: ch,
        m: text,
        r: &s.as_str(),
    };
    let some = t.o.is_some();
    at("positions", &s);
    let Some(Ok(page)) = no_panic("positions", c, || t.render()) else { return };
    let parts: Vec<&str> = page.split('\u{1}').collect();
    if parts.len() != 22 {
        return violation("positions", &format!("parts of the page are missing: {page:?} for {c:?}"));
    }
    let chk = |i: usize, what: &str, v: &str| check(what, parts[i], v, c);
    chk(0, "{{ v }}", &s);
    let attr = parts[1];
    let fields = attr
        .strip_prefix("<p a=\"")
        .and_then(|a| a.split_once("\" b='"))
        .and_then(|(a, r)| r.split_once("'>").map(|(b, r)| (a, b, r)))
        .and_then(|(a, b, r)| r.strip_suffix("</p>").map(|t| [a, b, t]));
    match fields {
        Some(f) => f.iter().for_each(|f| check("attributes", f, &s, c)),
        None => violation("attributes", &format!("broken markup: {attr:?} for {c:?}")),
    }
    let items: Vec<&str> = parts[2].split('\u{2}').collect();
    same("items", items.len(), l.len() + 1, c);
    for (i, v) in items.iter().zip(&l) {
        check("items of a loop", i, v, &l);
    }
    chk(3, "match", if some { &s } else { "-" });
    chk(4, "let", &s);
    chk(5, "|join", &l.concat());
    chk(6, "|fmt", &s);
    chk(7, "|format", &format!("{s}{s}"));
    chk(8, "{{ |escape }}", &s);
    chk(9, "{{ |e(html) }}", &s);
    chk(10, "if let", if some { &s } else { "" });
    chk(11, "fn()", &s);
    chk(12, "method()", &s);
    chk(13, "fields", &format!("{s}{s}"));
    chk(14, "|trim", s.trim());
    chk(15, "|truncate", &s);
    chk(16, "char", &ch.to_string());
    chk(17, "macro", &format!("{s}{s}"));
    chk(18, "block", &s);
    // what a filter block contains is escaped, and so is the result of its filters
    match decode(parts[19]).and_then(|v| decode(&v)) {
        Ok(v) => same("filter block", v.as_str(), s.trim(), c),
        Err(e) => violation("filter block", &format!("{e}: {:?} for {c:?}", parts[19])),
    }
    chk(20, "format!", &s);
    chk(21, "&&str", &s);
}

#[derive(Template)]
#[template(source = "{{ v }}", ext = "html")]
struct One<T: Display> {
    v: T,
}
#[derive(Template)]
#[template(source = "{{ v }}", ext = "xml")]
struct Xml<T: Display> {
    v: T,
}
#[derive(Template)]
#[template(source = "{{ v }}", ext = "txt", escape = "html")]
struct Attr<T: Display> {
    v: T,
}

fn one<T: Display>(what: &str, v: T, s: &str) {
    check(what, &One { v: &v }.render().unwrap(), s, &s);
    check(what, &Xml { v: &v }.to_string(), s, &s);
    let mut out = Vec::new();
    Attr { v: &v }.write_into(&mut out).unwrap();
    check(what, &String::from_utf8(out).unwrap(), s, &s);
}

struct ByChar(String);
impl Display for ByChar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.chars().try_for_each(|c| f.write_char(c))
    }
}
struct Padded(String);
impl Display for Padded {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:<>12}|{:&^7}|{:?}", self.0, self.0, self.0)
    }
}
struct Sticky(String);
impl Display for Sticky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(&self.0)
    }
}

fn types(c: &Chunks) {
    let s = c.to_string();
    at("types", &s);
    one("String", s.clone(), &s);
    one("&str", s.as_str(), &s);
    one("Box<str>", s.clone().into_boxed_str(), &s);
    one("Cow", Cow::from(s.as_str()), &s);
    one("Rc", Rc::new(s.clone()), &s);
    one("Arc<str>", Arc::<str>::from(s.as_str()), &s);
    one("dyn Display", &s as &dyn Display, &s);
    one("Chunks", c, &s);
    one("ByChar", ByChar(s.clone()), &s);
    one("Padded", Padded(s.clone()), &format!("{:<>12}|{:&^7}|{:?}", s, s, s));
    one("Sticky", Sticky(s.clone()), &s);
    one("Arguments", format_args!("<{s}&{}", c), &format!("<{s}&{c}"));
    one("nested page", One { v: c }, &{
        let mut w = String::new();
        Html.write_escaped(&mut w, &s).unwrap();
        w
    });
    one("template", One { v: "" }, "");
}

/// All strings of few characters in all splittings and call kinds
fn exhaustive(max: usize) {
    const AB: [char; 10] = ['&', '<', '>', '"', '\'', 'a', ';', 'é', '中', '😀'];
    let mut word = vec![0usize; 0];
    loop {
        let cs: Vec<char> = word.iter().map(|i| AB[*i]).collect();
        let s: String = cs.iter().collect();
        api(&s);
        let n = cs.len();
        for mask in 0..1usize << n.saturating_sub(1) {
            for how in 0..3u8 {
                let mut parts = vec![(how, String::new())];
                for (i, c) in cs.iter().enumerate() {
                    if i > 0 && mask >> (i - 1) & 1 == 1 {
                        parts.push(((how + i as u8) % 3, String::new()));
                    }
                    parts.last_mut().unwrap().1.push(*c);
                }
                let c = Chunks(parts);
                check("{{ v }} exhaustive", &One { v: &c }.render().unwrap(), &s, &c);
            }
        }
        // next word
        let mut i = 0;
        while i < word.len() && word[i] == AB.len() - 1 {
            word[i] = 0;
            i += 1;
        }
        if i == word.len() {
            word.push(0);
            if word.len() > max {
                break;
            }
            continue;
        }
        word[i] += 1;
    }
}

fn every_char(step: usize, offset: usize) {
    let mut i = offset as u32;
    while i < 0x110000 {
        if let Some(c) = char::from_u32(i) {
            let s = format!("a{c}<{c}");
            check("every char", &One { v: &s }.render().unwrap(), &s, &i);
        }
        i += if i < 0x3000 { 1 } else { step as u32 };
    }
}

/// A single special character at every offset of strings of many lengths
fn offsets(r: &mut Rng, lens: &[usize]) {
    for &len in lens {
        for pos in 0..len {
            let sp = *r.pick(&['&', '<', '>', '"', '\'']);
            let fill = *r.pick(&["a", "a", "é", "中", "😀", " "]);
            let s: String = (0..len).map(|i| if i == pos { sp.to_string() } else { fill.to_string() }).collect();
            check("offsets", &One { v: &s }.render().unwrap(), &s, &(len, pos));
        }
    }
    stat("offset_lengths", lens.len() as u64);
}

pub fn run(r: &mut Rng, part: usize, parts: usize, n: usize, thorough: bool) {
    if part == 0 {
        exhaustive(if thorough { 5 } else { 4 });
    }
    if part == 1 % parts {
        every_char(if thorough { 1 } else { 17 }, 0);
    }
    if part == 2 % parts {
        let lens: Vec<usize> = if thorough { (1..300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]).collect() } else { (1..70).chain([127, 128, 129, 255, 256, 257, 1023, 1024, 1025]).collect() };
        offsets(r, &lens);
    }
    for i in 0..n {
        r.huge(i, n);
        let s = r.text();
        at("random", &s);
        api(&s);
        let c = r.chunks(&s);
        sample(|| format!("{:?}", c));
        display(&c);
        types(&c);
        positions(r, &c);
    }
}
