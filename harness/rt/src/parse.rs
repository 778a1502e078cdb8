//! Monitors of the parser: totality, truthful errors.
use crate::util::*;
use askama_parser::{Ast, ParseError, Parsed, Syntax};
use std::path::Path;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// A template as the driver writes it: delimiters and text
#[derive(Clone, serde::Deserialize)]
pub struct Item {
    #[serde(default)]
    pub syn: Option<[String; 6]>,
    pub text: String,
    #[serde(default)]
    pub tree: String,
    /// the same template with other spacing inside of its tags
    #[serde(default)]
    pub other: Option<String>,
    /// spans (byte offsets) of tags
    #[serde(default)]
    pub tags: Vec<(usize, usize)>,
}

pub fn corpus(path: &str) -> Vec<Item> {
    std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

pub fn syntax(s: &Option<[String; 6]>) -> Syntax<'_> {
    match s {
        None => Syntax::default(),
        Some([bs, be, es, ee, cs, ce]) => Syntax { block_start: bs, block_end: be, expr_start: es, expr_end: ee, comment_start: cs, comment_end: ce },
    }
}

fn limit(bytes: usize) -> Duration {
    // (sanitizers and interpreters are slow)
    let slow = std::env::var("RT_SLOWER").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    (Duration::from_millis(3000) + Duration::from_micros(5 * bytes as u64)) * slow
}

/// The time this thread has run
fn cpu() -> Duration {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    Duration::from_nanos(s.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0))
}

/// The row (from 0) and column of an offset
fn position(text: &str, at: usize) -> (usize, usize) {
    let (mut row, mut col) = (0, 0);
    for c in text[..at].chars() {
        if c == '\n' {
            row += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (row, col)
}

fn offset(text: &str, row: usize, col: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 0..row {
        start += text[start..].find('\n')? + 1;
    }
    let line = &text[start..];
    let line = &line[..line.find('\n').unwrap_or(line.len())];
    let n = line.chars().count();
    match col.cmp(&n) {
        std::cmp::Ordering::Greater => None,
        std::cmp::Ordering::Equal => Some(start + line.len()),
        std::cmp::Ordering::Less => line.char_indices().nth(col).map(|(i, _)| start + i),
    }
}

/// What the error says must be true of the text; returns the offset it points to
pub fn truthful(what: &str, text: &str, path: Option<&str>, e: &ParseError) -> Option<usize> {
    let bad = |m: String| violation(what, &format!("{what}: {m}\n error: {e:?}\n text: {text:?}"));
    let ParseError::Details { message, row, column, source_after, file_path } = e else {
        bad("no details".into());
        return None;
    };
    let Some(at) = offset(text, *row, *column) else {
        bad("row and column are no position of the text".into());
        return None;
    };
    let rest = &text[at..];
    let n = rest.chars().count();
    let full = format!("{rest:?}");
    let cut = format!("{:?}...", rest.chars().take(40).collect::<String>());
    let ok = match n {
        // (exactly 40 characters may be shown either way)
        0..=39 => *source_after == full,
        40 => *source_after == full || *source_after == cut,
        _ => *source_after == cut,
    };
    if !ok {
        bad(format!("the remaining text is {cut} from row {row}, column {column}"));
    }
    if file_path.as_deref() != path.map(Path::new) {
        bad("names another file".into());
    }
    let shown = e.to_string();
    let place = match path {
        Some(p) => format!("{p}:{}:{}", row + 1, column),
        None => format!("row {}, column {} near", row + 1, column),
    };
    if !shown.contains(&place) || !shown.contains(source_after.as_str()) || message.as_ref().is_some_and(|m| !shown.contains(&**m)) {
        bad(format!("shown as {shown:?}"));
    }
    Some(at)
}

/// Parses a text in all ways; Some(result) if none of them panics
pub fn total(what: &str, text: &str, syn: &Syntax<'_>) -> Option<Result<usize, usize>> {
    at(what, text);
    let (t0, c0) = (Instant::now(), cpu());
    let input = (text.get(..400.min(text.len())).unwrap_or(""), text.len(), syn);
    let res = no_panic(what, &input, || {
        let ast = Ast::from_str(text, None, syn);
        match ast {
            Ok(ast) => {
                let n = ast.nodes().len();
                let shown = format!("{:?}", ast);
                drop(ast);
                Ok((n, shown))
            }
            Err(e) => Err(e),
        }
    })?;
    let took = if t0.elapsed() > Duration::from_millis(300) { cpu() - c0 } else { Duration::ZERO };
    if took > Duration::from_millis(500) && std::env::var_os("RT_SLOW").is_some() {
        eprintln!("{took:?} {} {:?}", text.len(), &input.0[..input.0.len().min(60)]);
    }
    let path: Rc<Path> = Rc::from(Path::new("no-such-dir/file.html"));
    let again = no_panic(what, &input, || Parsed::new(text.to_string(), Some(path), syn))?;
    if took > limit(text.len()) {
        violation(what, &format!("{what}: {took:?} for {} bytes: {:?}", text.len(), input.0));
    }
    eval(true, (what, text));
    match (res, again) {
        (Ok((n, _)), Ok(p)) => {
            if text.len() < 20_000 {
                let same = no_panic(what, &input, || Parsed::new(text.to_string(), None, syn).is_ok_and(|q| q == p && !format!("{p:?}{q:?}").is_empty()))?;
                if !same || p.nodes().len() != n {
                    violation(what, &format!("{what}: parsed differently again: {text:?}"));
                }
            }
            stat("accepted", 1);
            Some(Ok(n))
        }
        (Err(e), Err(f)) => {
            stat("rejected", 1);
            let a = truthful("parse error", text, None, &e)?;
            let b = truthful("parse error", text, Some("no-such-dir/file.html"), &f)?;
            same("error again", a, b, text);
            Some(Err(a))
        }
        _ => {
            violation(what, &format!("{what}: accepted only once: {text:?}"));
            None
        }
    }
}

const TOKENS: &[&str] = &[
    "{{", "}}", "{%", "%}", "{#", "#}", "-", "+", "~", "if", "elif", "else", "else if", "endif", "for", "in", "endfor", "match", "when", "endmatch", "let", "set", "=", "macro", "endmacro", "call", "block",
    "endblock", "extends", "include", "import", "as", "raw", "endraw", "filter", "endfilter", "break", "continue", "x", "self", "super()", "loop.index", "Some", "None", "with", "or", "(", ")", "[", "]", "{", "}",
    ",", ".", "..", "..=", "::", ":", "|", "||", "&&", "&", "==", "!=", "<", ">", "<<", "!", "?", "*", "/", "%", "^", "\"a\"", "\"", "'a'", "'", "'\\u{1F600}'", "\\", "\"\\\"\"", "1", "0x", "0b1", "1.5e3", "1_", "_",
    "true", "false", "\n", " ", "\t", "é", "中", "😀", "a", "Path::new", "b::c", "vec![1, 2]", "x.y", "x(1)", "x[0]", "x?", "|f(1)", " %}", "{%- ", " -%}", "\u{0}", "\r", "\u{a0}",
];

pub fn mutate(r: &mut Rng, items: &[Item]) -> (String, Option<[String; 6]>) {
    let it = r.pick(items).clone();
    let other = r.pick(items);
    let mut s = it.text.clone();
    let b = |r: &mut Rng, s: &str| {
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    for _ in 0..r.range(1, 4) {
        match r.below(8) {
            0 => s.truncate(b(r, &s)),
            1 => {
                let i = b(r, &s);
                s.insert_str(i, *r.pick(TOKENS));
            }
            2 => {
                let (i, j) = (b(r, &s), b(r, &s));
                if i < j && j - i < 60 {
                    s.replace_range(i..j, "");
                }
            }
            3 => {
                let (i, j) = (b(r, &s), b(r, &s));
                if i < j && j - i < 300 {
                    let part = s[i..j].to_string();
                    let k = b(r, &s);
                    s.insert_str(k, &part);
                }
            }
            4 => {
                let i = b(r, &s);
                let c = r.ch();
                s.insert(i, c);
            }
            5 => {
                let i = b(r, &s);
                if let Some(c) = s[i..].chars().next() {
                    s.replace_range(i..i + c.len_utf8(), "");
                }
            }
            6 => {
                let (i, j) = (b(r, &s), b(r, &other.text));
                s = s[..i].to_string() + &other.text[j..];
            }
            _ => {
                // one delimiter for another
                let d = it.syn.clone().unwrap_or_else(|| ["{%", "%}", "{{", "}}", "{#", "#}"].map(String::from));
                let x = r.pick(&d).clone();
                let y = r.pick(&d).clone();
                let n = s.matches(x.as_str()).count();
                if n > 0 {
                    let (i, _) = s.match_indices(x.as_str()).nth(r.below(n)).unwrap();
                    s.replace_range(i..i + x.len(), &y);
                }
            }
        }
    }
    (s, it.syn)
}

fn soup(r: &mut Rng) -> String {
    let n = r.below(40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(TOKENS));
        if r.chance(40) {
            s.push(' ');
        }
    }
    match r.below(3) {
        0 => s,
        1 => format!("{{{{ {s} }}}}"),
        _ => format!("{{% {s} %}}"),
    }
}

/// (before, repeated, middle, repeated after, after)
const PUMPS: &[(&str, &str, &str, &str, &str)] = &[
    ("{{ ", "(", "x", ")", " }}"), ("{{ ", "[", "x", "]", " }}"), ("{{ ", "((", "x", ",),)", " }}"), ("{{ ", "!", "x", "", " }}"), ("{{ ", "-", "x", "", " }}"), ("{{ ", "!-", "x", "", " }}"),
    ("{{ x", ".a", "", "", " }}"), ("{{ x", "()", "", "", " }}"), ("{{ x", "?", "", "", " }}"), ("{{ x", "[0]", "", "", " }}"), ("{{ x", "|f", "", "", " }}"), ("{{ x", "|f(1)", "", "", " }}"),
    ("{{ ", "x(", "x", ")", " }}"), ("{{ ", "x[", "x", "]", " }}"), ("{{ ", "x|f(", "x", ")", " }}"), ("{{ x", " + x", "", "", " }}"), ("{{ x", " * x", "", "", " }}"), ("{{ x", " || x", "", "", " }}"),
    ("{{ x", " && x", "", "", " }}"), ("{{ x", " == x", "", "", " }}"), ("{{ x", " << x", "", "", " }}"), ("{{ x", " & x", "", "", " }}"), ("{{ x", " ^ x", "", "", " }}"), ("{{ x", " | x", "", "", " }}"),
    ("{{ x", "..x", "", "", " }}"), ("{{ ", "a::", "b", "", " }}"), ("{{ f(", "x, ", "", "", ") }}"), ("{{ [", "x, ", "", "", "] }}"), ("{{ (", "x, ", "", "", ") }}"), ("{{ f(", "x=1, ", "", "", ") }}"),
    ("{{ \"", "a", "", "", "\" }}"), ("{{ \"", "\\\\", "", "", "\" }}"), ("{{ \"", "\\", "", "", "\" }}"), ("{{ '", "a", "", "", "' }}"), ("{{ ", "1", "", "", " }}"), ("{{ 1", "_", "", "", " }}"),
    ("{{ 0x", "f", "", "", " }}"), ("{{ 1.", "0", "", "", "e1 }}"), ("{{ ", "a", "", "", " }}"), ("{{ ", "é", "", "", " }}"), ("{{", " ", "", "", "}}"), ("{{", "\n", "x", "\n", "}}"),
    ("{{ m!(", "(", "", ")", ") }}"), ("{{ m!(", "[", "", ")", ") }}"), ("{{ m!(", "a", "", "", ") }}"), ("{{ m!(", "\"", "", "", ") }}"), ("", "{{ x }}", "", "", ""), ("", "{{ x ", "", "", ""), ("", "{{", "", "", ""), ("", "}}", "", "", ""),
    ("", "{%", "", "", ""), ("", "%}", "", "", ""), ("", "{", "", "", ""), ("", "{ ", "", "", ""), ("", "a", "", "", ""), ("", " ", "", "", ""), ("", "\n", "", "", ""), ("", "é", "", "", ""), ("", "-", "", "", ""),
    ("", "{#", "", "#}", ""), ("", "{# ", " ", "", ""), ("{#", "a", "", "", "#}"), ("{#", "#", "", "", "#}"), ("{#", "{", "", "", "#}"), ("", "{#-", "", "-#}", ""), ("", "{##}", "", "", ""),
    ("", "{% if x %}", "", "{% endif %}", ""), ("", "{% if x %}", "", "", ""), ("{% if x %}", "{% elif x %}", "", "", "{% endif %}"), ("{% if x %}", "{% else if x %}a", "", "", "{% endif %}"), ("{% if x %}", "{% else %}", "", "", "{% endif %}"),
    ("", "{% for x in y %}", "", "{% endfor %}", ""), ("", "{% for x in y %}", "", "", ""), ("{% for x in y %}", "{% break %}", "", "", "{% endfor %}"), ("", "{% for x in y %}{% else %}", "", "{% endfor %}", ""),
    ("", "{% match x %}{% when A %}", "", "{% endmatch %}", ""), ("", "{% match x %}{% when A %}", "", "", ""), ("{% match x %}", "{% when A %}", "", "", "{% endmatch %}"), ("{% match x %}", " ", "", "", "{% when A %}{% endmatch %}"),
    ("{% match x %}", "{# #}", "", "", "{% when A %}{% endmatch %}"), ("{% match x %}{% when A", " or B", "", "", " %}{% endmatch %}"), ("{% match x %}{% when ", "(", "a", ")", " %}{% endmatch %}"), ("{% match x %}{% when ", "A(", "a", ")", " %}{% endmatch %}"),
    ("{% match x %}{% when ", "A { a: ", "a", " }", " %}{% endmatch %}"), ("{% match x %}{% when ", "a::", "b", "", " %}{% endmatch %}"), ("{% match x %}{% when (", "a, ", "", "", ") %}{% endmatch %}"), ("{% let ", "(", "a", ",)", " = x %}"), ("{% let ", "(", "a", ")", " = x %}"),
    ("{% let A { ", "a, ", "", "", "} = x %}"), ("", "{% let x %}", "", "", ""), ("", "{% let x = 1 %}", "", "", ""), ("{% let x = ", "(", "x", ")", " %}"), ("", "{% macro m() %}", "", "{% endmacro %}", ""), ("", "{% macro m() %}", "", "", ""),
    ("{% macro m(", "x, ", "", "", ") %}{% endmacro %}"), ("", "{% call m() %}", "", "", ""), ("{% call m(", "x, ", "", "", ") %}"), ("{% call m(", "(", "", ")", ") %}"), ("", "{% block b %}", "", "{% endblock %}", ""), ("", "{% block b %}", "", "", ""),
    ("", "{% filter f %}", "", "{% endfilter %}", ""), ("", "{% filter f %}", "", "", ""), ("{% filter f", "|f", "", "", " %}{% endfilter %}"), ("{% filter f(", "(", "x", ")", ") %}{% endfilter %}"), ("", "{% raw %}", "", "", ""), ("", "{% raw %}{% endraw %}", "", "", ""),
    ("{% raw %}", "{% endra", "", "", ""), ("{% raw %}", "{% ", "", "", "{% endraw %}"), ("{% raw %}", "a", "", "", "{% endraw %}"), ("", "{% include \"a\" %}", "", "", ""), ("{% include \"", "a", "", "", "\" %}"), ("", "{% extends \"a\" %}", "", "", ""),
    ("", "{% import \"a\" as b %}", "", "", ""), ("{%", " ", "", "", "%}"), ("{%", "-", "", "", "%}"), ("{% ", "x", "", "", " %}"), ("{% if let ", "Some(", "x", ")", " = y %}{% endif %}"), ("{% if let Some", "::Some", "", "", "(x) = y %}{% endif %}"),
    ("{% for ", "(", "x", ",)", " in y %}{% endfor %}"), ("{% for x in ", "(", "x", ")", " %}{% endfor %}"), ("{% for x in y if ", "(", "x", ")", " %}{% endfor %}"), ("{{ ", "(x, ", "x", ")", " }}"), ("{{ ", "[x, ", "x", "]", " }}"),
    ("{{ ", "(x + ", "x", ")", " }}"), ("{{ ", "x.a(", "x", ")", " }}"), ("{{ ", "x(a=", "x", ")", " }}"), ("{{ ", "x + (", "x", ")", " }}"), ("{{ ", "!(", "x", ")", " }}"), ("{{ ", "x == (", "x", ")", " }}"), ("{{ ", "..(", "x", ")", " }}"),
    ("{{ ", "x|a|b(", "x", ")", " }}"), ("{{ ", "(x|a(", "x", "))", " }}"), ("{{ x.", "0", "", "", " }}"), ("{{ x", ".0", "", "", " }}"), ("{{ ::", "a::", "b", "", " }}"), ("{{ ", "A::", "B", "", "(1) }}"),
];

fn pumps(r: &mut Rng, part: usize, parts: usize, thorough: bool) {
    for (k, (pre, rep, mid, post, end)) in PUMPS.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let mut sizes = vec![1, 2, 3, 5, 6, 7, 8, 9, 20, 60, 100, 117, 118, 119, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 5000, 30_000];
        if thorough {
            sizes.extend([10_000, 100_000, 300_000]);
        }
        for n in sizes {
            for form in 0..4 {
                let opened = format!("{pre}{}{mid}", rep.repeat(n));
                let text = match form {
                    0 => opened + &post.repeat(n) + end,
                    1 => opened,
                    2 => opened + &post.repeat(n - 1) + end,
                    _ => opened + &post.repeat(n + 1) + end,
                };
                total("pump", &text, &Syntax::default());
                stat("pumps", 1);
            }
        }
        // after one another, mixed
        let other = r.pick(PUMPS);
        for n in [3, 7, 60, 130, 2000] {
            let text = format!("{pre}{}{}{mid}{}{}{end}", rep.repeat(n), other.1.repeat(n), other.3.repeat(n), post.repeat(n));
            total("mixed pump", &text, &Syntax::default());
        }
    }
}

pub fn run_total(r: &mut Rng, part: usize, parts: usize, n: usize, thorough: bool, items: &[Item]) {
    pumps(r, part, parts, thorough);
    some(r, n, items);
}

pub fn some(r: &mut Rng, n: usize, items: &[Item]) {
    for i in 0..n {
        match r.below(8) {
            0 => {
                let s = soup(r);
                sample(|| s.clone());
                total("soup", &s, &Syntax::default());
            }
            1 => {
                let s = r.text();
                total("text", &s, &Syntax::default());
            }
            2 => {
                // any delimiters
                let it = r.pick(items);
                let other = r.pick(items).clone();
                let syn = syntax(&other.syn);
                total("other delimiters", &it.text, &syn);
            }
            3 => {
                let it = r.pick(items);
                let text = it.text.repeat(r.range(2, 6));
                total("repeated", &text, &syntax(&it.syn));
            }
            _ => {
                let (s, syn) = mutate(r, items);
                if i < 6 {
                    sample(|| s.clone());
                }
                total("mutation", &s, &syntax(&syn));
            }
        }
    }
}

/// Text cut or spoilt within a tag must not be accepted, nor the error point behind the damage
pub fn run_errors(r: &mut Rng, n: usize, items: &[Item]) {
    for _ in 0..n {
        let it = r.pick(items);
        let syn = syntax(&it.syn);
        if it.tags.is_empty() {
            continue;
        }
        let &(a, b) = r.pick(&it.tags);
        match r.below(5) {
            0 => {
                // the text ends within a tag
                let mut i = r.range(a + 1, b - 1);
                while !it.text.is_char_boundary(i) {
                    i -= 1;
                }
                let cut = &it.text[..i];
                let started = cut[a..].starts_with(syn.block_start) || cut[a..].starts_with(syn.expr_start) || cut[a..].starts_with(syn.comment_start);
                match total("cut", cut, &syn) {
                    Some(Ok(_)) if started => violation("cut", &format!("a tag that is not closed is accepted: {cut:?}\n of {:?}", it.text)),
                    Some(Err(at)) if started && at < a => {
                        violation("cut", &format!("the error points in front of the tag that is not closed at {a}, to {at} {:?}: {cut:?}", position(cut, at)))
                    }
                    _ => {}
                }
                stat("cuts", 1);
            }
            1 => {
                // something that is part of no tag
                let mut i = r.range(a + 2, b - 1);
                while !it.text.is_char_boundary(i) {
                    i -= 1;
                }
                let junk = *r.pick(&["\u{1}", "\u{7f}", "`", "\u{1}\u{1}"]);
                let text = format!("{}{junk}{}", &it.text[..i], &it.text[i..]);
                let inside = &it.text[a..b];
                let quoted = inside.contains(['"', '\'', '!']) || inside.contains("endraw") || it.syn.iter().flatten().any(|d| junk.chars().any(|c| d.contains(c))) || inside.starts_with(syn.comment_start);
                let started = i - a >= 2 && (text[a..i].starts_with(syn.block_start) || text[a..i].starts_with(syn.expr_start));
                let ended = inside.get(i - a..).is_some_and(|t| t.len() >= syn.block_end.len().min(syn.expr_end.len()));
                match total("junk", &text, &syn) {
                    Some(Ok(_)) if !quoted && started && ended => violation("junk", &format!("junk in a tag is accepted: {:?}\n in {text:?}", &text[a..(b + junk.len())])),
                    Some(Err(at)) if !quoted && started && ended => {
                        stat("junk_positions", 1);
                        if at < a {
                            violation("junk", &format!("the error points in front of the tag with the junk at {a}, to {at} {:?}: {text:?}", position(&text, at)));
                        }
                        if at > i {
                            violation("junk", &format!("the error points behind the junk at {i}, to {at} {:?}: {text:?}", position(&text, at)));
                        }
                    }
                    _ => {}
                }
                stat("junk", 1);
            }
            2 => {
                let (s, _) = mutate(r, std::slice::from_ref(it));
                total("mutation", &s, &syn);
            }
            _ => misplaced(r, it, &syn, a, b),
        }
    }
}

const OPEN: &[&str] = &["if", "for", "match", "block", "macro", "filter"];
const OTHER: &[&str] = &["elif", "else", "when", "let", "set", "call", "include", "import", "extends", "break", "continue", "raw"];

/// A tag that is missing, doubled, misspelt, of another kind, or names something else: no template any more
fn misplaced(r: &mut Rng, it: &Item, syn: &Syntax<'_>, a: usize, b: usize) {
    let tag = &it.text[a..b];
    let Some(inner) = tag.strip_prefix(syn.block_start).filter(|_| tag.len() > syn.block_start.len() + syn.block_end.len()) else {
        return;
    };
    if [syn.expr_start, syn.comment_start].iter().any(|d| d.starts_with(syn.block_start) && tag.starts_with(*d)) {
        return;
    }
    let inner = inner.strip_prefix(['-', '+', '~']).unwrap_or(inner).trim_start();
    let start = b - inner.len();
    let word: String = inner.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
    let end_of = word.strip_prefix("end").filter(|w| OPEN.contains(w));
    let opens = OPEN.contains(&word.as_str());
    // (within delimiters that are words themselves nothing is sure)
    if !(opens || end_of.is_some() || OTHER.contains(&word.as_str())) || inner[word.len()..].starts_with(|c: char| c == '_' || !c.is_ascii() || c.is_alphanumeric()) {
        return;
    }
    let (from, to, new, what) = match r.below(5) {
        0 if opens || end_of.is_some() => (a, b, String::new(), "missing"),
        1 if opens || end_of.is_some() => (a, b, tag.repeat(2), "doubled"),
        2 if end_of.is_some() => {
            let other = *r.pick(OPEN);
            if Some(other) == end_of {
                return;
            }
            (start, start + word.len(), format!("end{other}"), "other end")
        }
        3 if matches!(end_of, Some("block" | "macro")) => {
            let rest = &inner[word.len()..];
            let name = rest.trim_start();
            let at = b - name.len();
            let name: String = name.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if name.is_empty() {
                return;
            }
            let mut cs: Vec<char> = name.chars().collect();
            let i = r.below(cs.len());
            match r.below(6) {
                0 if cs.len() > 1 => drop(cs.pop()),
                1 if cs.len() > 1 && !cs[1].is_ascii_digit() => drop(cs.remove(0)),
                2 => cs.push(*r.pick(&['s', '_', '1'])),
                3 => cs.insert(0, 'q'),
                4 => cs[i] = if cs[i] == 'q' { 'w' } else { 'q' },
                _ => cs = if name == "other" { vec!['x'] } else { "other".chars().collect() },
            }
            (at, at + name.len(), cs.into_iter().collect(), "other name")
        }
        _ => {
            let mut cs: Vec<char> = word.chars().collect();
            let i = r.below(cs.len());
            match r.below(4) {
                0 if cs.len() > 1 => drop(cs.remove(i)),
                1 => cs.insert(i, cs[i]),
                2 => cs[i] = cs[i].to_ascii_uppercase(),
                _ => cs.push('s'),
            }
            let new: String = cs.into_iter().collect();
            if OPEN.contains(&new.as_str()) || OTHER.contains(&new.as_str()) || word == "raw" {
                return;
            }
            (start, start + word.len(), new, "misspelt")
        }
    };
    let text = format!("{}{new}{}", &it.text[..from], &it.text[to..]);
    // (what the delimiters make of it where the text is put together again)
    if it.syn.is_some() && what == "missing" {
        return;
    }
    match total(what, &text, syn) {
        Some(Ok(_)) => violation(what, &format!("a template with a tag that is {what} at {from} {:?} is accepted: {text:?}\n of {:?}", &it.text[from..to], it.text)),
        Some(Err(at)) if at < a && what != "missing" => {
            violation(what, &format!("the error points in front of the tag that is {what} at {a}, to {at} {:?}: {text:?}", position(&text, at)))
        }
        _ => {}
    }
    stat(&format!("tags_{}", what.replace(' ', "_")), 1);
}
