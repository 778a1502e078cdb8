//! The json and urlencode filters: what they write can be read back, and has no active characters.
use crate::util::*;
use askama::{filters as f, Template};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use serde_json::{Map, Number, Value};
use std::collections::BTreeMap;

fn value(r: &mut Rng, depth: usize) -> Value {
    let k = if depth == 0 { r.below(6) } else { r.below(9) };
    match k {
        0 => Value::Null,
        1 => Value::Bool(r.chance(50)),
        2 => match r.below(4) {
            0 => Value::from(r.next()),
            1 => Value::from(r.next() as i64),
            2 => Value::from(r.below(100)),
            _ => Number::from_f64(f64::from_bits(r.next())).map_or(Value::Null, Value::Number),
        },
        3..=5 => Value::String(r.text()),
        6 | 7 => Value::Array((0..r.below(5)).map(|_| value(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(5) {
                m.insert(r.text(), value(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// Serializes a value by other methods of the serializer: chunked strings, unknown lengths, ...
struct Odd<'a>(&'a Value, u64);

impl Serialize for Odd<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let k = self.1.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17);
        match self.0 {
            Value::String(v) if k % 3 == 0 => s.collect_str(&Rng::new(k, "odd").chunks(v)),
            Value::String(v) if k % 3 == 1 && v.chars().count() == 1 => s.serialize_char(v.chars().next().unwrap()),
            Value::Null if k % 2 == 0 => s.serialize_none(),
            Value::Array(a) => {
                let mut q = s.serialize_seq(if k % 2 == 0 { None } else { Some(a.len()) })?;
                for (i, x) in a.iter().enumerate() {
                    q.serialize_element(&Odd(x, k ^ i as u64))?;
                }
                q.end()
            }
            Value::Object(o) => {
                let mut q = s.serialize_map(if k % 2 == 0 { None } else { Some(o.len()) })?;
                for (i, (n, x)) in o.iter().enumerate() {
                    q.serialize_entry(n, &Odd(x, k ^ i as u64))?;
                }
                q.end()
            }
            v if k % 5 == 0 => s.serialize_some(v),
            v => v.serialize(s),
        }
    }
}

struct Bad;
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("bad"))
    }
}

struct LateBad<'a>(&'a Value);
impl Serialize for LateBad<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(self.0)?;
        q.serialize_element(&Bad)?;
        q.end()
    }
}

#[derive(Template)]
#[template(source = "{{ v|json|safe }}\u{1}<p a=\"{{ v|json }}\" b='{{ v|json|safe }}'>{{ v|json }}</p><script>{{ v|json|safe }}</script>\u{1}{{ v|tojson }}", ext = "html")]
struct Page<'a, T: Serialize> {
    v: &'a T,
}
#[derive(Template)]
#[template(source = "{{ v|json }}", ext = "txt")]
struct Plain<T: Serialize> {
    v: T,
}

fn check(what: &str, got: &str, want: &Value) {
    let nontrivial = got.contains('\\');
    if let Some(c) = got.chars().find(|c| matches!(c, '&' | '<' | '>' | '\'')) {
        violation(what, &format!("{what}: has {c:?}: {got:?} for {want:?}"));
    }
    match serde_json::from_str::<Value>(got) {
        Ok(v) if v == *want => {}
        Ok(v) => violation(what, &format!("{what}: reads back as {v:?}, not {want:?}: {got:?}")),
        Err(e) => violation(what, &format!("{what}: {e}: {got:?} for {want:?}")),
    }
    eval(nontrivial, (what, got));
}

#[derive(serde::Serialize)]
struct Typed<'a> {
    text: &'a str,
    #[serde(rename = "<a>&'\"")]
    odd: char,
    num: u64,
    opt: Option<&'a str>,
    map: BTreeMap<i32, &'a str>,
    en: En<'a>,
    tuple: (i8, f32, ()),
    bytes: &'a [u8],
}
#[derive(serde::Serialize)]
enum En<'a> {
    Unit,
    New(&'a str),
    #[serde(rename = "T<&>")]
    Tup(u8, &'a str),
    St { x: &'a str },
}

fn json(r: &mut Rng) {
    let depth = r.below(5);
    let v = value(r, depth);
    // numbers may lose precision when they are read back; only compare what stays
    let Ok(plain) = serde_json::to_string(&v) else { return };
    let v: Value = serde_json::from_str(&plain).unwrap();
    let Ok(again) = serde_json::from_str::<Value>(&serde_json::to_string(&v).unwrap()) else { return };
    if again != v {
        return;
    }
    at("json", &plain);
    sample(|| plain.clone());
    let odd = Odd(&v, r.next());
    if let Some(got) = no_panic("json", &plain, || f::json(&v).unwrap().to_string()) {
        check("json()", &got, &v);
    }
    if let Some(got) = no_panic("json", &plain, || f::json(&odd).unwrap().to_string()) {
        check("json() of a serializer", &got, &v);
    }
    let Some(Ok(page)) = no_panic("{{ |json }}", &plain, || Page { v: &odd }.render()) else {
        return violation("{{ |json }}", &format!("fails for {plain}"));
    };
    let parts: Vec<&str> = page.split('\u{1}').collect();
    // (control characters are always encoded)
    same("parts", parts.len(), 3, &plain);
    check("{{ |json|safe }}", parts[0], &v);
    let fields = parts[1]
        .strip_prefix("<p a=\"")
        .and_then(|a| a.split_once("\" b='"))
        .and_then(|(a, r)| r.split_once("'>").map(|(b, r)| (a, b, r)))
        .and_then(|(a, b, r)| r.split_once("</p><script>").map(|(t, r)| (a, b, t, r)))
        .and_then(|(a, b, t, r)| r.strip_suffix("</script>").map(|s| (a, b, t, s)));
    match fields {
        Some((a, b, t, s)) => {
            for (what, x) in [("attribute", a), ("text", t)] {
                match crate::c01::decode(x) {
                    Ok(x) => check(what, &x, &v),
                    Err(e) => violation(what, &format!("{what}: {e}: {x:?} for {plain}")),
                }
            }
            check("quoted attribute", b, &v);
            check("script", s, &v);
        }
        None => violation("markup", &format!("broken markup {:?} for {plain}", parts[1])),
    }
    check("{{ |json }} in text", &Plain { v: &v }.to_string(), &v);
    // typed values
    let s = r.text();
    let t = r.text();
    let map: BTreeMap<i32, &str> = (0..r.below(4)).map(|i| (i as i32 - 1, s.as_str())).collect();
    let en = match r.below(4) {
        0 => En::Unit,
        1 => En::New(&t),
        2 => En::Tup(7, &t),
        _ => En::St { x: &t },
    };
    let x = Typed { text: &s, odd: r.ch(), num: r.next(), opt: Some(t.as_str()).filter(|_| r.chance(50)), map, en, tuple: (-3, 0.5, ()), bytes: t.as_bytes() };
    let want: Value = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
    check("typed", &f::json(&x).unwrap().to_string(), &want);
    check("typed page", &Plain { v: &x }.render().unwrap(), &want);
    // errors
    for (what, res) in [
        ("unserialisable", no_panic("unserialisable", &0, || Plain { v: &Bad }.render())),
        ("late error", no_panic("late error", &0, || Plain { v: &LateBad(&v) }.render())),
        ("error in html", no_panic("error in html", &0, || Page { v: &LateBad(&v) }.render())),
        ("map with bad keys", no_panic("map with bad keys", &0, || Plain { v: &BTreeMap::from([(vec![1], 2)]) }.render())),
    ] {
        if let Some(Ok(s)) = res {
            violation(what, &format!("{what}: renders {s:?} although serialising fails"));
        }
        eval(true, (what, &plain));
    }
}

pub fn run_json(r: &mut Rng, n: usize, part: usize) {
    if part == 0 {
        for c in 0..0x110000 {
            if let Some(c) = char::from_u32(c) {
                let v = Value::String(format!("a{c}{c}<"));
                check("every char", &f::json(&v).unwrap().to_string(), &v);
                if c < '\u{3000}' {
                    check("char", &f::json(c).unwrap().to_string(), &Value::String(c.to_string()));
                }
            }
        }
    }
    for i in 0..n {
        r.huge(i, n);
        json(r);
    }
}

fn decode(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3).ok_or("cut triplet")?;
            if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("bad triplet %{h}"));
            }
            let v = u8::from_str_radix(h, 16).map_err(|_| format!("bad triplet %{h}"))?;
            out.push(v);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}

fn unreserved(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-' | b'~')
}

fn url(what: &str, got: &str, s: &str, slash: bool, input: &dyn std::fmt::Debug) {
    let keep = |c: u8| unreserved(c) || slash && c == b'/';
    let bad = match decode(got) {
        Err(e) => Some(e),
        Ok(d) if d != s.as_bytes() => Some(format!("decodes to {:?}", String::from_utf8_lossy(&d))),
        Ok(_) => {
            // every byte of the input in its only allowed form
            let want = s.bytes().map(|c| if keep(c) { 1 } else { 3 }).sum::<usize>();
            match got.bytes().find(|c| *c != b'%' && !keep(*c)) {
                Some(c) => Some(format!("bare {:?}", c as char)),
                None if want != got.len() => Some("encodes a character that is to be kept".to_string()),
                None => None,
            }
        }
    };
    if let Some(bad) = bad {
        violation(what, &format!("{what}: {bad}\n value:  {s:?}\n output: {got:?}\n input:  {input:?}"));
    }
    eval(got.len() != s.len(), (what, s));
}

#[derive(Template)]
#[template(source = "{{ v|urlencode }}\n{{ v|urlencode_strict }}\n<a href=\"/{{ s|urlencode }}?q={{ s|urlencode_strict }}\">\n{{ v|urlencode|urlencode }}", ext = "html")]
struct Urls<'a> {
    v: &'a Chunks,
    s: &'a str,
}

pub fn run_url(r: &mut Rng, n: usize, part: usize) {
    if part == 0 {
        for c in 0..0x110000 {
            if let Some(c) = char::from_u32(c) {
                let s = format!("{c}/{c}");
                url("every char", &f::urlencode(&s).unwrap().to_string(), &s, true, &c);
                url("every char strict", &f::urlencode_strict(&s).unwrap().to_string(), &s, false, &c);
            }
        }
    }
    for i in 0..n {
        r.huge(i, n);
        let s = r.text();
        let c = r.chunks(&s);
        at("urlencode", &s);
        sample(|| format!("{c:?}"));
        url("urlencode", &f::urlencode(&c).unwrap().to_string(), &s, true, &c);
        url("urlencode_strict", &f::urlencode_strict(&c).unwrap().to_string(), &s, false, &c);
        url("urlencode(&str)", &f::urlencode(s.as_str()).unwrap().to_string(), &s, true, &c);
        url("urlencode_strict(String)", &f::urlencode_strict(s.clone()).unwrap().to_string(), &s, false, &c);
        url("urlencode(fmt)", &f::urlencode(format_args!("<{}>", c)).unwrap().to_string(), &format!("<{s}>"), true, &c);
        let x = r.next() as i64;
        url("urlencode(i64)", &f::urlencode_strict(x).unwrap().to_string(), &x.to_string(), false, &x);
        let ch = r.ch();
        url("urlencode(char)", &f::urlencode(ch).unwrap().to_string(), &ch.to_string(), true, &ch);
        let Some(Ok(page)) = no_panic("{{ |urlencode }}", &c, || Urls { v: &c, s: &s }.render()) else {
            violation("{{ |urlencode }}", &format!("fails for {s:?}"));
            continue;
        };
        let l: Vec<&str> = page.split('\n').collect();
        same("lines", l.len(), 4, &c);
        url("{{ |urlencode }}", l[0], &s, true, &c);
        url("{{ |urlencode_strict }}", l[1], &s, false, &c);
        match l[2].strip_prefix("<a href=\"/").and_then(|x| x.strip_suffix("\">")).and_then(|x| x.split_once("?q=")) {
            Some((a, b)) => {
                url("path", a, &s, true, &c);
                url("query", b, &s, false, &c);
            }
            None => violation("link", &format!("broken link {:?} for {s:?}", l[2])),
        }
        match decode(l[3]) {
            Ok(o) => url("twice", &String::from_utf8_lossy(&o), &s, true, &c),
            Err(e) => violation("twice", &format!("{e}: {:?}", l[3])),
        }
    }
}
