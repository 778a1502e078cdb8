//! Built-in filters against reference functions, for every way the piped value is displayed.
use crate::util::*;
use askama::{filters as f, Template};
use std::fmt::{Debug, Display};

const MAX: usize = 10_000;

/// Results that the documentation allows
type Refs = Vec<String>;

fn cap(s: &str) -> Refs {
    let mut it = s.chars();
    let Some(c) = it.next() else { return vec![String::new()] };
    let up: String = c.to_uppercase().collect();
    let rest = it.as_str();
    vec![format!("{up}{}", rest.to_lowercase()), format!("{up}{}", rest.chars().flat_map(|c| c.to_lowercase()).collect::<String>())]
}

fn title(s: &str) -> Refs {
    let mut words = Vec::new();
    let mut start = true;
    let mut by_char = String::new();
    let mut rest = String::new();
    let mut by_word = String::new();
    for c in s.chars() {
        if c.is_whitespace() {
            by_word.push_str(&std::mem::take(&mut rest).to_lowercase());
            by_word.push(c);
            by_char.push(c);
            start = true;
            words.push(c);
        } else if start {
            by_char.extend(c.to_uppercase());
            by_word.extend(c.to_uppercase());
            start = false;
        } else {
            by_char.extend(c.to_lowercase());
            rest.push(c);
        }
    }
    by_word.push_str(&rest.to_lowercase());
    vec![by_char.clone(), by_word, title_titlecase(s)]
}

// letters that are title case already (as U+01C5) may stay what they are
fn title_titlecase(s: &str) -> String {
    let mut out = String::new();
    let mut start = true;
    for c in s.chars() {
        if c.is_whitespace() {
            start = true;
            out.push(c);
        } else if start {
            start = false;
            if c.is_uppercase() { out.push(c) } else { out.extend(c.to_uppercase()) }
        } else if c.is_lowercase() {
            out.push(c)
        } else {
            out.extend(c.to_lowercase())
        }
    }
    out
}

fn center(s: &str, w: usize) -> Refs {
    let n = s.chars().count();
    if w >= 4 * MAX {
        return vec![s.to_string()];
    }
    let pad = w.saturating_sub(n);
    let r = format!("{}{s}{}", " ".repeat(pad / 2), " ".repeat(pad - pad / 2));
    if w >= MAX { vec![s.to_string(), r] } else { vec![r] }
}

fn indent(s: &str, w: usize) -> Refs {
    let big = w >= MAX || s.len() >= MAX;
    if big && (w >= 4 * MAX || s.matches('\n').count() * w > 1_000_000) {
        return vec![s.to_string()];
    }
    let mut lines: Vec<&str> = s.split('\n').collect();
    let tail = if lines.len() > 1 && lines.last() == Some(&"") {
        lines.pop();
        "\n"
    } else {
        ""
    };
    let r = lines.join(&format!("\n{}", " ".repeat(w))) + tail;
    if big { vec![s.to_string(), r] } else { vec![r] }
}

fn pieces(s: &str) -> Vec<&str> {
    // text between pairs of line breaks, found from the left
    let mut out = Vec::new();
    let b = s.as_bytes();
    let (mut start, mut i) = (0, 0);
    while i + 1 < b.len() {
        if b[i] == b'\n' && b[i + 1] == b'\n' {
            out.push(&s[start..i]);
            i += 2;
            start = i;
        } else {
            i += 1;
        }
    }
    out.push(&s[start..]);
    out
}

fn brs(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c == '\n' { out.push_str("<br/>") } else { out.push(c) }
    }
    out
}

fn linebreaks(s: &str) -> Refs {
    let ps: Vec<String> = pieces(s).into_iter().map(|p| format!("<p>{}</p>", brs(p))).collect();
    vec![ps.concat()]
}

fn paragraphs(s: &str) -> Refs {
    vec![pieces(s).into_iter().filter(|p| !p.is_empty()).map(|p| format!("<p>{p}</p>")).collect::<Vec<_>>().concat()]
}

fn trim(s: &str) -> Refs {
    let cs: Vec<char> = s.chars().collect();
    let a = cs.iter().position(|c| !c.is_whitespace()).unwrap_or(cs.len());
    let b = cs.iter().rposition(|c| !c.is_whitespace()).map_or(a, |i| i + 1);
    vec![cs[a..b].iter().collect()]
}

fn truncate(s: &str, n: usize) -> Refs {
    // whole characters, as few as needed for `n` bytes
    let mut out = String::new();
    for c in s.chars() {
        if out.len() >= n {
            return vec![out + "..."];
        }
        out.push(c);
    }
    vec![out]
}

fn words(s: &str) -> usize {
    let mut n = 0;
    let mut inside = false;
    for c in s.chars() {
        let w = !c.is_whitespace();
        n += (w && !inside) as usize;
        inside = w;
    }
    n
}

fn allowed(what: &str, got: &str, want: &Refs, input: &dyn Debug, changed: bool) {
    if !want.iter().any(|w| w == got) {
        violation(what, &format!("{what}\n got:      {got:?}\n expected: {:?}\n input:    {input:?}", want[0]));
    }
    eval(changed, (what, got));
}

/// What a filter makes of a value is tried on the chunked value, the string, and references
macro_rules! text_filter {
    ($name:expr, $c:expr, $s:expr, $want:expr, $input:expr, |$v:ident| $call:expr) => {{
        let want: Refs = $want;
        at($name, $s);
        for round in 0..3 {
            let got = no_panic($name, &$input, || match round {
                0 => { let $v = $c; $call.map(|v| v.to_string()).map_err(drop) }
                1 => { let $v = $s; $call.map(|v| v.to_string()).map_err(drop) }
                _ => { let $v = &&$c; $call.map(|v| v.to_string()).map_err(drop) }
            });
            match got {
                Some(Ok(got)) => allowed($name, &got, &want, &$input, got != *$s),
                Some(Err(())) => violation($name, &format!("{} fails for {:?}", $name, $input)),
                None => {}
            }
        }
    }};
}

fn num(r: &mut Rng, s: &str) -> usize {
    match r.below(14) {
        0 => 0,
        1 => s.len(),
        2 => s.len().wrapping_sub(1).min(s.len()),
        3 => s.len() + 1,
        4 => s.chars().count(),
        5 => MAX - 1,
        6 => *r.pick(&[MAX, MAX + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, 65536, u32::MAX as usize]),
        7..=10 => r.below(s.len() + 2),
        _ => r.below(40),
    }
}

fn text(r: &mut Rng) {
    let s = match r.below(30) {
        // long texts
        0 => {
            let t = r.text();
            let n = *r.pick(&[MAX - 1, MAX, MAX + 1, MAX + 5]);
            let mut out = String::new();
            while out.len() < n {
                out.push_str(if t.is_empty() { "\n" } else { &t });
            }
            let mut n = n;
            while !out.is_char_boundary(n) {
                n -= 1;
            }
            out.truncate(n);
            out
        }
        1..=6 => (0..r.below(12)).map(|_| *r.pick(&['\n', '\n', 'a', ' ', 'é'])).collect(),
        _ => r.text(),
    };
    let c = &r.chunks(&s);
    let s = &s;
    sample(|| format!("{c:?}"));
    text_filter!("capitalize", c, s, cap(s), c, |v| f::capitalize(v));
    text_filter!("title", c, s, title(s), c, |v| f::title(v));
    text_filter!("lower", c, s, vec![s.to_lowercase()], c, |v| f::lower(v));
    text_filter!("lowercase", c, s, vec![s.to_lowercase()], c, |v| f::lowercase(v));
    text_filter!("upper", c, s, vec![s.to_uppercase()], c, |v| f::upper(v));
    text_filter!("uppercase", c, s, vec![s.to_uppercase()], c, |v| f::uppercase(v));
    text_filter!("trim", c, s, trim(s), c, |v| f::trim(v));
    text_filter!("linebreaks", c, s, linebreaks(s), c, |v| f::linebreaks(v));
    text_filter!("linebreaksbr", c, s, vec![brs(s)], c, |v| f::linebreaksbr(v));
    text_filter!("paragraphbreaks", c, s, paragraphs(s), c, |v| f::paragraphbreaks(v));
    let n = num(r, s);
    text_filter!("truncate", c, s, truncate(s, n), (n, c), |v| f::truncate(v, n));
    // (not too much text)
    let small = |n: usize| if n < MAX && s.matches('\n').count() * n > 100_000 { n % 100 } else { n };
    let n = small(num(r, s));
    text_filter!("indent", c, s, indent(s, n), (n, c), |v| f::indent(v, n));
    let n = num(r, s);
    text_filter!("center", c, s, center(s, n), (n, c), |v| f::center(v, n));
    text_filter!("wordcount", c, s, vec![words(s).to_string()], c, |v| f::wordcount(v));
    // in templates
    let n = small(num(r, s));
    let t = Page { v: c, s, n };
    let Some(Ok(page)) = no_panic("filters in a template", &(c, n), || t.render()) else { return };
    let parts: Vec<&str> = page.split('\u{1}').collect();
    if s.contains('\u{1}') {
        return;
    }
    let want: [(&str, Refs); 22] = [
        ("{{ |capitalize }}", cap(s)), ("{{ |title }}", title(s)), ("{{ |lower }}", vec![s.to_lowercase()]), ("{{ |upper }}", vec![s.to_uppercase()]),
        ("{{ |trim }}", trim(s)), ("{{ |linebreaks }}", linebreaks(s)), ("{{ |linebreaksbr }}", vec![brs(s)]), ("{{ |paragraphbreaks }}", paragraphs(s)),
        ("{{ |truncate }}", truncate(s, n)), ("{{ |indent }}", indent(s, n)), ("{{ |center }}", center(s, n)), ("{{ |wordcount }}", vec![words(s).to_string()]),
        ("{{ |fmt }}", vec![format!("{s:?}")]), ("{{ |format }}", vec![format!("{s:>5}|{n:04}|{c}")]), ("{{ |as_ref|deref }}", vec![s.clone()]),
        ("{{ |lowercase }}", vec![s.to_lowercase()]), ("{{ |uppercase }}", vec![s.to_uppercase()]),
        ("{{ |trim|upper|truncate }}", truncate(&trim(s)[0].to_uppercase(), n)), ("{{ |title|trim|wordcount }}", vec![words(s).to_string()]),
        ("{{ |trim|linebreaks|indent }}", indent(&linebreaks(&trim(s)[0])[0], n)),
        ("{{ |upper|center(n)|trim }}", trim(&s.to_uppercase())), ("{{ |fmt|len }}", vec![format!("{s:?}")]),
    ];
    same("parts", parts.len(), want.len(), c);
    for ((what, refs), got) in want.iter().zip(parts) {
        allowed(what, got, refs, &(n, c), true);
    }
}

#[derive(Template)]
#[template(source = "{{ v|capitalize }}\u{1}{{ v|title }}\u{1}{{ v|lower }}\u{1}{{ v|upper }}\u{1}{{ v|trim }}\u{1}{{ v|linebreaks }}\u{1}{{ v|linebreaksbr }}\u{1}{{ v|paragraphbreaks }}\u{1}{{ v|truncate(n.clone()) }}\u{1}{{ v|indent(n.clone()) }}\u{1}{{ v|center(n.clone()) }}\u{1}{{ v|wordcount }}\u{1}{{ s|fmt(\"{:?}\") }}\u{1}{{ \"{:>5}|{:04}|{}\"|format(s, n, v) }}\u{1}{{ s|as_ref|deref }}\u{1}{{ v|lowercase }}\u{1}{{ v|uppercase }}\u{1}{{ v|trim|upper|truncate(n.clone()) }}\u{1}{{ v|title|trim|wordcount }}\u{1}{{ v|trim|linebreaks|indent(n.clone()) }}\u{1}{{ v|upper|center(n.clone())|trim }}\u{1}{{ s|as_ref|fmt(\"{:?}\") }}", ext = "txt")]
struct Page<'a> {
    v: &'a Chunks,
    s: &'a String,
    n: usize,
}

/// Random chains of filters on texts
fn chain(r: &mut Rng) {
    let s = r.text();
    let c = r.chunks(&s);
    let mut want: Refs = vec![s.clone()];
    let mut got: Option<String> = None;
    let mut names = Vec::new();
    let steps: Vec<(usize, usize)> = (0..r.range(2, 6)).map(|_| (r.below(12), if r.chance(50) { num(r, &s) % 60 } else { r.below(30) })).collect();
    for (k, n) in &steps {
        let n = *n;
        // each step gets its input in other pieces
        let input = match &got {
            None => c.clone(),
            Some(g) => r.chunks(g),
        };
        type F = fn(&Chunks, usize) -> Option<String>;
        type R = fn(&str, usize) -> Refs;
        macro_rules! fr {
            ($n:expr, |$v:ident, $k:ident| $e:expr, |$s:ident, $m:ident| $w:expr) => {
                ($n, (|$v: &Chunks, $k: usize| $e.ok().map(|x| x.to_string())) as F, (|$s: &str, $m: usize| $w) as R)
            };
        }
        let (name, go, wf) = match k {
            0 => fr!("capitalize", |v, _n| f::capitalize(v), |s, _n| cap(s)),
            1 => fr!("title", |v, _n| f::title(v), |s, _n| title(s)),
            2 => fr!("lower", |v, _n| f::lower(v), |s, _n| vec![s.to_lowercase()]),
            3 => fr!("upper", |v, _n| f::upper(v), |s, _n| vec![s.to_uppercase()]),
            4 => fr!("trim", |v, _n| f::trim(v), |s, _n| trim(s)),
            5 => fr!("linebreaks", |v, _n| f::linebreaks(v), |s, _n| linebreaks(s)),
            6 => fr!("linebreaksbr", |v, _n| f::linebreaksbr(v), |s, _n| vec![brs(s)]),
            7 => fr!("paragraphbreaks", |v, _n| f::paragraphbreaks(v), |s, _n| paragraphs(s)),
            8 | 9 => fr!("truncate", |v, n| f::truncate(v, n), |s, n| truncate(s, n)),
            10 => fr!("indent", |v, n| f::indent(v, n), |s, n| indent(s, n)),
            _ => fr!("center", |v, n| f::center(v, n), |s, n| center(s, n)),
        };
        names.push((name, n));
        let Some(Some(g)) = no_panic("chain", &(&names, &c), || go(&input, n)) else { return };
        want = want.iter().flat_map(|w| wf(w, n)).collect();
        want.sort();
        want.dedup();
        want.truncate(8);
        got = Some(g);
    }
    allowed("chain of filters", &got.unwrap(), &want, &(&names, &c), true);
}

fn join(r: &mut Rng) {
    let items: Vec<Chunks> = (0..r.below(6)).map(|_| { let s = r.text(); r.chunks(&s) }).collect();
    let sep = if r.chance(20) { String::new() } else { r.text() };
    let sepc = r.chunks(&sep);
    let strs: Vec<String> = items.iter().map(|i| i.to_string()).collect();
    let mut want = String::new();
    for (i, s) in strs.iter().enumerate() {
        if i > 0 {
            want.push_str(&sep);
        }
        want.push_str(s);
    }
    let input = (&items, &sepc);
    let w = vec![want.clone()];
    let nt = items.len() > 1;
    allowed("join(&Vec)", &f::join(&items, &sepc).unwrap().to_string(), &w, &input, nt);
    allowed("join(Vec)", &f::join(items.clone(), sep.as_str()).unwrap().to_string(), &w, &input, nt);
    allowed("join(slice)", &f::join(&items[..], &sep).unwrap().to_string(), &w, &input, nt);
    allowed("join(iter)", &f::join(strs.iter().map(|s| s.as_str()), &sepc).unwrap().to_string(), &w, &input, nt);
    allowed("join(once)", &f::join(items.iter().filter(|_| true), &sepc).unwrap().to_string(), &w, &input, nt);
    let t = Joins { items: &items, strs: &strs, sep: &sepc };
    allowed("{{ |join }}", &t.render().unwrap(), &vec![format!("{want}{want}{}", want.to_uppercase())], &input, nt);
}

#[derive(Template)]
#[template(source = "{{ items|join(sep) }}{{ strs|join(sep) }}{{ strs|join(sep)|upper }}", ext = "txt")]
struct Joins<'a> {
    items: &'a Vec<Chunks>,
    strs: &'a [String],
    sep: &'a Chunks,
}

fn size_ok(s: &str, v: f64) -> Result<(), String> {
    let (n, unit) = s.split_once(' ').ok_or("no unit")?;
    let units = ["B", "kB", "MB", "GB", "TB", "PB", "EB", "ZB", "YB"];
    let k = units.iter().position(|u| u.eq_ignore_ascii_case(unit)).ok_or(format!("unit {unit}"))?;
    if n.split_once('.').is_some_and(|(_, d)| d.is_empty() || d.len() > 2) {
        return Err("digits".into());
    }
    let x: f64 = n.parse().map_err(|_| "number".to_string())?;
    if (x < 0.0) != (v < 0.0) && x != 0.0 {
        return Err("sign".into());
    }
    let scale = 1000f64.powi(k as i32);
    if (x * scale - v).abs() > 0.005001 * scale + v.abs() * 1e-12 {
        return Err(format!("{x} {unit} is not {v}"));
    }
    if (x.abs() > 1000.0 && k < 8) || (x.abs() < 1.0 && k > 0) {
        return Err("unit is not adequate".into());
    }
    Ok(())
}

fn int(r: &mut Rng) -> i64 {
    let b = r.below(64);
    let v = (r.next() >> b) as i64;
    match r.below(6) {
        0 => 1000i64.pow(r.below(7) as u32) + r.below(5) as i64 - 2,
        1 => 999i64 * 1000i64.pow(r.below(6) as u32) + r.below(1000) as i64,
        2 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN + 1, 999, 1000, 1023, 1024, 999_999, 1_000_000]),
        3 => -v.max(i64::MIN + 1),
        _ => v.max(i64::MIN + 1),
    }
}

fn numbers(r: &mut Rng) {
    let v = int(r);
    at("numbers", &v.to_string());
    let size = |what: &str, got: String, v: f64| {
        if let Err(e) = size_ok(&got, v) {
            violation(what, &format!("{what}: {e}: {got:?} for {v:?}"));
        }
        eval(true, (what, got));
    };
    if let Some(got) = no_panic("filesizeformat", &v, || f::filesizeformat(&v).unwrap().to_string()) {
        size("filesizeformat", got, v as f64);
    }
    let u = v.unsigned_abs();
    size("filesizeformat", f::filesizeformat(&u).unwrap().to_string(), u as f64);
    let x = v as f64 / [1.0, 3.0, 1000.0, 7.7][r.below(4)];
    size("filesizeformat", f::filesizeformat(&x).unwrap().to_string(), x);
    size("{{ |filesizeformat }}", Sizes { v, u: u as usize, x: x as f32 }.to_string().split('\n').next().unwrap().to_string(), v as f64);
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, f64::MIN_POSITIVE, -0.0, 1e27, 9.99999e26, 1e30, -1.5e29] {
        at("filesizeformat", &x.to_string());
        if let Some(got) = no_panic("filesizeformat", &x, || f::filesizeformat(&x).unwrap().to_string()) {
            if x.is_finite() {
                size("filesizeformat of huge values", got, x);
            }
        }
    }
    // abs
    let refs = |what: &str, got: String, want: String| {
        same(what, got.clone(), want, v);
        eval(v < 0, (what, got));
    };
    refs("abs", f::abs(v).unwrap().to_string(), u.to_string());
    refs("abs i32", f::abs((v as i32).max(-i32::MAX)).unwrap().to_string(), ((v as i32).max(-i32::MAX) as i64).unsigned_abs().to_string());
    refs("abs i8", f::abs((v as i8).max(-127)).unwrap().to_string(), ((v as i8).max(-127) as i64).unsigned_abs().to_string());
    refs("abs i128", f::abs(v as i128 * 3).unwrap().to_string(), (u as u128 * 3).to_string());
    refs("abs isize", f::abs(v as isize).unwrap().to_string(), u.to_string());
    refs("abs f64", f::abs(x).unwrap().to_string(), if x < 0.0 { (-x).to_string() } else { (x + 0.0).to_string() });
    refs("abs f32", f::abs(-1.5f32).unwrap().to_string(), "1.5".into());
    // conversions
    refs("into_f64", f::into_f64(v).unwrap().to_string(), (v as f64).to_string());
    refs("into_f64 u8", f::into_f64(v as u8).unwrap().to_string(), ((v as u8) as f64).to_string());
    refs("into_f64 u64", f::into_f64(u).unwrap().to_string(), (u as f64).to_string());
    refs("into_f64 f32", f::into_f64(x as f32).unwrap().to_string(), (x as f32 as f64).to_string());
    refs("into_isize", f::into_isize(v).unwrap().to_string(), v.to_string());
    refs("into_isize i8", f::into_isize(v as i8).unwrap().to_string(), (v as i8).to_string());
    let big = u as u128 * 5;
    same("into_isize u128", f::into_isize(big).ok().map(|x| x as i128), i64::try_from(big).ok().map(|x| x as i128), big);
    let uu = u.wrapping_mul(3);
    same("into_isize u64", f::into_isize(uu).ok().map(|x| x as i128), i64::try_from(uu).ok().map(|x| x as i128), uu);
    let tr = x.trunc();
    let fits = tr >= -9223372036854775808.0 && tr < 9223372036854775808.0;
    same("into_isize f64", f::into_isize(x).ok(), fits.then_some(tr as isize), x);
    same("into_isize NaN", f::into_isize(f64::NAN).is_ok(), false, 0);
    same("into_isize inf", f::into_isize(f64::INFINITY).is_ok(), false, 0);
    let t = Sizes { v, u: u as usize, x: x as f32 };
    let Some(Ok(page)) = no_panic("numbers in a template", &v, || t.render()) else {
        return violation("numbers in a template", &format!("fails for {v}"));
    };
    let l: Vec<&str> = page.split('\n').collect();
    refs("{{ |abs }}", l[1].into(), u.to_string());
    refs("{{ |into_f64 }}", l[2].into(), (v as f64).to_string());
    refs("{{ |into_isize }}", l[3].into(), v.to_string());
    refs("{{ |fmt }}", l[4].into(), format!("{v:+08x}"));
    refs("{{ |format }}", l[5].into(), format!("{v:?}-{u:#x}-{:.3}", x as f32));
    refs("{{ (..)|abs }}", l[6].into(), ((v / 3) * -1).unsigned_abs().to_string());
    size("{{ |into_f64|filesizeformat }}", l[7].into(), v as f64);
}

#[derive(Template)]
#[template(source = "{{ v|filesizeformat }}\n{{ v.clone()|abs }}\n{{ v.clone()|into_f64 }}\n{{ v.clone()|into_isize }}\n{{ v|fmt(\"{:+08x}\") }}\n{{ \"{:?}-{:#x}-{:.3}\"|format(v, u, x) }}\n{{ ((v / 3) * -1).clone()|abs }}\n{% let y = v.clone()|into_f64 %}{{ y|filesizeformat }}", ext = "txt")]
struct Sizes {
    v: i64,
    u: usize,
    x: f32,
}

/// Values that are no strings
fn others<T: Display + Debug>(r: &mut Rng, v: T) {
    let s = v.to_string();
    let n = r.below(12);
    let input = (&v, n);
    allowed("center of other values", &f::center(&v, n).unwrap().to_string(), &center(&s, n), &input, n > s.len());
    allowed("truncate of other values", &f::truncate(&v, n).unwrap().to_string(), &truncate(&s, n), &input, n < s.len());
    allowed("indent of other values", &f::indent(&v, n).unwrap().to_string(), &indent(&s, n), &input, false);
    allowed("trim of other values", &f::trim(&v).unwrap().to_string(), &trim(&s), &input, false);
    allowed("upper of other values", &f::upper(&v).unwrap().to_string(), &vec![s.to_uppercase()], &input, true);
}

pub fn run(r: &mut Rng, n: usize) {
    for i in 0..n {
        r.huge(i, n);
        text(r);
        for _ in 0..3 {
            chain(r);
        }
        join(r);
        numbers(r);
        let v = int(r);
        others(r, v);
        others(r, v as f64 / 7.0);
        others(r, v % 2 == 0);
        let c = r.ch();
        others(r, c);
        others(r, Box::new(v as u8));
        // a displayed value that regards the width it is given
        let t = r.text();
        others(r, t);
    }
}
