mod c01;
mod c11;
mod c1213;
mod c20;
mod parse;
mod tree;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, part, parts, n, thorough) = (a[1].as_str(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6] == "thorough");
    util::set_trace(std::env::var_os("RT_TRACE").is_some());
    if std::env::var_os("RT_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut r = util::Rng::new(seed, &format!("{prop}/{part}"));
    if matches!(prop, "C17" | "C18" | "C19") {
        util::watch(20);
    }
    match prop {
        "C01" => c01::run(&mut r, part, parts, n, thorough),
        "C11" => c11::run(&mut r, n),
        "C12" => c1213::run_json(&mut r, n, part),
        "C13" => c1213::run_url(&mut r, n, part),
        "C17" => parse::run_total(&mut r, part, parts, n, thorough, &parse::corpus(&a[7])),
        "C18" => parse::run_errors(&mut r, n, &parse::corpus(&a[7])),
        "C19" => tree::run(&mut r, part, parts, n, &parse::corpus(&a[7])),
        "C20" => {
            let items = parse::corpus(&a[7]);
            let what = a.get(8).map_or("", |s| s.as_str());
            if matches!(what, "" | "parsed") {
                c20::parsed(&mut r, n, &items);
            }
            if matches!(what, "" | "strings") {
                c20::strings(&mut r, n);
            }
            if matches!(what, "" | "some") {
                parse::some(&mut r, n, &items);
            }
            if what.is_empty() {
                tree::run(&mut r, part, parts, n, &items[..items.len().min(n)]);
            }
        }
        _ => panic!("unknown property"),
    }
    util::finish();
}
