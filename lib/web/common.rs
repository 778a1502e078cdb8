
// What a web framework answers with a template.
pub struct Answer { pub status: u16, pub types: Vec<String>, pub length: Option<u64>, pub body: Vec<u8> }
fn tell(case: &str, inst: usize, chan: &str, st: &str, b: &[u8]) {
    LOG.with(|l| l.borrow_mut().clear());
    println!("R {case} {inst} {chan} {st} {} t", hex(b));
}
pub fn web<T: askama::Template>(case: &str, inst: usize, t: T, answers: Vec<(&str, std::thread::Result<Answer>)>) {
    match catch_unwind(AssertUnwindSafe(|| t.render())) {
        Ok(Ok(s)) => tell(case, inst, "render", "ok", s.as_bytes()),
        Ok(Err(e)) => tell(case, inst, "render", &format!("err:{}", err_kind(&e)), b""),
        Err(_) => tell(case, inst, "render", "panic", b""),
    }
    for (chan, a) in answers {
        match a {
            Ok(a) => {
                tell(case, inst, chan, &a.status.to_string(), &a.body);
                tell(case, inst, &format!("{chan}-head"), "ok", format!("{}|{}|{}", T::MIME_TYPE, a.types.join(","), a.length.map_or("?".to_string(), |n| n.to_string())).as_bytes());
            }
            Err(_) => { tell(case, inst, chan, "panic", b""); tell(case, inst, &format!("{chan}-head"), "panic", b""); }
        }
    }
}
