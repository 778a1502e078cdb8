use warp::Filter;
use warp::hyper::body::HttpBody;
pub fn answer<T: askama::Template + warp::Reply + Send + 'static>(case: &str, n: usize, f: fn(usize) -> T) {
    let rt = || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for i in 0..n {
        let direct = catch_unwind(|| rt().block_on(async {
            let r = askama_warp::into_response(&f(i));
            let types = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect();
            let length = r.body().size_hint().exact();
            Answer { status: r.status().as_u16(), types, length, body: warp::hyper::body::to_bytes(r.into_body()).await.unwrap().to_vec() }
        }));
        let served = catch_unwind(|| rt().block_on(async {
            let filter = warp::any().map(move || f(i));
            let r = warp::test::request().reply(&filter).await;
            let types = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect();
            let mut length = Some(r.body().len() as u64);
            if let Some(l) = r.headers().get("content-length") { if l.to_str().unwrap() != r.body().len().to_string() { length = Some(u64::MAX) } }
            Answer { status: r.status().as_u16(), types, length, body: r.body().to_vec() }
        }));
        web(case, i, f(i), vec![("direct", direct), ("served", served)]);
    }
}
