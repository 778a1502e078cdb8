use http_body_util::BodyExt;
use axum::body::HttpBody;
use tower::util::ServiceExt;
async fn answer_of(r: axum::response::Response) -> Answer {
    let types = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect();
    let mut length = r.body().size_hint().exact();
    if let Some(l) = r.headers().get("content-length") { if Some(l.to_str().unwrap().to_string()) != length.map(|l| l.to_string()) { length = Some(u64::MAX) } }
    Answer { status: r.status().as_u16(), types, length, body: r.into_body().collect().await.unwrap().to_bytes().to_vec() }
}
pub fn answer<T: askama::Template + axum::response::IntoResponse + Send + 'static>(case: &str, n: usize, f: fn(usize) -> T) {
    let rt = || tokio::runtime::Builder::new_current_thread().build().unwrap();
    for i in 0..n {
        let direct = catch_unwind(|| { let r = askama_axum::into_response(&f(i)); rt().block_on(answer_of(r)) });
        let served = catch_unwind(|| rt().block_on(async {
            let app = axum::Router::new().route("/", axum::routing::get(move || async move { f(i) }));
            answer_of(app.oneshot(axum::http::Request::builder().uri("/").body(axum::body::Body::empty()).unwrap()).await.unwrap()).await
        }));
        let tupled = catch_unwind(|| { use axum::response::IntoResponse; rt().block_on(answer_of(f(i).into_response())) });
        web(case, i, f(i), vec![("direct", direct), ("served", served), ("into", tupled)]);
    }
}
