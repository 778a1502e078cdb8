use actix_web::body::{BodySize, BoxBody, MessageBody};
fn length(s: BodySize) -> Option<u64> { match s { BodySize::None => Some(0), BodySize::Sized(n) => Some(n), BodySize::Stream => None } }
fn types(h: &actix_web::http::header::HeaderMap) -> Vec<String> { h.get_all("content-type").map(|v| v.to_str().unwrap_or("?").to_string()).collect() }
pub fn answer<T: askama::Template + actix_web::Responder<Body = BoxBody> + 'static>(case: &str, n: usize, f: fn(usize) -> T) {
    for i in 0..n {
        let direct = catch_unwind(|| {
            let r = askama_actix::into_response(&f(i));
            let (status, types, length) = (r.status().as_u16(), types(r.headers()), length(r.body().size()));
            let body = r.into_body().try_into_bytes().map(|b| b.to_vec()).unwrap_or_default();
            Answer { status, types, length, body }
        });
        let served = catch_unwind(|| actix_rt::System::new().block_on(async {
            let app = actix_web::App::new().route("/", actix_web::web::get().to(move || { let t = f(i); async move { t } }));
            let app = actix_web::test::init_service(app).await;
            let r = actix_web::test::call_service(&app, actix_web::test::TestRequest::get().uri("/").to_request()).await;
            let (status, types, length) = (r.status().as_u16(), types(r.headers()), length(r.response().body().size()));
            let body = actix_web::test::read_body(r).await.to_vec();
            Answer { status, types, length, body }
        }));
        web(case, i, f(i), vec![("direct", direct), ("served", served)]);
    }
}
