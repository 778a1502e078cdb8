use rocket::http::Method;
use rocket::route::{Handler, Outcome, Route};
use rocket::{Data, Request};
struct H<T>(fn(usize) -> T, usize);
impl<T> Clone for H<T> { fn clone(&self) -> Self { H(self.0, self.1) } }
#[rocket::async_trait]
impl<T> Handler for H<T> where T: Send + Sync + 'static, for<'r> T: rocket::response::Responder<'r, 'static> {
    async fn handle<'r>(&self, req: &'r Request<'_>, _: Data<'r>) -> Outcome<'r> { Outcome::from(req, (self.0)(self.1)) }
}
pub fn answer<T: askama::Template + Send + Sync + 'static>(case: &str, n: usize, f: fn(usize) -> T) where for<'r> T: rocket::response::Responder<'r, 'static> {
    let rt = || tokio::runtime::Builder::new_current_thread().build().unwrap();
    for i in 0..n {
        let direct = catch_unwind(|| rt().block_on(async {
            let mut r = askama_rocket::into_response(&f(i));
            let types = r.headers().get("content-type").map(|s| s.to_string()).collect();
            let length = r.body_mut().size().await.map(|n| n as u64);
            Answer { status: r.status().code, types, length, body: r.body_mut().to_bytes().await.unwrap() }
        }));
        let served = catch_unwind(|| rt().block_on(async {
            let config = rocket::Config { log_level: rocket::config::LogLevel::Off, ..rocket::Config::default() };
            let routes = vec![Route::new(Method::Get, "/", H(f, i))];
            let rocket = rocket::custom(config).mount("/", routes).ignite().await.unwrap();
            let client = rocket::local::asynchronous::Client::untracked(rocket).await.unwrap();
            let r = client.get("/").dispatch().await;
            let types = r.headers().get("content-type").map(|s| s.to_string()).collect();
            let length = r.body().preset_size().map(|n| n as u64);
            Answer { status: r.status().code, types, length, body: r.into_bytes().await.unwrap_or_default() }
        }));
        web(case, i, f(i), vec![("direct", direct), ("served", served)]);
    }
}
