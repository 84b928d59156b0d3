use std::fmt;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use vf::*;

mod filters {
    /// fails with the given text
    pub fn refuse<T: std::fmt::Display>(v: T, e: &Option<String>) -> askama::Result<T> {
        match e { Some(e) => Err(askama::Error::Custom(e.clone().into())), None => Ok(v) }
    }
}
/// a value that is written in two pieces, the second of which may fail
#[derive(Clone)] struct Two { a: String, b: Option<String> }
impl fmt::Display for Two { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.a)?; f.write_str(self.b.as_ref().ok_or(fmt::Error)?) } }
macro_rules! tpl { ($($n:ident $ext:literal),*) => { $(
    #[derive(askama_actix::Template)] #[template(source = "<{{ t }}|{{ s|refuse(e) }}>", ext = $ext, escape = "html")]
    struct $n { t: Two, s: String, e: Option<String> }
    )* } }
tpl!(Html "html", Txt "txt", Json "json", Svg "svg", Odd "odd");

struct Got { status: u16, types: Vec<Vec<u8>>, headers: usize, body: Vec<u8> }

const VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| {}, |_| {}, |_| {});
fn waker() -> Waker { unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) } }

fn axum(r: askama_axum::axum_core::response::Response) -> Got {
    let (p, mut b) = r.into_parts();
    let (w, mut body) = (waker(), vec![]);
    loop {
        match http_body::Body::poll_frame(Pin::new(&mut b), &mut Context::from_waker(&w)) {
            Poll::Ready(Some(Ok(f))) => body.extend_from_slice(f.data_ref().map_or(&[][..], |d| &d[..])),
            Poll::Ready(None) => break,
            _ => fail("the body is not there at once"),
        }
    }
    Got { status: p.status.as_u16(), types: p.headers.get_all("content-type").iter().map(|v| v.as_bytes().to_vec()).collect(), headers: p.headers.len(), body }
}
fn warp(r: askama_warp::warp::reply::Response) -> Got {
    use askama_warp::warp::hyper::body::HttpBody;
    let (p, mut b) = r.into_parts();
    let (w, mut body) = (waker(), vec![]);
    loop {
        match HttpBody::poll_data(Pin::new(&mut b), &mut Context::from_waker(&w)) {
            Poll::Ready(Some(Ok(f))) => body.extend_from_slice(&f),
            Poll::Ready(None) => break,
            _ => fail("the body is not there at once"),
        }
    }
    Got { status: p.status.as_u16(), types: p.headers.get_all("content-type").iter().map(|v| v.as_bytes().to_vec()).collect(), headers: p.headers.len(), body }
}
fn actix(r: askama_actix::actix_web::HttpResponse<askama_actix::actix_web::body::BoxBody>) -> Got {
    use askama_actix::actix_web::body::MessageBody;
    let types = r.headers().get_all("content-type").map(|v| v.as_bytes().to_vec()).collect();
    let (headers, status) = (r.headers().len(), r.status().as_u16());
    let body = match r.into_body().try_into_bytes() { Ok(b) => b.to_vec(), Err(_) => fail("the body is not there at once") };
    Got { status, types, headers, body }
}
fn rocket(mut r: askama_rocket::rocket::Response<'static>) -> Got {
    use askama_rocket::rocket::tokio::io::{AsyncRead, ReadBuf};
    let status = r.status().code;
    let types: Vec<Vec<u8>> = r.headers().get("content-type").map(|v| v.as_bytes().to_vec()).collect();
    let headers = r.headers().len();
    let size = r.body().preset_size();
    let (w, mut body) = (waker(), vec![]);
    loop {
        let mut space = [0u8; 64];
        let mut buf = ReadBuf::new(&mut space);
        match Pin::new(r.body_mut()).poll_read(&mut Context::from_waker(&w), &mut buf) { Poll::Ready(Ok(())) => {}, _ => fail("the body is not there at once") }
        if buf.filled().is_empty() { break; }
        body.extend_from_slice(buf.filled());
    }
    check(size == Some(body.len()), "size of the body");
    Got { status, types, headers, body }
}

fn page(g: Got, mime: &str, body: &[u8], who: &str) {
    emit_n(g.status as u64);
    check(g.status == 200, &format!("{who}: status of a page"));
    check(g.types.len() == 1 && g.headers == 1, &format!("{who}: one header"));
    check_eq(&g.types[0], mime.as_bytes(), &format!("{who}: content type"));
    check_eq(&g.body, body, &format!("{who}: body"));
}
fn error(g: Got, text: &str, who: &str) {
    emit_n(g.status as u64);
    check(g.status == 500, &format!("{who}: status of an error"));
    check(g.types.len() == 1, &format!("{who}: one content type of an error"));
    check_eq(&g.types[0], b"text/plain; charset=utf-8", &format!("{who}: content type of an error"));
    check_eq(&g.body, text.as_bytes(), &format!("{who}: text of an error"));
}
/// a request that nothing may look at
fn nothing<T, R>(f: impl FnOnce(&T) -> R) -> R { let room = [0u64; 1024]; assert!(std::mem::size_of::<T>() <= 8192); f(unsafe { &*(room.as_ptr() as *const T) }) }


/// ASCII text; the characters that are escaped are told apart, so that lengths are concrete
fn text(max: usize) -> String {
    let mut s = String::new();
    for _ in 0..pick(max + 1) {
        match pick(6) { 5 => s.push(ascii_plain() as char), k => s.push(['<', '>', '&', '"', '\''][k]) }
    }
    s
}
fn ascii_plain() -> u8 { let v: Vec<u8> = (0..128u8).filter(|b| !b"<>&\"'".contains(b)).collect(); one_of(&v) }
/// the data of a template: values, and what fails
fn data() -> (Two, String, Option<String>) {
    let a = text(bound(2, 3));
    let fault = pick(3);
    let b = if fault == 1 { None } else { Some(text(1)) };
    let s = ustr(1, bound(2, 3));
    (Two { a, b }, s, if fault == 2 { Some(ustr(2, bound(2, 3))) } else { None })
}
/// the same with long values and long errors
fn long() -> (Two, String, Option<String>) {
    let n = [0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193][pick(25)];
    let mut a = "x".repeat(n);
    a.push(ascii_plain() as char);
    match pick(3) {
        0 => (Two { a, b: Some("y".repeat(pick(2) * 40)) }, "z".into(), None),
        1 => (Two { a, b: None }, "z".into(), None),
        _ => (Two { a: "x".repeat(pick(2) * 100), b: Some("y".into()) }, "z".into(), Some(a)),
    }
}
/// with a life time, parameters of types, a where clause
#[derive(askama_actix::Template)] #[template(source = "{% extends \"web_base.html\" %}{% block b %}{{ t }}|{{ s|refuse(e) }}{% for x in xs %}{{ x }}{% endfor %}{% endblock %}", ext = "html")]
struct General<'a, T: fmt::Display, const N: usize> where T: Clone + Send { t: T, s: &'a str, e: Option<String>, xs: [u8; N] }

macro_rules! each { ($f:ident) => { match pick(7) {
    5 => { let (t, s, e) = data(); $f(|| General { t: t.clone(), s: &s, e: e.clone(), xs: [7, 8] }, "text/html; charset=utf-8") }
    6 => { let (t, s, e) = long(); $f(|| Html { t: t.clone(), s: s.clone(), e: e.clone() }, "text/html; charset=utf-8") }
    0 => { let (t, s, e) = data(); $f(|| Html { t: t.clone(), s: s.clone(), e: e.clone() }, "text/html; charset=utf-8") }
    1 => { let (t, s, e) = data(); $f(|| Txt { t: t.clone(), s: s.clone(), e: e.clone() }, "text/plain; charset=utf-8") }
    2 => { let (t, s, e) = data(); $f(|| Json { t: t.clone(), s: s.clone(), e: e.clone() }, "application/json") }
    3 => { let (t, s, e) = data(); $f(|| Svg { t: t.clone(), s: s.clone(), e: e.clone() }, "image/svg+xml") }
    _ => { let (t, s, e) = data(); $f(|| Odd { t: t.clone(), s: s.clone(), e: e.clone() }, "application/octet-stream") }
} } }

fn axum_one<T: askama::Template + askama_axum::axum_core::response::IntoResponse>(mk: impl Fn() -> T, mime: &str) {
    let tried = askama_axum::try_into_response(&mk());
    match mk().render() {
        Ok(want) => {
            reach("page");
            page(axum(tried.ok().unwrap()), mime, want.as_bytes(), "try_into_response");
            page(axum(askama_axum::into_response(&mk())), mime, want.as_bytes(), "into_response");
            page(axum(mk().into_response()), mime, want.as_bytes(), "IntoResponse");
        }
        Err(e) => {
            reach("error");
            check_str(&tried.err().unwrap().to_string(), &e.to_string(), "try_into_response: the error");
            error(axum(askama_axum::into_response(&mk())), &e.to_string(), "into_response");
            error(axum(mk().into_response()), &e.to_string(), "IntoResponse");
        }
    }
}
pub fn web_axum() { each!(axum_one) }

fn warp_one<T: askama::Template + askama_warp::warp::Reply>(mk: impl Fn() -> T, mime: &str) {
    let tried = askama_warp::try_into_response(&mk());
    match mk().render() {
        Ok(want) => {
            reach("page");
            page(warp(tried.ok().unwrap()), mime, want.as_bytes(), "try_into_response");
            page(warp(askama_warp::into_response(&mk())), mime, want.as_bytes(), "into_response");
            page(warp(mk().into_response()), mime, want.as_bytes(), "Reply");
        }
        Err(e) => {
            reach("error");
            check_str(&tried.err().unwrap().to_string(), &e.to_string(), "try_into_response: the error");
            error(warp(askama_warp::into_response(&mk())), &e.to_string(), "into_response");
            error(warp(mk().into_response()), &e.to_string(), "Reply");
        }
    }
}
pub fn web_warp() { each!(warp_one) }

fn actix_one<T: askama::Template + askama_actix::actix_web::Responder<Body = askama_actix::actix_web::body::BoxBody>>(mk: impl Fn() -> T, mime: &str) {
    let tried = askama_actix::try_into_response(&mk());
    match mk().render() {
        Ok(want) => {
            reach("page");
            page(actix(tried.ok().unwrap()), mime, want.as_bytes(), "try_into_response");
            page(actix(askama_actix::into_response(&mk())), mime, want.as_bytes(), "into_response");
            page(actix(nothing(|r| mk().respond_to(r))), mime, want.as_bytes(), "Responder");
        }
        Err(e) => {
            reach("error");
            check_str(&tried.err().unwrap().to_string(), &e.to_string(), "try_into_response: the error");
            error(actix(askama_actix::into_response(&mk())), &e.to_string(), "into_response");
            error(actix(nothing(|r| mk().respond_to(r))), &e.to_string(), "Responder");
        }
    }
}
pub fn web_actix() { each!(actix_one) }

fn rocket_one<T: askama::Template + for<'r> askama_rocket::rocket::response::Responder<'r, 'static>>(mk: impl Fn() -> T, mime: &str) {
    let tried = askama_rocket::try_into_response(&mk());
    match mk().render() {
        Ok(want) => {
            reach("page");
            page(rocket(tried.ok().unwrap()), mime, want.as_bytes(), "try_into_response");
            page(rocket(askama_rocket::into_response(&mk())), mime, want.as_bytes(), "into_response");
            page(rocket(askama_rocket::respond(&mk()).ok().unwrap()), mime, want.as_bytes(), "respond");
            page(rocket(nothing(|r| mk().respond_to(r)).ok().unwrap()), mime, want.as_bytes(), "Responder");
        }
        Err(e) => {
            reach("error");
            check_str(&tried.err().unwrap().to_string(), &e.to_string(), "try_into_response: the error");
            error(rocket(askama_rocket::into_response(&mk())), &e.to_string(), "into_response");
            check(askama_rocket::respond(&mk()).err().map(|s| s.code) == Some(500), "respond: status of an error");
            check(nothing(|r| mk().respond_to(r)).err().map(|s| s.code) == Some(500), "Responder: status of an error");
        }
    }
}
pub fn web_rocket() { each!(rocket_one) }

vf::harnesses!(web_axum, web_warp, web_actix, web_rocket);
