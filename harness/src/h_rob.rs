//! no input takes the server down: after any bytes on one connection the next
//! connection is served (one pool worker, so a lost worker is noticed)
use crate::h_req::server;
use crate::net::*;
use crate::se::*;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_rob_first", h_rob_first));
    v.push(("h_rob_line", h_rob_line));
    v.push(("h_rob_target", h_rob_target));
    v.push(("h_rob_head", h_rob_head));
    v.push(("h_rob_field", h_rob_field));
    v.push(("h_rob_form", h_rob_form));
    v.push(("h_rob_multi", h_rob_multi));
    v.push(("h_rob_length", h_rob_length));
    v.push(("h_rob_panic", h_rob_panic));
    v.push(("h_rob_send", h_rob_send));
    v.push(("h_rob_cut", h_rob_cut));
    v.push(("h_rob_accept", h_rob_accept));
    v.push(("h_rob_fault", h_rob_fault));
}

/// a handler that looks at everything a handler can look at
fn touch(c: &mut Context) {
    let mut n = 0;
    n += c.req_header().len();
    n += c.req_header_get("Host").is_some() as usize;
    n += c.req_userinfo().map_or(0, |u| u.username().len() + u.password().len());
    n += c.req_path().len();
    n += c.req_client_addr().to_string().len();
    n += c.req_is_web_socket() as usize;
    n += c.req_cookies().len();
    n += c.req_cookie_get("k").is_some() as usize;
    n += c.req_param("k").map_or(0, |p| p.len());
    n += c.req_count_param();
    n += c.req_field("k").is_some() as usize;
    n += c.req_count_fields();
    if let Ok(f) = c.req_form("k") {
        n += f.map_or(0, |x| x.len());
        n += c.req_count_form().unwrap_or(0);
        if let Ok(Some(f)) = c.req_form_file("k") {
            n += f.size() + f.content().len() + f.filename().len();
        }
    }
    c.resp_body(vec![b'0' + (n % 10) as u8]);
    c.response();
}
fn well(c: &mut Context) {
    c.resp_body(b"well".to_vec());
    c.response();
}
fn boom(_c: &mut Context) {
    panic!("handler")
}
fn srv() -> HttpServer {
    let s = server();
    let r = s.router("");
    r.get("/a", touch);
    r.post("/a", touch);
    r.get("/well", well);
    r.get("/boom", boom);
    s
}
fn good() -> Conn {
    conn(vec![b"GET /well HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()], 0)
}
/// one odd connection, then a good one
fn then_good(c: Conn) -> Vec<u8> {
    // which handle cannot be duplicated decides how far the connection gets, and that is a race
    let race = c.dup_fail > 0;
    let r = serve(srv(), vec![c, good()]);
    if !race {
        observe_out(&r[0].out);
    }
    observe_out(&r[1].out);
    let (code, body) = answer(&r[1].out);
    check(code == 200 && same(&body, b"well"), "the next connection is served");
    check(r[0].fds == 0, "the connection is closed");
    reach("end");
    r[0].out.clone()
}
fn answered(out: &[u8]) {
    check(answer(out).0 != 0, "the request is answered");
}
/// any n bytes, then end of stream or reset
#[no_mangle]
pub extern "C" fn h_rob_first() {
    let n = choice(deep(5, 7));
    let b = bytes(n);
    then_good(conn(if n > 0 { vec![b] } else { vec![] }, [0, 2][choice(2)]));
}
/// any n bytes as the request line before a good head
#[no_mangle]
pub extern "C" fn h_rob_line() {
    let mut b = bytes(choice(deep(6, 8)));
    b.extend_from_slice(b"\r\nHost: h\r\n\r\n");
    answered(&then_good(conn(vec![b], 0)));
}
/// any target
#[no_mangle]
pub extern "C" fn h_rob_target() {
    let mut m = [&b"GET /a"[..], b"GET ", b"POST /a?"][choice(3)].to_vec();
    m.extend(bytes(choice(deep(4, 6))));
    m.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    answered(&then_good(conn(vec![m], 0)));
}
/// any header block
#[no_mangle]
pub extern "C" fn h_rob_head() {
    let mut m = b"GET /a HTTP/1.1\r\n".to_vec();
    m.extend(bytes(choice(deep(5, 7))));
    m.extend_from_slice(b"Host: h\r\n\r\n");
    answered(&then_good(conn(vec![m], 0)));
}
const FIELDS: [&str; 9] = ["Cookie", "Authorization", "Authorization: Basic", "Content-Type", "Content-Type: multipart/form-data;", "Accept-Encoding", "Connection", "Upgrade", "Host"];
/// any value of the header fields the server interprets
#[no_mangle]
pub extern "C" fn h_rob_field() {
    let f = FIELDS[choice(9)];
    let mut m = b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n".to_vec();
    m.extend_from_slice(f.as_bytes());
    m.extend_from_slice(if f.len() > 16 { b" " } else { b": " });
    m.extend(bytes(choice(deep(4, 5))));
    m.extend_from_slice(b"\r\n\r\nk=v");
    answered(&then_good(conn(vec![m], 0)));
}
fn post(ct: &str, body: &[u8]) -> Vec<u8> {
    let mut m = format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", ct, body.len()).into_bytes();
    m.extend_from_slice(body);
    m
}
/// any urlencoded body
#[no_mangle]
pub extern "C" fn h_rob_form() {
    let b = bytes(choice(deep(5, 7)));
    answered(&then_good(conn(vec![post("application/x-www-form-urlencoded", &b)], 0)));
}
/// any bytes at the places of a multipart body that have structure
#[no_mangle]
pub extern "C" fn h_rob_multi() {
    let x = bytes(choice(deep(4, 5)));
    let mut b = vec![];
    match choice(6) {
        0 => b.extend(x),
        1 => {
            b.extend_from_slice(b"--b\r\n");
            b.extend(x);
            b.extend_from_slice(b"\r\n\r\nv\r\n--b--\r\n");
        }
        2 => {
            b.extend_from_slice(b"--b\r\nContent-Disposition: form-data;");
            b.extend(x);
            b.extend_from_slice(b"\r\n\r\nv\r\n--b--\r\n");
        }
        3 => {
            b.extend_from_slice(b"--b\r\nContent-Disposition: form-data; name=\"k\"; filename=\"");
            b.extend(x);
            b.extend_from_slice(b"\r\nContent-Type: text/plain\r\n\r\nv\r\n--b--\r\n");
        }
        4 => {
            b.extend_from_slice(b"--b\r\nContent-Disposition: form-data; name=\"k\"\r\n\r\n");
            b.extend(x);
            b.extend_from_slice(b"\r\n--b--\r\n");
        }
        _ => {
            b.extend_from_slice(b"--b\r\nContent-Disposition: form-data; name=\"k\"; filename=\"f\"\r\n\r\nv");
            b.extend(x);
            b.extend_from_slice(b"--b--");
        }
    }
    answered(&then_good(conn(vec![post("multipart/form-data; boundary=b", &b)], 0)));
}
/// any declared length
#[no_mangle]
pub extern "C" fn h_rob_length() {
    let mut m = [&b"POST"[..], b"GET", b"PUT"][choice(3)].to_vec();
    m.extend_from_slice(b" /a HTTP/1.1\r\nHost: h\r\nContent-Length: ");
    m.extend(bytes(choice(deep(4, 6))));
    m.extend_from_slice(b"\r\n\r\nk=v");
    answered(&then_good(conn(vec![m], 0)));
}
/// a handler that panics takes nothing down but its own request
#[no_mangle]
pub extern "C" fn h_rob_panic() {
    se_panic_mode(1);
    let k = 1 + choice(deep(3, 5));
    let mut cs = vec![];
    for _ in 0..k {
        cs.push(conn(vec![b"GET /boom HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()], 0));
    }
    cs.push(good());
    let r = serve(srv(), cs);
    for c in r.iter() {
        observe_out(&c.out);
        check(c.fds == 0, "every connection is closed");
    }
    let (code, body) = answer(&r[k].out);
    check(code == 200 && same(&body, b"well"), "the next connection is served");
    reach("end");
}
/// the peer stops reading after any number of bytes
#[no_mangle]
pub extern "C" fn h_rob_send() {
    let mut c = match choice(3) {
        0 => conn(vec![b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()], 0),
        1 => conn(vec![b"GET /none HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()], 0),
        _ => conn(vec![b"X\r\n\r\n".to_vec()], 0),
    };
    c.send_fail_after = 1 + choice(100);
    c.send_max = choice(3);
    then_good(c);
}
/// the connection ends or is reset after any part of a request
#[no_mangle]
pub extern "C" fn h_rob_cut() {
    let m = b"POST /a?x=y HTTP/1.1\r\nHost: h\r\nCookie: a=b\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 7\r\n\r\nk=v&l=w".to_vec();
    let n = choice(m.len() + 1);
    let t = [0, 2][choice(2)];
    let full = n == m.len();
    let out = then_good(conn(if n > 0 { vec![m[..n].to_vec()] } else { vec![] }, t));
    check((answer(&out).0 == 200) == full, "only the complete request is executed");
}

/// accepting a connection fails for a while, for any reason it can have
#[no_mangle]
pub extern "C" fn h_rob_accept() {
    let n = 1 + choice(3);
    let mut e = vec![];
    for _ in 0..n {
        // EINTR, ENOMEM, ENFILE, EMFILE, EPERM, EPROTO, ECONNABORTED, ENOBUFS
        e.push([4, 12, 23, 24, 1, 71, 103, 105][choice(8)]);
    }
    NET.lock().unwrap().accept_errs = e;
    let r = serve(srv(), vec![good()]);
    observe_out(&r[0].out);
    let (code, body) = answer(&r[0].out);
    check(code == 200 && same(&body, b"well"), "the next connection is served");
    reach("end");
}
/// a socket that has lost its peer, or that cannot be duplicated
#[no_mangle]
pub extern "C" fn h_rob_fault() {
    let mut c = conn(vec![b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n".to_vec(), b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()], [0, 2][choice(2)]);
    match choice(2) {
        0 => c.name_err = 1 + choice(2) as u8,
        _ => c.dup_fail = 1 + choice(4),
    }
    then_good(c);
}
