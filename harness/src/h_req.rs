//! request line, header block, body delivery
use crate::net::*;
use crate::se::*;
use starry::*;
use std::sync::Mutex;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_line_any", h_line_any));
    v.push(("h_line_method", h_line_method));
    v.push(("h_line_version", h_line_version));
    v.push(("h_line_seps", h_line_seps));
    v.push(("h_head_field", h_head_field));
    v.push(("h_head_layout", h_head_layout));
    v.push(("h_head_dup", h_head_dup));
    v.push(("h_head_case", h_head_case));
    v.push(("h_body_cut", h_body_cut));
    v.push(("h_body_extra", h_body_extra));
    v.push(("h_body_short", h_body_short));
    v.push(("h_body_declared", h_body_declared));
    v.push(("h_body_long", h_body_long));
    v.push(("h_head_long", h_head_long));
    v.push(("h_body_nobody", h_body_nobody));
}

/// what the handler should be asked for and what it should see
#[derive(Default)]
pub struct Ask {
    pub key: String,
    pub val: Option<String>,
}
pub static ASK: Mutex<Vec<Ask>> = Mutex::new(Vec::new());
pub static RAN: Mutex<u32> = Mutex::new(0);

fn ran() -> u32 {
    *RAN.lock().unwrap()
}
fn mark() {
    *RAN.lock().unwrap() += 1;
}
pub fn ask(k: &[u8], v: Option<&[u8]>) {
    let s = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    ASK.lock().unwrap().push(Ask { key: s(k), val: v.map(s) });
}
fn verdict(c: &mut Context, ok: bool) {
    mark();
    c.resp_body(if ok { b"match".to_vec() } else { b"differ".to_vec() });
    c.response();
}
pub fn see(got: Option<String>, want: &Option<String>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        _ => false,
    }
}
fn on_header(c: &mut Context) {
    let mut ok = true;
    for a in ASK.lock().unwrap().iter() {
        ok &= see(c.req_header_get(&a.key), &a.val);
    }
    verdict(c, ok)
}
fn on_form(c: &mut Context) {
    let mut ok = true;
    for a in ASK.lock().unwrap().iter() {
        match c.req_form(&a.key) {
            Ok(v) => ok &= see(v, &a.val),
            Err(_) => ok = false,
        }
    }
    verdict(c, ok)
}
fn ok(c: &mut Context) {
    mark();
    let m = c.req_path();
    c.resp_body(m.into_bytes());
    c.response();
}
fn h_get(c: &mut Context) {
    mark();
    c.resp_body(b"GET".to_vec());
    c.response();
}
macro_rules! mh { ($($f:ident $n:expr),*) => { $(fn $f(c: &mut Context) { mark(); c.resp_body($n.to_vec()); c.response(); })* } }
mh!(m0 b"OPTIONS", m1 b"GET", m2 b"POST", m3 b"PUT", m4 b"DELETE", m5 b"HEAD", m6 b"TRACE", m7 b"CONNECT", m8 b"PATCH", m9 b"LINK", m10 b"UNLINK", m11 b"PRI");
const METHODS: [&[u8]; 12] = [b"OPTIONS", b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"TRACE", b"CONNECT", b"PATCH", b"LINK", b"UNLINK", b"PRI"];

pub fn server() -> HttpServer {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s
}
pub fn one(s: HttpServer, segs: Vec<Vec<u8>>) -> (u32, Vec<u8>) {
    let r = serve(s, vec![conn(segs, 0)]);
    observe_out(&r[0].out);
    answer(&r[0].out)
}

/// Every request line of n arbitrary bytes: the handler runs exactly for
/// `GET SP /a SP HTTP/1.x`, anything else is refused, nothing crashes.
#[no_mangle]
pub extern "C" fn h_line_any() {
    let n = choice(deep(7, 8));
    let l = if n < deep(5, 6) { bytes(n) } else { bytes_in(n, &[(9, 13), (0x20, 0x7e)]) };
    // an empty method counts as GET
    if n > 0 {
        assume(l[0] != b' ');
    }
    let s = server();
    s.router("").get("/a", h_get);
    let mut req = l.clone();
    req.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    let (code, _) = one(s, vec![req]);
    let good = n >= 6 && same(&l[..6], b"GET /a") && (n == 6 || l[6] == b'?' || l[6] == b'#');
    check((ran() == 1) == good, "handler runs for the exact line only");
    check(good || (code >= 400 && code < 500) || code == 505, "everything else is refused");
    reach("end");
}
/// every method token of up to 7 bytes
#[no_mangle]
pub extern "C" fn h_line_method() {
    let n = 1 + choice(7);
    let m = bytes_in(n, &[(0x21, 0x7e)]);
    let s = server();
    let r = s.router("");
    r.option("/a", m0);
    r.get("/a", m1);
    r.post("/a", m2);
    r.put("/a", m3);
    r.delete("/a", m4);
    r.head("/a", m5);
    r.trace("/a", m6);
    r.connect("/a", m7);
    r.patch("/a", m8);
    r.link("/a", m9);
    r.unlink("/a", m10);
    r.pri("/a", m11);
    let mut req = m.clone();
    req.extend_from_slice(b" /a HTTP/1.1\r\nHost: h\r\n\r\n");
    let (code, body) = one(s, vec![req]);
    let known = METHODS.iter().any(|k| same(k, &m));
    if known {
        check(code == 200 && same(&body, &m), "each method reaches the handler registered for it");
        reach("known");
    } else {
        check(code == 405 && ran() == 0, "an unknown method is refused with 405");
        reach("unknown");
    }
}
/// every version token of up to 9 bytes
#[no_mangle]
pub extern "C" fn h_line_version() {
    let n = [8, 7, 9, 3, 0][choice(5)];
    let m = bytes_in(n, &[(0x21, 0x7e)]);
    let s = server();
    s.router("").get("/a", h_get);
    let mut req = b"GET /a ".to_vec();
    req.extend_from_slice(&m);
    req.extend_from_slice(b"\r\nHost: h\r\n\r\n");
    let r = serve(s, vec![conn(vec![req], 0)]);
    let (code, _) = answer(&r[0].out);
    observe_out(&r[0].out);
    let known = same(&m, b"HTTP/1.0") | same(&m, b"HTTP/1.1");
    if known {
        check(code == 200 && ran() == 1, "HTTP/1.0 and HTTP/1.1 are served");
        check(same(&r[0].out[..8], &m), "the answer uses the version of the request");
        reach("known");
    } else {
        check(code == 505 && ran() == 0, "another version is refused with 505");
        reach("unknown");
    }
}
/// separators and line ends of an otherwise good request line
#[no_mangle]
pub extern "C" fn h_line_seps() {
    let seps: [&[u8]; 4] = [b" ", b"  ", b"", b"\t"];
    let (a, b, e) = (choice(4), choice(4), choice(4));
    let ends: [&[u8]; 4] = [b"\r\n", b"\n", b" \r\n", b" x\r\n"];
    let s = server();
    s.router("").get("/a", h_get);
    let mut req = b"GET".to_vec();
    req.extend_from_slice(seps[a]);
    req.extend_from_slice(b"/a");
    req.extend_from_slice(seps[b]);
    req.extend_from_slice(b"HTTP/1.1");
    req.extend_from_slice(ends[e]);
    req.extend_from_slice(b"Host: h\r\n\r\n");
    let (code, _) = one(s, vec![req]);
    let good = a == 0 && b == 0 && e < 2;
    check((code == 200) == good, "single spaces and a line end, nothing else");
    check(ran() == good as u32, "handler runs for good lines only");
    reach("end");
}

const TOKEN: [(u8, u8); 3] = [(b'a', b'z'), (b'A', b'Z'), (b'0', b'9')];

/// one header field with symbolic name (1..=3) and value (0..=4 visible or
/// blank bytes, not blank at the ends)
#[no_mangle]
pub extern "C" fn h_head_field() {
    // any token
    let k = bytes_in(1 + choice(3), &[(b'^', b'z'), (b'A', b'Z'), (b'0', b'9'), (b'#', b'\''), (b'*', b'+'), (b'-', b'.'), (b'|', b'|'), (b'~', b'~'), (b'!', b'!')]);
    let n = choice(5);
    let v = bytes_in(n, &[(0x20, 0x7e), (9, 9)]);
    if n > 0 {
        assume(v[0] != b' ' && v[0] != 9 && v[n - 1] != b' ' && v[n - 1] != 9);
    }
    ask(&k, Some(&v));
    ask(b"X-Last", Some(b"z"));
    let s = server();
    s.router("").get("/a", on_header);
    let mut req = b"GET /a HTTP/1.1\r\nHost: h\r\n".to_vec();
    req.extend_from_slice(&k);
    req.extend_from_slice([&b": "[..], b":", b":\t "][choice(3)]);
    req.extend_from_slice(&v);
    req.extend_from_slice(b"\r\nX-Last: z\r\n\r\n");
    let (code, body) = one(s, vec![req]);
    check(code == 200 && same(&body, b"match"), "the handler sees the field as sent");
    reach("end");
}
/// optional white space around the value, line ends, several fields
#[no_mangle]
pub extern "C" fn h_head_layout() {
    let pre: [&[u8]; 4] = [b" ", b"", b"  ", b"\t"];
    let post: [&[u8]; 3] = [b"", b" ", b"\t "];
    let nl: [&[u8]; 2] = [b"\r\n", b"\n"];
    let (a, b, e) = (choice(4), choice(3), choice(2));
    let vals: [&[u8]; 5] = [b"", b"v", b"a:b", b"p q: r", b"::x:"];
    let (v, w) = (vals[choice(5)], vals[choice(5)]);
    ask(b"One", Some(v));
    ask(b"Two", Some(w));
    ask(b"Three", None);
    ask(b"Host", Some(b"h"));
    let s = server();
    s.router("").get("/a", on_header);
    let mut req = b"GET /a HTTP/1.1".to_vec();
    let n = nl[e];
    req.extend_from_slice(n);
    for (k, v) in [(&b"One"[..], v), (&b"Host"[..], &b"h"[..]), (&b"Two"[..], w)] {
        req.extend_from_slice(k);
        req.extend_from_slice(b":");
        req.extend_from_slice(pre[a]);
        req.extend_from_slice(v);
        req.extend_from_slice(post[b]);
        req.extend_from_slice(n);
    }
    req.extend_from_slice(n);
    let (code, body) = one(s, vec![req]);
    check(code == 200 && same(&body, b"match"), "fields are seen whatever the layout");
    reach("end");
}
/// a repeated field: the last value is the one the handler sees
#[no_mangle]
pub extern "C" fn h_head_dup() {
    let k1 = bytes_in(2, &TOKEN);
    let k2 = bytes_in(2, &TOKEN);
    let (v1, v2) = (bytes_in(1, &TOKEN), bytes_in(1, &TOKEN));
    if same(&k1, &k2) {
        ask(&k1, Some(&v2));
        reach("repeated");
    } else {
        // names that differ in case only denote one field
        assume(!k1.eq_ignore_ascii_case(&k2));
        ask(&k1, Some(&v1));
        ask(&k2, Some(&v2));
        reach("distinct");
    }
    let s = server();
    s.router("").get("/a", on_header);
    let mut req = b"GET /a HTTP/1.1\r\n".to_vec();
    for (k, v) in [(&k1, &v1), (&k2, &v2)] {
        req.extend_from_slice(k);
        req.extend_from_slice(b": ");
        req.extend_from_slice(v);
        req.extend_from_slice(b"\r\n");
    }
    req.extend_from_slice(b"Host: h\r\n\r\n");
    let (code, body) = one(s, vec![req]);
    check(code == 200 && same(&body, b"match"), "the last of repeated fields, else each its own");
}
/// any spelling of the names the server itself interprets
#[no_mangle]
pub extern "C" fn h_head_case() {
    // bits: upper or lower case of each letter of `Host` / `Content-Length`
    let which = choice(2);
    let name: &[u8] = [&b"host"[..], &b"content-length"[..]][which];
    let mut k = name.to_vec();
    let m = u16_();
    for i in 0..k.len() {
        if k[i] != b'-' {
            k[i] -= 32 * ((m >> i) as u8 & 1);
        }
    }
    let s = server();
    s.router("").post("/a", on_form);
    ask(b"k", Some(b"v"));
    let mut req = b"POST /a HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n".to_vec();
    if which == 0 {
        req.extend_from_slice(&k);
        req.extend_from_slice(b": h\r\nContent-Length: 3\r\n\r\nk=v");
    } else {
        req.extend_from_slice(b"Host: h\r\n");
        req.extend_from_slice(&k);
        req.extend_from_slice(b": 3\r\n\r\nk=v");
    }
    let (code, body) = one(s, vec![req]);
    check(code == 200 && same(&body, b"match"), "field names are case-insensitive");
    reach("end");
}

// ---------------------------------------------------------------- bodies
fn post(len: usize) -> Vec<u8> {
    format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: {}\r\n\r\n", len).into_bytes()
}
/// body bytes: anything ASCII that is not a form delimiter
fn raw(n: usize) -> Vec<u8> {
    bytes_in(n, &[(1, 0x24), (0x27, 0x2a), (0x2c, 0x3c), (0x3e, 0x7f)])
}
fn form_server() -> HttpServer {
    let s = server();
    let r = s.router("");
    r.post("/a", on_form);
    r.put("/a", on_form);
    r.patch("/a", on_form);
    s
}
fn split(m: Vec<u8>, cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    for &c in cuts {
        if c > p {
            v.push(m[p..c].to_vec());
            p = c;
        }
    }
    v.push(m[p..].to_vec());
    v
}
/// one field `k=v`, key 0..=2, value 0..=2 raw bytes, cut anywhere twice
#[no_mangle]
pub extern "C" fn h_body_cut() {
    let k = raw(choice(3));
    let v = raw(choice(3));
    assume(k.len() + v.len() > 0);
    let len = k.len() + v.len() + 1;
    let mut m = post(len);
    let h = m.len();
    m.extend_from_slice(&k);
    m.push(b'=');
    m.extend_from_slice(&v);
    ask(&k, Some(&v));
    let c1 = choice(h + len);
    let c2 = h - 2 + choice(len + 2);
    let (code, body) = one(form_server(), split(m, &[std::cmp::min(c1, c2), std::cmp::max(c1, c2)]));
    check(code == 200 && same(&body, b"match"), "the body is what was sent, however it is segmented");
    reach("end");
}
/// bytes beyond Content-Length are no part of the body
#[no_mangle]
pub extern "C" fn h_body_extra() {
    let v = raw(choice(3));
    let x = bytes(1 + choice(3));
    let mut m = post(2 + v.len());
    let h = m.len();
    m.extend_from_slice(b"k=");
    m.extend_from_slice(&v);
    let e = m.len();
    m.extend_from_slice(&x);
    ask(b"k", Some(&v));
    let cut = h - 1 + choice(e - h + 3);
    let (code, body) = one(form_server(), split(m, &[cut]));
    check(code == 200 && same(&body, b"match"), "the body ends after Content-Length bytes");
    reach("end");
}
/// the connection ends before the promised bytes, or before the header block
#[no_mangle]
pub extern "C" fn h_body_short() {
    let v = raw(2);
    let mut m = post(4);
    m.extend_from_slice(b"k=");
    m.extend_from_slice(&v);
    let n = choice(m.len());
    let (code, _) = one(form_server(), vec![m[..n].to_vec()]);
    check(ran() == 0, "an incomplete request is not executed");
    check(n == 0 || (code >= 400 && code < 500), "an incomplete request is refused");
    reach("end");
}
/// any declared length of some digits, some body bytes, then the end of the stream
#[no_mangle]
pub extern "C" fn h_body_declared() {
    let m = [&b"POST"[..], b"PUT", b"PATCH"][choice(deep(2, 3))];
    let d = bytes_in(1 + choice(deep(6, 8)), &[(b'0', b'9')]);
    let sent = [0usize, 3, 5][choice(3)];
    // whether the declared length is more than what is sent
    let (head, last) = d.split_at(d.len() - 1);
    let mut more = last[0] > b'0' + sent as u8;
    for &c in head {
        more |= c != b'0';
    }
    let mut q = m.to_vec();
    q.extend_from_slice(b" /a HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: ");
    q.extend_from_slice(&d);
    q.extend_from_slice(b"\r\n\r\n");
    q.extend_from_slice(&b"k=uvw"[..sent]);
    let s = server();
    let r = s.router("");
    r.post("/a", ok);
    r.put("/a", ok);
    r.patch("/a", ok);
    let (code, _) = one(s, vec![q]);
    if more {
        check(ran() == 0, "a request with less than the declared body is not executed");
        check(code >= 400 && code < 500, "a request with less than the declared body is refused");
        reach("less");
    } else {
        check(code == 200 && ran() == 1, "a request with its whole body is executed");
        reach("whole");
    }
}
/// long bodies around the 1024-byte read size
#[no_mangle]
pub extern "C" fn h_body_long() {
    let sizes = [1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 5000, 33000, 66000];
    let len = sizes[choice(12)];
    let mut m = post(len);
    let h = m.len();
    let mut b = b"k=".to_vec();
    for i in 2..len {
        b.push(b'a' + (i % 23) as u8);
    }
    // symbolic bytes near both ends and where a read of 1024 bytes may end
    for p in [2, 3, 1024 - h - 1, 1024 - h, 1024 - h + 1, 1021, 1022, len - 2, len - 1] {
        if p >= 2 && p < len {
            b[p] = raw(1)[0];
        }
    }
    ask(b"k", Some(&b[2..]));
    m.extend_from_slice(&b);
    let cuts: [usize; 5] = [m.len(), h, 1024, h + 1, m.len() - 1];
    let c = cuts[if len > 5000 { choice(2) } else { choice(5) }];
    let (code, body) = one(form_server(), split(m, &[c]));
    check(code == 200 && same(&body, b"match"), "long bodies arrive whole");
    reach("end");
}
/// header blocks longer than one read, cut around the read size and at the end
#[no_mangle]
pub extern "C" fn h_head_long() {
    let pad = [900, 940, 960, 980, 1000, 1100, 2100, 9000][choice(8)] + choice(9);
    let v = bytes_in(2, &[(0x21, 0x7e)]);
    let mut m = b"GET /a HTTP/1.1\r\nHost: h\r\nPad: ".to_vec();
    for i in 0..pad {
        m.push(b'a' + (i % 23) as u8);
    }
    m.extend_from_slice(b"\r\nLate: ");
    m.extend_from_slice(&v);
    m.extend_from_slice(b"\r\n\r\n");
    ask(b"Late", Some(&v));
    let s = server();
    s.router("").get("/a", on_header);
    let e = m.len();
    let cut = [e, e - 1, e - 2, e - 3, e - 4, e - 6, 1, 16, 17][choice(9)];
    let (code, body) = one(s, split(m, &[cut]));
    check(code == 200 && same(&body, b"match"), "long header blocks are read whole");
    reach("end");
}
/// Content-Length 0 and absent
#[no_mangle]
pub extern "C" fn h_body_nobody() {
    let t = choice(3);
    let meth = ["POST", "PUT", "PATCH"][choice(3)];
    let mut m = format!("{} /a HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n", meth).into_bytes();
    match t {
        0 => m.extend_from_slice(b"Content-Length: 0\r\n\r\n"),
        1 => m.extend_from_slice(b"\r\n"),
        _ => m.extend_from_slice(b"Content-Length: 3\r\n\r\nk=v"),
    }
    ask(b"k", if t == 2 { Some(b"v") } else { None });
    // what follows an empty body belongs to nobody
    if t < 2 {
        m.extend_from_slice(&bytes(choice(3)));
    }
    let (code, body) = one(form_server(), vec![m]);
    check(code == 200 && same(&body, b"match"), "an absent body is empty");
    reach("end");
}
#[allow(dead_code)]
fn unused(c: &mut Context) {
    ok(c)
}
