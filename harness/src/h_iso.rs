//! connections served at the same time: none sees anything of another
use crate::net::*;
use crate::se::*;
use starry::header::Cookie;
use starry::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_iso_meet", h_iso_meet));
    v.push(("h_iso_parts", h_iso_parts));
    v.push(("h_iso_other", h_iso_other));
}
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static MEET: AtomicUsize = AtomicUsize::new(0);

/// wait inside the handler until so many are inside
fn meet() {
    INSIDE.fetch_add(1, SeqCst);
    for _ in spins() {
        if INSIDE.load(SeqCst) >= MEET.load(SeqCst) {
            break;
        }
        yield_();
    }
}
fn put(b: &mut Vec<u8>, v: Option<String>) {
    match v {
        Some(v) => b.extend_from_slice(v.as_bytes()),
        None => b.push(b'-'),
    }
    b.push(b';');
}
/// asks half before and half after the others have come in, answers in steps
fn slow(c: &mut Context) {
    let mut b = vec![];
    put(&mut b, Some(c.req_path()));
    put(&mut b, c.req_header_get("X-H"));
    let h = c.req_header_get("X-H").unwrap_or_default();
    c.resp_set_header_str("X-R", &h);
    let f = c.req_form("f").unwrap_or(None);
    put(&mut b, f);
    meet();
    put(&mut b, c.req_field("p"));
    put(&mut b, c.req_param("q"));
    put(&mut b, c.req_cookie_get("c").map(|x| x.to_string()));
    put(&mut b, c.req_userinfo().map(|x| x.username()));
    put(&mut b, Some(c.req_client_addr().port().to_string()));
    c.resp_add_cookie(Cookie::new("k".to_string(), h.clone()));
    let m = c.req_form("m").unwrap_or(None);
    put(&mut b, m);
    yield_();
    if h.as_bytes()[0] < b'e' {
        c.resp_status(Status::CREATED);
    }
    c.resp_body(b);
    c.response();
}
/// a filter that remembers nothing but lets the other one in
fn gate(_c: &mut Context) {
    yield_();
}
fn bad(_c: &mut Context) {
    panic!("handler");
}
fn server(n: usize) -> HttpServer {
    clock::set(0);
    let mut s = HttpServer::new();
    s.set_pool_size(n);
    s.set_keepalive(60_000);
    let r = s.router_wf("/r", Extend::e1(vec![gate]));
    r.get("/:p/e", slow);
    r.post("/:p/e", slow);
    r.get("/bad", bad);
    s
}
/// a request full of its own marks, cut in pieces, and what is answered to it
struct One {
    segs: Vec<Vec<u8>>,
    body: Vec<u8>,
    mark: u8,
    port: u16,
}
fn one(i: usize, kind: usize, keep: bool, cut: usize) -> One {
    let m = bytes_in(1, &[(b'a', b'i')])[0];
    let port = 4000 + i as u16;
    let s = |v: &[u8]| v.to_vec();
    let v = [m, b'0' + i as u8];
    let mut t = vec![];
    let mut b = vec![];
    let mut body = vec![];
    let multi = kind == 2;
    let (get, query, cookie, user) = match kind {
        0 => (true, true, true, false),
        1 => (false, false, true, true),
        2 => (false, true, false, false),
        _ => (true, false, false, true),
    };
    if multi {
        body = [s(b"--B\r\nContent-Disposition: form-data; name=\"m\"\r\n\r\n"), s(&v), s(b"\r\n--B--\r\n")].concat();
    } else if !get {
        body = [s(b"f="), s(&v)].concat();
    }
    t.extend_from_slice(if get { b"GET /r/" } else { b"POST /r/" });
    t.extend_from_slice(&v);
    t.extend_from_slice(b"/e");
    if query {
        t.extend_from_slice(&[s(b"?q="), s(&v)].concat());
    }
    t.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\nX-H: ");
    t.extend_from_slice(&v);
    t.extend_from_slice(b"\r\n");
    if cookie {
        t.extend_from_slice(&[s(b"Cookie: c="), s(&v), s(b"\r\n")].concat());
    }
    if user {
        t.extend_from_slice(&[s(b"Authorization: Basic "), crate::h_in::b64(&[s(b"u"), s(&[b'0' + i as u8]), s(b":p")].concat()), s(b"\r\n")].concat());
    }
    if keep {
        t.extend_from_slice(b"Connection: keep-alive\r\n");
    }
    if !get {
        t.extend_from_slice(if multi { &b"Content-Type: multipart/form-data; boundary=B\r\n"[..] } else { b"Content-Type: application/x-www-form-urlencoded\r\n" });
        t.extend_from_slice(&[s(b"Content-Length: "), body.len().to_string().into_bytes(), s(b"\r\n")].concat());
    }
    t.extend_from_slice(b"\r\n");
    let p = |b: &mut Vec<u8>, has: bool, pre: &[u8], val: &[u8]| {
        if has {
            b.extend_from_slice(pre);
            b.extend_from_slice(val);
        } else {
            b.push(b'-');
        }
        b.push(b';');
    };
    p(&mut b, true, b"/r/", &[s(&v), s(b"/e")].concat());
    p(&mut b, true, b"", &v);
    p(&mut b, kind == 1, b"", &v);
    p(&mut b, true, b"", &v);
    p(&mut b, query, b"", &v);
    p(&mut b, cookie, b"c=", &v);
    p(&mut b, user, b"u", &[b'0' + i as u8]);
    p(&mut b, true, b"", port.to_string().as_bytes());
    p(&mut b, multi, b"", &v);
    // where it is cut
    let l = t.len();
    t.extend_from_slice(&body);
    let at = [vec![], vec![9], vec![l], vec![5, l - 3], vec![10, l, l + 1]][cut].clone();
    let mut segs = vec![];
    let mut k = 0;
    for a in at.iter() {
        if *a > k && *a < t.len() {
            segs.push(t[k..*a].to_vec());
            k = *a;
        }
    }
    segs.push(t[k..].to_vec());
    One { segs, body: b, mark: m, port }
}
fn answered(i: usize, from: usize, o: &One) -> usize {
    let out = with(i, |c| c.out[from..].to_vec());
    observe_out(&out);
    match parse_resp(&out) {
        Some(r) => {
            check((r.code == 201) == (o.mark < b'e') && (r.code == 200 || r.code == 201), "the status is the one set for this request");
            check(same(&r.body, &o.body), "the answer is computed from this request alone");
            let x = [o.mark, b'0' + (o.port - 4000) as u8];
            check(r.all(b"X-R").len() == 1 && same(r.all(b"X-R")[0], &x), "the header is the one set for this request");
            let k = [&b"k="[..], &x].concat();
            let c = r.all(b"Set-Cookie");
            check(c.len() == 1 && same(&c[0][..4.min(c[0].len())], &k), "the cookie is the one set for this request");
        }
        None => fail("one well-formed answer on each connection"),
    }
    from + out.len()
}
fn open(o: &One) -> Conn {
    let mut c = conn(o.segs.clone(), 1);
    c.gated = true;
    c.peer_port = o.port;
    c
}
fn both_quiet(n: usize) {
    for i in 0..n {
        quiet(i);
    }
}
/// two handlers at work at the same time, in every order of their steps
#[no_mangle]
pub extern "C" fn h_iso_meet() {
    let k1 = choice(4);
    let (k2, keep) = if deep(0, 1) == 1 { (choice(4), choice(2) == 1) } else { ([k1, (k1 + 1) % 4][choice(2)], false) };
    let a = one(0, k1, keep, 0);
    let b = one(1, k2, keep, 0);
    MEET.store(2, SeqCst);
    let s = server(2);
    se_sched(1);
    let (mut x, mut y) = (open(&a), open(&b));
    x.open = 1;
    y.open = 1;
    start(s, vec![x, y]);
    both_quiet(2);
    answered(0, 0, &a);
    answered(1, 0, &b);
    reach("end");
}
/// requests that arrive piece by piece, the pieces of one between those of the
/// other; and another one on a kept connection afterwards
#[no_mangle]
pub extern "C" fn h_iso_parts() {
    let n = deep(2, 3);
    let mut r = vec![];
    let mut left = vec![];
    for i in 0..n {
        let keep = i == 0;
        let k = if i == 2 { 2 } else { choice(4) };
        let o = one(i, k, keep, if i == 2 { 2 } else if deep(0, 1) == 1 { choice(5) } else { [0, 2, 4][choice(3)] });
        left.push(o.segs.len());
        r.push(o);
    }
    // what comes next on the kept connection
    let next = one(0, choice(deep(1, 4)), false, 0);
    let mut conns: Vec<Conn> = r.iter().map(open).collect();
    conns[0].segs.extend(next.segs.iter().cloned());
    MEET.store(1, SeqCst);
    start(server(n), conns);
    let mut at = 0;
    while left.iter().any(|l| *l > 0) {
        let c: Vec<usize> = (0..n).filter(|i| left[*i] > 0).collect();
        let i = c[choice(c.len())];
        left[i] -= 1;
        arrive(i, 1);
        if i == 0 && left[0] == 0 {
            at = answered(0, 0, &r[0]);
            arrive(0, 1);
        }
    }
    for i in 1..n {
        answered(i, 0, &r[i]);
    }
    answered(0, at, &next);
    reach("end");
}
/// whatever becomes of another connection, this one is answered
#[no_mangle]
pub extern "C" fn h_iso_other() {
    se_panic_mode(1);
    let a = one(0, choice(4), true, if deep(0, 1) == 1 { choice(5) } else { [0, 2, 4][choice(3)] });
    let next = one(0, choice(2), false, 0);
    let mut x = open(&a);
    x.segs.extend(next.segs.iter().cloned());
    let text: Vec<u8> = match choice(6) {
        0 => b"GET /r/bad HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(),
        1 => b"GET /nowhere HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(),
        2 => bytes_in(2, &[(0, 255)]),
        3 => b"POST /r/zz/e HTTP/1.1\r\nHost: h\r\nX-H: zz\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n\r\nf=zz".to_vec(),
        4 => b"GET /r/zz/e HTTP/1.1\r\nHost: h\r\nX-H: zz\r\nCookie: c=zz".to_vec(),
        _ => vec![],
    };
    let tail = [0, 1, 2][choice(3)];
    let mut y = conn(vec![text], tail);
    y.send_fail_after = [0, 1][choice(2)];
    MEET.store(1, SeqCst);
    y.gated = true;
    let when = choice(a.segs.len() + 1);
    start(server(2), vec![x, y]);
    for i in 0..a.segs.len() {
        if when == i {
            with(1, |c| c.open += 1);
            quiet(1);
        }
        arrive(0, 1);
    }
    let at = answered(0, 0, &a);
    if when == a.segs.len() {
        with(1, |c| c.open += 1);
        quiet(1);
    }
    arrive(0, 1);
    answered(0, at, &next);
    reach("end");
}
