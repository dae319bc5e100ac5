//! responses: status line, header fields, body, cookies, compression
use crate::net::*;
use crate::se::*;
use starry::header::{ContentType, Cookie, CookieBuilder};
use starry::*;
use std::sync::Mutex;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_resp_status", h_resp_status));
    v.push(("h_resp_body", h_resp_body));
    v.push(("h_resp_headers", h_resp_headers));
    v.push(("h_resp_twice", h_resp_twice));
    v.push(("h_resp_errors", h_resp_errors));
    v.push(("h_resp_long", h_resp_long));
    v.push(("h_set_cookie", h_set_cookie));
    v.push(("h_set_cookies", h_set_cookies));
    v.push(("h_set_cookie_read", h_set_cookie_read));
    v.push(("h_set_cookie_raw", h_set_cookie_raw));
    v.push(("h_comp_list", h_comp_list));
    v.push(("h_comp_raw", h_comp_raw));
    v.push(("h_comp_again", h_comp_again));
    v.push(("h_comp_round", h_comp_round));
    v.push(("h_comp_broken", h_comp_broken));
    v.push(("h_comp_big", h_comp_big));
}

#[derive(Clone)]
pub enum Op {
    Body(Vec<u8>),
    Slice(&'static [u8]),
    Bodies(Vec<u8>, ContentType),
    Slices(&'static [u8], ContentType),
    Set(String, String, bool),
    Add(String, String, bool),
    Type(ContentType),
    Cookie(Cookie),
    Status(Status),
    Version(Version),
    Answer,
}
pub static OPS: Mutex<Vec<Op>> = Mutex::new(Vec::new());

pub fn on_ops(c: &mut Context) {
    let ops = OPS.lock().unwrap().clone();
    for o in ops {
        match o {
            Op::Body(b) => c.resp_body(b),
            Op::Slice(b) => c.resp_body_slice(b),
            Op::Bodies(b, t) => c.resp_bodies(b, t),
            Op::Slices(b, t) => c.resp_body_slices(b, t),
            Op::Set(k, v, s) => if s { c.resp_set_header_str(&k, &v) } else { c.resp_set_header(k, v) },
            Op::Add(k, v, s) => if s { c.resp_add_header_str(&k, &v) } else { c.resp_add_header(k, v) },
            Op::Type(t) => c.resp_content_type(t),
            Op::Cookie(k) => c.resp_add_cookie(k),
            Op::Status(s) => c.resp_status(s),
            Op::Version(v) => c.resp_version(v),
            Op::Answer => c.response(),
        }
    }
}
fn st(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
pub fn play(ops: Vec<Op>, compress: bool, req: &[u8], send_max: usize) -> Conn {
    *OPS.lock().unwrap() = ops;
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    if compress {
        s.set_compress();
    }
    let r = s.router("");
    r.get("/a", on_ops);
    r.post("/a", on_ops);
    let mut c = conn(vec![req.to_vec()], 0);
    c.send_max = send_max;
    let mut out = serve(s, vec![c]);
    observe_out(&out[0].out);
    out.remove(0)
}

/// what a response should look like
pub struct Want {
    pub minor: u8,
    pub code: u32,
    pub body: Vec<u8>,
    pub fields: Vec<(Vec<u8>, Vec<u8>)>,
}
impl Want {
    pub fn new(minor: u8, alive: bool) -> Want {
        let mut w = Want { minor, code: 200, body: vec![], fields: vec![] };
        w.put(b"Content-Type", b"text/plain");
        w.len();
        if alive {
            w.put(b"Connection", b"keep-alive");
        }
        w
    }
    fn len(&mut self) {
        let n = self.body.len().to_string();
        self.put(b"Content-Length", n.as_bytes());
    }
    pub fn put(&mut self, k: &[u8], v: &[u8]) {
        self.fields.retain(|f| f.0 != k);
        self.fields.push((k.to_vec(), v.to_vec()));
    }
    pub fn apply(&mut self, o: &Op, ctype: &[u8]) {
        match o {
            Op::Body(b) => self.set_body(b, b"text/plain"),
            Op::Slice(b) => self.set_body(b, b"text/plain"),
            Op::Bodies(b, _) => self.set_body(b, ctype),
            Op::Slices(b, _) => self.set_body(b, ctype),
            Op::Set(k, v, _) => self.put(k.as_bytes(), v.as_bytes()),
            Op::Add(k, v, _) => self.fields.push((k.as_bytes().to_vec(), v.as_bytes().to_vec())),
            Op::Type(_) => self.put(b"Content-Type", ctype),
            _ => {}
        }
    }
    fn set_body(&mut self, b: &[u8], t: &[u8]) {
        self.body = b.to_vec();
        self.len();
        self.put(b"Content-Type", t);
    }
    /// the bytes on the wire are this response
    pub fn check(&self, out: &[u8]) {
        match parse_resp(out) {
            None => fail("a well-formed response is sent"),
            Some(r) => {
                check(r.minor == self.minor, "version of the response");
                check(r.code == self.code, "status code of the response");
                check(r.fields.len() == self.fields.len(), "number of header fields");
                for f in self.fields.iter() {
                    // values of one name keep their order
                    let w: Vec<&Vec<u8>> = self.fields.iter().filter(|g| g.0 == f.0).map(|g| &g.1).collect();
                    let g: Vec<&Vec<u8>> = r.fields.iter().filter(|g| g.0 == f.0).map(|g| &g.1).collect();
                    check(w.len() == g.len(), "header field present");
                    for i in 0..w.len() {
                        if i < g.len() {
                            check(same(w[i], g[i]), "header field value");
                        }
                    }
                }
                check(same(&r.body, &self.body), "body of the response");
            }
        }
    }
}

const IANA: [(u16, &[u8]); 60] = [
    (100, b"Continue"), (101, b"Switching Protocols"), (102, b"Processing"),
    (200, b"OK"), (201, b"Created"), (202, b"Accepted"), (203, b"Non-Authoritative Information"), (204, b"No Content"), (205, b"Reset Content"),
    (206, b"Partial Content"), (207, b"Multi-Status"), (208, b"Already Reported"), (226, b"IM Used"),
    (300, b"Multiple Choices"), (301, b"Moved Permanently"), (302, b"Found"), (303, b"See Other"), (304, b"Not Modified"), (305, b"Use Proxy"),
    (307, b"Temporary Redirect"), (308, b"Permanent Redirect"),
    (400, b"Bad Request"), (401, b"Unauthorized"), (402, b"Payment Required"), (403, b"Forbidden"), (404, b"Not Found"), (405, b"Method Not Allowed"),
    (406, b"Not Acceptable"), (407, b"Proxy Authentication Required"), (408, b"Request Timeout"), (409, b"Conflict"), (410, b"Gone"), (411, b"Length Required"),
    (412, b"Precondition Failed"), (413, b"Payload Too Large"), (414, b"URI Too Long"), (415, b"Unsupported Media Type"), (416, b"Range Not Satisfiable"),
    (417, b"Expectation Failed"), (418, b"I'm a teapot"), (421, b"Misdirected Request"), (422, b"Unprocessable Entity"), (423, b"Locked"), (424, b"Failed Dependency"),
    (426, b"Upgrade Required"), (428, b"Precondition Required"), (429, b"Too Many Requests"), (431, b"Request Header Fields Too Large"), (451, b"Unavailable For Legal Reasons"),
    (500, b"Internal Server Error"), (501, b"Not Implemented"), (502, b"Bad Gateway"), (503, b"Service Unavailable"), (504, b"Gateway Timeout"), (505, b"HTTP Version Not Supported"),
    (506, b"Variant Also Negotiates"), (507, b"Insufficient Storage"), (508, b"Loop Detected"), (510, b"Not Extended"), (511, b"Network Authentication Required"),
];
fn letters(b: &[u8]) -> Vec<u8> {
    b.iter().filter(|c| c.is_ascii_alphabetic()).map(|c| c.to_ascii_lowercase()).collect()
}
/// the standard reason phrase of a code, letters only
pub fn phrase(code: u16) -> Option<Vec<u8>> {
    for e in IANA.iter() {
        if e.0 == code {
            return Some(letters(e.1));
        }
    }
    None
}
pub fn phrase_ok(code: u32, p: &[u8]) -> bool {
    match phrase(code as u16) {
        Some(w) => letters(p) == w,
        None => false,
    }
}

/// every status code, from its number to the wire
#[no_mangle]
pub extern "C" fn h_resp_status() {
    let code = u16_();
    let req_minor = choice(2) as u8;
    let over = choice(3);
    let s = match Status::from_code(code) {
        Err(_) => {
            reach("refused");
            check(phrase(code).is_none(), "a standard code is known");
            return;
        }
        Ok(s) => s,
    };
    let known = IANA.iter().any(|e| e.0 == code);
    check(known, "only standard codes are known");
    let mut ops = vec![Op::Status(s)];
    let mut minor = b'0' + req_minor;
    if over > 0 {
        ops.push(Op::Version(if over == 1 { Version::HTTP_10 } else { Version::HTTP_11 }));
        minor = b'0' + (over - 1) as u8;
    }
    ops.push(Op::Answer);
    let mut req = b"GET /a HTTP/1.".to_vec();
    req.push(b'0' + req_minor);
    req.extend_from_slice(b"\r\nHost: h\r\n\r\n");
    let c = play(ops, false, &req, 0);
    let mut w = Want::new(minor, false);
    w.code = code as u32;
    w.check(&c.out);
    if let Some(r) = parse_resp(&c.out) {
        check(phrase_ok(r.code, &r.phrase), "reason phrase");
    }
    check(c.fds == 0, "closed afterwards");
    reach("end");
}

fn ctypes(i: usize) -> (ContentType, Vec<u8>) {
    match i {
        0 => (ContentType::TEXT_PLAIN, b"text/plain".to_vec()),
        1 => (ContentType::APPLICATION_JSON, b"application/json".to_vec()),
        2 => (ContentType::TEXT_HTML, b"text/html".to_vec()),
        _ => (ContentType::IMAGE_PNG, b"image/png".to_vec()),
    }
}
/// the body operations, over arbitrary bytes and short sends
#[no_mangle]
pub extern "C" fn h_resp_body() {
    let kind = choice(4);
    let n = choice(deep(3, 5));
    let sm = choice(deep(3, 9));
    let alive = choice(2) == 1;
    let b = bytes(n);
    let (t, tn) = ctypes(choice(2));
    let stat: &'static [u8] = Box::leak(b.clone().into_boxed_slice());
    let op = match kind {
        0 => Op::Body(b.clone()),
        1 => Op::Slice(stat),
        2 => Op::Bodies(b.clone(), t),
        _ => Op::Slices(stat, t),
    };
    let mut w = Want::new(b'1', alive);
    w.apply(&op, &tn);
    let req: &[u8] = if alive { b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n" } else { b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n" };
    let c = play(vec![op, Op::Answer], false, req, sm);
    w.check(&c.out);
    reach("end");
}
/// bodies over several buffers, with short sends
#[no_mangle]
pub extern "C" fn h_resp_long() {
    let n = [255usize, 256, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 70000][choice(10)];
    let sm = [0usize, 1000, 1024, 4096][choice(4)];
    let mut b = vec![b'.'; n];
    for i in 0..n {
        b[i] = (i % 251) as u8;
    }
    let at = [0, n / 2, n - 1][choice(3)];
    b[at] = u8_();
    let op = if choice(2) == 0 { Op::Body(b.clone()) } else { Op::Slice(Box::leak(b.clone().into_boxed_slice())) };
    let mut w = Want::new(b'1', false);
    w.apply(&op, b"");
    let c = play(vec![op, Op::Answer], false, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", sm);
    w.check(&c.out);
    reach("end");
}

/// sequences of header operations on a few names against a plain list
#[no_mangle]
pub extern "C" fn h_resp_headers() {
    let n = 1 + choice(deep(3, 3));
    let mut ops = vec![];
    let mut w = Want::new(b'1', false);
    for _ in 0..n {
        let k = ["X-A", "X-B", "Content-Type", "Server"][choice(deep(3, 4))];
        let o = match choice(if n == 3 { 3 } else { 6 }) {
            0 => Op::Set(k.to_string(), st(&bytes_in(2, &[(0x20, 0x7e)])), false),
            1 => Op::Add(k.to_string(), st(&bytes_in(2, &[(0x20, 0x7e)])), false),
            2 => Op::Body(b"b".to_vec()),
            3 => Op::Set(k.to_string(), st(&bytes_in(2, &[(0x20, 0x7e)])), true),
            4 => Op::Add(k.to_string(), st(&bytes_in(2, &[(0x20, 0x7e)])), true),
            _ => Op::Type(ContentType::TEXT_HTML),
        };
        w.apply(&o, b"text/html");
        ops.push(o);
    }
    ops.push(Op::Answer);
    let c = play(ops, false, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", 0);
    w.check(&c.out);
    reach("end");
}

/// operations before and after answering: the first answer counts, later
/// operations change nothing, and it is sent once
#[no_mangle]
pub extern "C" fn h_resp_twice() {
    let n = 2 + choice(deep(3, 4));
    let mut ops = vec![];
    let mut w = Want::new(b'1', false);
    let mut done = false;
    for _ in 0..n {
        let o = match choice(4) {
            0 => Op::Answer,
            1 => Op::Body(bytes(1)),
            2 => Op::Set("X-A".to_string(), st(&bytes_in(1, &[(0x21, 0x7e)])), false),
            _ => Op::Status(Status::CREATED),
        };
        if let Op::Answer = o {
            done = true;
        } else if !done {
            if let Op::Status(_) = o {
                w.code = 201;
            }
            w.apply(&o, b"");
        }
        ops.push(o);
    }
    if !done {
        ops.push(Op::Answer);
    }
    let c = play(ops, false, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", 0);
    w.check(&c.out);
    reach("end");
}

/// refusals are well-formed responses too, and end the connection
#[no_mangle]
pub extern "C" fn h_resp_errors() {
    let (req, code): (&[u8], u32) = [
        (&b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n"[..], 404),
        (b"PUT /a HTTP/1.1\r\nHost: h\r\n\r\n", 404),
        (b"FOO /a HTTP/1.1\r\nHost: h\r\n\r\n", 405),
        (b"GET /a HTTP/3.1\r\nHost: h\r\n\r\n", 505),
        (b"GET /a b HTTP/1.1\r\nHost: h\r\n\r\n", 0),
        (b"GET /a HTTP/1.1\r\nHost: h\r\nAuthorization: Basic !!\r\n\r\n", 400),
        (b"GET /a HTTP/1.1\r\nHost: h\r\nCookie: a\r\n\r\n", 400),
        (b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: x\r\n\r\n", 0),
        (b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\n\r\nab", 0),
    ][choice(9)];
    let alive = choice(2) == 1;
    let mut q = req.to_vec();
    if alive {
        let mut i = 0;
        while &q[i..i + 2] != b"\r\n" {
            i += 1;
        }
        let t = q.split_off(i + 2);
        q.extend_from_slice(b"Connection: keep-alive\r\n");
        q.extend_from_slice(&t);
    }
    let sm = choice(3);
    let c = play(vec![Op::Answer], false, &q, sm);
    match parse_resp(&c.out) {
        None => fail("a refusal is a well-formed response"),
        Some(r) => {
            check(r.code >= 400 && r.code < 600, "refused with an error status");
            check(code == 0 || r.code == code, "status of the refusal");
            check(phrase_ok(r.code, &r.phrase), "reason phrase of the refusal");
            check(r.body.is_empty(), "a refusal has no body");
        }
    }
    check(c.fds == 0, "connection closed after a refusal");
    reach("end");
}

// ------------------------------------------------------------- Set-Cookie
use starry::header::cookie::SameSite;
use flate2::Compression;
use starry::utils::{Compress, Time};

/// points in time and their IMF-fixdate text
const DATES: [(i64, &str); 7] = [
    (0, "Thu, 01 Jan 1970 00:00:00 GMT"),
    (784111777, "Sun, 06 Nov 1994 08:49:37 GMT"),
    (951782399, "Mon, 28 Feb 2000 23:59:59 GMT"),
    (951782400, "Tue, 29 Feb 2000 00:00:00 GMT"),
    (1638959874, "Wed, 08 Dec 2021 10:37:54 GMT"),
    (4102444800, "Fri, 01 Jan 2100 00:00:00 GMT"),
    (253402300799, "Fri, 31 Dec 9999 23:59:59 GMT"),
];
const COOKIE_CHARS: [(u8, u8); 2] = [(0x21, 0x3a), (0x3c, 0x7e)];

pub struct Jar {
    pub cookie: Cookie,
    pub first: Vec<u8>,
    pub attrs: Vec<Vec<u8>>,
    pub max_age: Option<i64>,
}
/// a cookie with symbolic name, value and attributes, and what its Set-Cookie
/// field consists of
pub fn any_cookie(flags: usize, nv: usize) -> Jar {
    let name = bytes_in(1, &[(0x21, 0x3a), (0x3c, 0x3c), (0x3e, 0x7e)]);
    let value = bytes_in(nv, &COOKIE_CHARS);
    let mut b = CookieBuilder::new();
    b.name_value(st(&name), st(&value));
    let mut first = name;
    first.push(b'=');
    first.extend_from_slice(&value);
    let mut attrs = vec![];
    let mut max_age = None;
    let mut text = |k: &[u8], v: &[u8]| {
        let mut t = k.to_vec();
        t.extend_from_slice(v);
        attrs.push(t)
    };
    if flags & 1 != 0 {
        let p = bytes_in(if flags == 1 { choice(4) } else { 2 }, &COOKIE_CHARS);
        b.path(st(&p));
        text(b"Path=", &p);
    }
    if flags & 2 != 0 {
        let p = bytes_in(if flags == 2 { 1 + choice(3) } else { 1 }, &COOKIE_CHARS);
        b.domain(st(&p));
        text(b"Domain=", &p);
    }
    if flags & 4 != 0 {
        b.httponly(true);
        text(b"HttpOnly", b"");
    }
    if flags & 8 != 0 {
        b.secure(true);
        text(b"Secure", b"");
    }
    if flags & 16 != 0 {
        let (s, t) = DATES[choice(DATES.len())];
        b.expires(Time::from_secs(s));
        text(b"Expires=", t.as_bytes());
    }
    if flags & 32 != 0 {
        let far = [0, 31_536_000, 1 << 31, 99_999_999_999, -(1 << 31), isize::MAX - 127, isize::MIN + 128][if flags == 32 { choice(7) } else { 0 }];
        let m = far + u8_() as i8 as isize;
        b.max_age(m);
        max_age = Some(m as i64);
    }
    if flags & 64 != 0 {
        let (s, t) = [(SameSite::None, &b"None"[..]), (SameSite::Lax, b"Lax"), (SameSite::Strict, b"Strict")][choice(3)].clone();
        b.same_site(s);
        text(b"SameSite=", t);
    }
    Jar { cookie: b.build(), first, attrs, max_age }
}
impl Jar {
    pub fn check(&self, field: &[u8]) {
        let mut items: Vec<&[u8]> = vec![];
        let mut at = 0;
        for i in 0..=field.len() {
            if i == field.len() || field[i] == b';' {
                let mut s = &field[at..i];
                while !s.is_empty() && s[0] == b' ' {
                    s = &s[1..];
                }
                items.push(s);
                at = i + 1;
            }
        }
        check(same(items[0], &self.first), "name and value of the cookie");
        let n = self.attrs.len() + self.max_age.is_some() as usize;
        check(items.len() == n + 1, "number of cookie attributes");
        for a in self.attrs.iter() {
            check(items[1..].iter().any(|i| same(i, a)), "cookie attribute");
        }
        if let Some(m) = self.max_age {
            let v = items[1..].iter().find(|i| i.starts_with(b"Max-Age="));
            check(v.map_or(false, |v| st(&v[8..]).parse::<i64>() == Ok(m)), "Max-Age of the cookie");
        }
    }
}
/// a cookie set by the handler is one Set-Cookie field with exactly its parts
#[no_mangle]
pub extern "C" fn h_set_cookie() {
    let flags = choice(128);
    let j = any_cookie(flags, choice(deep(2, 3)));
    let c = play(vec![Op::Body(b"x".to_vec()), Op::Cookie(j.cookie.clone()), Op::Answer], false, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", 0);
    match parse_resp(&c.out) {
        None => fail("a well-formed response is sent"),
        Some(r) => {
            let a = r.all(b"Set-Cookie");
            check(a.len() == 1, "one Set-Cookie field per cookie");
            j.check(a[0]);
        }
    }
    reach("end");
}
/// several cookies, also of the same name
#[no_mangle]
pub extern "C" fn h_set_cookies() {
    let n = 2 + choice(2);
    let j: Vec<Jar> = (0..n).map(|i| any_cookie([0, 4, 1][i], 1)).collect();
    let mut ops: Vec<Op> = j.iter().map(|j| Op::Cookie(j.cookie.clone())).collect();
    ops.push(Op::Answer);
    let c = play(ops, false, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", 0);
    match parse_resp(&c.out) {
        None => fail("a well-formed response is sent"),
        Some(r) => {
            let a = r.all(b"Set-Cookie");
            check(a.len() == n, "one Set-Cookie field per cookie");
            for i in 0..n {
                j[i].check(a[i]);
            }
        }
    }
    reach("end");
}
/// reading the Set-Cookie fields of a response gives back the cookies
#[no_mangle]
pub extern "C" fn h_set_cookie_read() {
    let flags = if deep(0, 1) == 0 { [0, 1, 2, 4, 8, 16, 32, 64, 5, 22, 76, 92, 104, 41][choice(14)] } else { choice(128) };
    let j = any_cookie(flags, choice(2));
    let k = CookieBuilder::new().name_value("k".to_string(), "v".to_string()).secure(true).build();
    let mut r = Response::success();
    r.add_set_cookie(j.cookie.clone());
    r.add_set_cookie(k.clone());
    match r.read_set_cookies() {
        Err(_) => fail("cookies can be read back"),
        Ok(v) => {
            check(v.len() == 2, "as many cookies as were set");
            check(v[0] == j.cookie, "the first cookie unchanged");
            check(v[1] == k, "the second cookie unchanged");
        }
    }
    reach("end");
}
/// whatever a peer puts into Set-Cookie: a result or an error, no crash
#[no_mangle]
pub extern "C" fn h_set_cookie_raw() {
    let kind = choice(5);
    let n = choice(deep(4, 5));
    let mut t = [&b""[..], b"a=b; Expires=", b"a=b; Max-Age=", b"a=b; SameSite=", b"a=b; "][kind].to_vec();
    t.extend_from_slice(&bytes_in(n, &[(0x20, 0x7e)]));
    let mut r = Response::success();
    r.add_header("Set-Cookie".to_string(), st(&t));
    if let Ok(v) = r.read_set_cookies() {
        check(v.len() == 1, "one cookie per field");
        if kind > 0 {
            let c = v[0].to_string();
            check(c.starts_with("a=b"), "name and value of the cookie");
        }
    }
    reach("end");
}

// ------------------------------------------------------------- compression
fn unpack(kind: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    if same(kind, b"gzip") {
        Compress::un_gzip(b).ok()
    } else if same(kind, b"deflate") {
        Compress::un_deflate(b).ok()
    } else if same(kind, b"zlib") {
        Compress::un_zlib(b).ok()
    } else {
        None
    }
}
/// the encoding was asked for, declared, and decodes to the body
fn check_packed(out: &[u8], listed: &[&[u8]], on: bool, body: &[u8]) {
    match parse_resp(out) {
        None => fail("a well-formed response is sent"),
        Some(r) => {
            let ce = r.all(b"Content-Encoding");
            check(ce.len() <= 1, "at most one encoding");
            let n = r.body.len().to_string();
            check(r.has(b"Content-Length", n.as_bytes()), "Content-Length is what is sent");
            if ce.is_empty() {
                reach("plain");
                check(same(&r.body, body), "an unencoded body is sent as it is");
            } else {
                reach("packed");
                check(on, "compression is switched on");
                check(listed.iter().any(|l| same(l, ce[0])), "the encoding was asked for");
                match unpack(ce[0], &r.body) {
                    None => fail("the encoded body can be decoded"),
                    Some(b) => check(same(&b, body), "the body decodes to what the handler set"),
                }
            }
        }
    }
}
const LONG: &[u8] = b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaabaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";
fn body_op(k: usize, b: &[u8]) -> Op {
    let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    match k {
        0 => Op::Body(b.to_vec()),
        1 => Op::Slice(s),
        2 => Op::Bodies(b.to_vec(), ContentType::TEXT_HTML),
        _ => Op::Slices(s, ContentType::TEXT_HTML),
    }
}
/// lists of encodings
#[no_mangle]
pub extern "C" fn h_comp_list() {
    let toks: [&[u8]; 6] = [b"gzip", b"deflate", b"zlib", b"br", b"identity", b"x"];
    let n = choice(deep(3, 4));
    let sep: &[u8] = [&b","[..], b", "][choice(2)];
    let mut listed = vec![];
    let mut v = vec![];
    for i in 0..n {
        let t = toks[choice(6)];
        if i > 0 {
            v.extend_from_slice(sep);
        }
        v.extend_from_slice(t);
        listed.push(t);
    }
    let on = choice(2) == 1;
    let k = choice(4);
    let body = [LONG, b"ab", b""][choice(3)];
    let mut req = b"GET /a HTTP/1.1\r\nHost: h\r\n".to_vec();
    if n > 0 {
        req.extend_from_slice(b"Accept-Encoding: ");
        req.extend_from_slice(&v);
        req.extend_from_slice(b"\r\n");
    }
    req.extend_from_slice(b"\r\n");
    let c = play(vec![body_op(k, body), Op::Answer], on, &req, 0);
    check_packed(&c.out, &listed, on, body);
    reach("end");
}
/// arbitrary Accept-Encoding text
#[no_mangle]
pub extern "C" fn h_comp_raw() {
    let n = choice(deep(6, 9));
    let v = bytes_in(n, &[(0x20, 0x7e)]);
    let mut req = b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: ".to_vec();
    req.extend_from_slice(&v);
    req.extend_from_slice(b"\r\n\r\n");
    let c = play(vec![Op::Slice(LONG), Op::Answer], true, &req, 0);
    let mut listed: Vec<&[u8]> = vec![];
    let mut at = 0;
    for i in 0..=n {
        if i == n || v[i] == b',' {
            let mut a = at;
            let mut e = i;
            while a < e && v[a] == b' ' {
                a += 1;
            }
            while a < e && v[e - 1] == b' ' {
                e -= 1;
            }
            listed.push(&v[a..e]);
            at = i + 1;
        }
    }
    check_packed(&c.out, &listed, true, LONG);
    reach("end");
}
/// setting the body several times leaves exactly one encoding, that of the last
#[no_mangle]
pub extern "C" fn h_comp_again() {
    let bodies = [LONG, b"ab", b""];
    let n = 2 + choice(deep(1, 2));
    let e: &[u8] = [&b"gzip"[..], b"deflate", b"zlib", b"x"][choice(4)];
    let mut ops = vec![];
    let mut last: &[u8] = b"";
    for _ in 0..n {
        last = bodies[choice(3)];
        ops.push(body_op(choice(4), last));
    }
    ops.push(Op::Answer);
    let mut req = b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: ".to_vec();
    req.extend_from_slice(e);
    req.extend_from_slice(b"\r\n\r\n");
    let c = play(ops, true, &req, 0);
    check_packed(&c.out, &[e], true, last);
    reach("end");
}
/// bodies of many kilobytes, that pack well or not at all
#[no_mangle]
pub extern "C" fn h_comp_big() {
    se_step_limit(400_000_000);
    let n = [1500, 9000, 70000][choice(3)];
    let e: &[u8] = [&b"gzip"[..], b"deflate", b"zlib", b"x"][choice(4)];
    let noise = choice(2) == 1;
    let mut x = 1u32;
    let b: Vec<u8> = (0..n)
        .map(|i| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            if noise { (x >> 24) as u8 } else { b'a' + (i / 7 % 19) as u8 }
        })
        .collect();
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    let mut req = b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: ".to_vec();
    req.extend_from_slice(e);
    req.extend_from_slice(b"\r\n\r\n");
    let c = play(vec![body_op(choice(4), b), Op::Answer], true, &req, [0, 1000][choice(2)]);
    check_packed(&c.out, &[e], true, b);
    reach("end");
}
/// compression and decompression are inverse
#[no_mangle]
pub extern "C" fn h_comp_round() {
    let kind = choice(3);
    let shapes: [&[u8]; 8] = [b"?", b"?b", b"a?", b"aaaaaaaa?aaaaaaa", b"abcabcab?abcabc", b"abcdefgh?", &LONG[..50], b""];
    let (k, full) = (choice(8), deep(0, 1) == 1);
    assume(full || (k != 1 && k != 4 && k != 5));
    let mut b = if full && choice(2) == 1 { bytes(2) } else { shapes[k].to_vec() };
    for x in b.iter_mut() {
        if *x == b'?' {
            *x = u8_();
        }
    }
    let lvl = [Compression::default(), Compression::none(), Compression::fast(), Compression::best()][choice(if full || k > 5 { 4 } else { 1 })];
    let z = match kind {
        0 => Compress::gzip(&b, lvl),
        1 => Compress::deflate(&b, lvl),
        _ => Compress::zlib(&b, lvl),
    };
    match z {
        Err(_) => fail("compression succeeds"),
        Ok(z) => {
            let k: &[u8] = [&b"gzip"[..], b"deflate", b"zlib"][kind];
            match unpack(k, &z) {
                None => fail("what was compressed can be decompressed"),
                Some(d) => check(same(&d, &b), "decompression gives back the bytes"),
            }
        }
    }
    reach("end");
}
/// packed data that was cut short or spoilt is refused
#[no_mangle]
pub extern "C" fn h_comp_broken() {
    let kind = choice(3);
    let b: &[u8] = [&b""[..], b"a", b"aaaaaaaaaaaaaaaaaaaaaaaa", b"abcdefgh", LONG][choice(deep(4, 5))];
    let lvl = [Compression::default(), Compression::none()][choice(2)];
    let z = match kind {
        0 => Compress::gzip(b, lvl),
        1 => Compress::deflate(b, lvl),
        _ => Compress::zlib(b, lvl),
    };
    let mut z = match z {
        Ok(z) => z,
        Err(_) => return fail("compression succeeds"),
    };
    let undo = |z: &[u8]| match kind {
        0 => Compress::un_gzip(z),
        1 => Compress::un_deflate(z),
        _ => Compress::un_zlib(z),
    };
    if choice(2) == 0 {
        // nothing at all counts as nothing
        let n = 1 + choice(z.len() - 1);
        check(undo(&z[..n]).is_err(), "data cut short is refused");
        reach("cut");
    } else {
        assume(kind != 1);
        let tail = [8, 0, 4][kind];
        let i = z.len() - 1 - choice(tail);
        let d = u8_();
        let same_ = d == z[i];
        z[i] = d;
        match undo(&z) {
            Ok(out) => check(same_ && same(&out, b), "data with another checksum is refused"),
            Err(_) => check(!same_, "unspoilt data is read"),
        }
        reach("spoilt");
    }
}
