//! the client: URLs and what is sent for them, responses and what is made of them
use crate::net::*;
use crate::se::*;
use starry::*;
use std::ffi::CStr;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_url_tail", h_url_tail));
    v.push(("h_url_target", h_url_target));
    v.push(("h_url_host", h_url_host));
    v.push(("h_url_name", h_url_name));
    v.push(("h_url_port", h_url_port));
    v.push(("h_url_user", h_url_user));
    v.push(("h_url_scheme", h_url_scheme));
    v.push(("h_url_send", h_url_send));
    v.push(("h_cli_status", h_cli_status));
    v.push(("h_cli_line", h_cli_line));
    v.push(("h_cli_field", h_cli_field));
    v.push(("h_cli_fields", h_cli_fields));
    v.push(("h_cli_cookies", h_cli_cookies));
    v.push(("h_cli_body", h_cli_body));
    v.push(("h_cli_segs", h_cli_segs));
    v.push(("h_cli_cut", h_cli_cut));
    v.push(("h_cli_any", h_cli_any));
    v.push(("h_cli_window", h_cli_window));
    v.push(("h_cli_length", h_cli_length));
    v.push(("h_cli_long", h_cli_long));
}

// ------------------------------------------------------- name resolution
#[repr(C)]
pub struct AddrInfo {
    flags: i32,
    family: i32,
    socktype: i32,
    protocol: i32,
    addrlen: u32,
    addr: *mut u8,
    canon: *mut u8,
    next: *mut AddrInfo,
}
fn info(ip: [u8; 4], v6: bool, next: *mut AddrInfo) -> *mut AddrInfo {
    let mut a = vec![0u8; 28];
    if v6 {
        a[0] = 10;
        a[8..24].copy_from_slice(&[0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, ip[0], ip[1], ip[2], ip[3]]);
    } else {
        a[0] = 2;
        a[4..8].copy_from_slice(&ip);
    }
    let p = Box::leak(a.into_boxed_slice()).as_mut_ptr();
    Box::leak(Box::new(AddrInfo { flags: 0, family: if v6 { 10 } else { 2 }, socktype: 1, protocol: 6, addrlen: if v6 { 28 } else { 16 }, addr: p, canon: std::ptr::null_mut(), next }))
}
/// the names the scripted resolver knows
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const i8, _svc: *const i8, _h: usize, res: *mut *mut AddrInfo) -> i32 {
    let n = CStr::from_ptr(node).to_bytes();
    let none = std::ptr::null_mut();
    *res = if n == b"localhost" {
        info([127, 0, 0, 1], false, none)
    } else if n == b"two.test" {
        info([1, 1, 1, 1], true, info([10, 1, 2, 3], false, none))
    } else if n == b"six.test" {
        info([1, 1, 1, 1], true, none)
    } else {
        return -2;
    };
    0
}
#[no_mangle]
pub extern "C" fn freeaddrinfo(_p: usize) {}
#[no_mangle]
pub extern "C" fn gnu_get_libc_version() -> *const u8 {
    b"2.39\0".as_ptr()
}
#[no_mangle]
pub extern "C" fn gai_strerror(_e: i32) -> *const u8 {
    b"no such name\0".as_ptr()
}

// ------------------------------------------------------------ the request
const OK: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";

fn get(url: &[u8], c: Conn) -> (Option<Response>, Conn) {
    NET.lock().unwrap().conns = vec![c];
    let u = match std::str::from_utf8(url) {
        Ok(u) => u,
        Err(_) => {
            assume(false);
            ""
        }
    };
    let r = HttpClient::get(u);
    let c = NET.lock().unwrap().conns[0].clone();
    (r.ok(), c)
}
pub struct Sent {
    pub line: Vec<u8>,
    pub fields: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
}
fn parse_req(out: &[u8]) -> Option<Sent> {
    // a request head has the shape of a response head but for its first line
    let mut fake = b"HTTP/1.1 200 ".to_vec();
    fake.extend_from_slice(out);
    parse_resp(&fake).map(|r| Sent { line: r.phrase, fields: r.fields, body: r.body })
}
impl Sent {
    fn all(&self, k: &[u8]) -> Vec<&Vec<u8>> {
        self.fields.iter().filter(|f| f.0.eq_ignore_ascii_case(k)).map(|f| &f.1).collect()
    }
}
pub fn base64(b: &[u8]) -> Vec<u8> {
    // without branches on the data
    let digit = |v: u8| -> u8 {
        const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        T[(v & 63) as usize]
    };
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        let g = |k: usize| if i + k < b.len() { b[i + k] } else { 0 };
        r.push(digit(g(0) >> 2));
        r.push(digit(g(0) << 4 | g(1) >> 4));
        r.push(if i + 1 < b.len() { digit(g(1) << 2 | g(2) >> 6) } else { b'=' });
        r.push(if i + 2 < b.len() { digit(g(2)) } else { b'=' });
        i += 3;
    }
    r
}
pub struct Wanted {
    pub ip: u32,
    pub port: u16,
    pub host: Vec<u8>,
    pub target: Vec<u8>,
    pub user: Option<Vec<u8>>,
}
/// the right server has been asked the right thing
fn expect_sent(w: &Wanted, c: &Conn) {
    check(c.connected, "a valid URL is connected to");
    if !c.connected {
        return;
    }
    check(c.peer_ip == w.ip, "host connected to");
    check(c.peer_port == w.port, "port connected to");
    match parse_req(&c.out) {
        None => fail("a well-formed request is sent"),
        Some(s) => {
            let mut l = b"GET ".to_vec();
            l.extend_from_slice(&w.target);
            l.extend_from_slice(if s.line.ends_with(b" HTTP/1.0") { b" HTTP/1.0" } else { b" HTTP/1.1" });
            check(same(&s.line, &l), "request line is GET, path and query of the URL");
            let h = s.all(b"Host");
            check(h.len() == 1, "one Host field");
            if h.len() == 1 {
                let mut full = w.host.clone();
                full.push(b':');
                full.extend_from_slice(w.port.to_string().as_bytes());
                check(same(h[0], &full) | ((w.port == 80) & same(h[0], &w.host)), "Host field names host and port of the URL");
            }
            let a = s.all(b"Authorization");
            match &w.user {
                None => check(a.is_empty(), "no credentials without user information"),
                Some(u) => {
                    check(a.len() == 1, "user information becomes credentials");
                    if a.len() == 1 {
                        let mut v = b"Basic ".to_vec();
                        v.extend_from_slice(&base64(u));
                        check(same(a[0], &v), "credentials are those of the URL");
                    }
                }
            }
            let n = s.all(b"Content-Length");
            check(n.is_empty() || (n.len() == 1 && n[0] == b"0"), "no body announced");
            check(s.all(b"Transfer-Encoding").is_empty(), "no body announced");
            check(s.body.is_empty(), "no body sent");
        }
    }
}
pub fn ask(url: &[u8], w: &Wanted) {
    let (r, c) = get(url, conn(vec![OK.to_vec()], 0));
    expect_sent(w, &c);
    check(r.is_some(), "a valid URL is fetched");
    observe(&c.peer_ip.to_le_bytes());
    observe(&c.peer_port.to_le_bytes());
    observe(&(c.out.len() as u32).to_le_bytes());
    reach("end");
}
fn refused(url: &[u8]) {
    let (r, c) = get(url, conn(vec![OK.to_vec()], 0));
    check(r.is_none(), "an invalid URL is an error");
    check(!c.connected, "no connection for an invalid URL");
    observe(&[c.connected as u8]);
    reach("refused");
}
fn graph(n: usize) -> Vec<u8> {
    bytes_in(n, &[(0x21, 0x7e)])
}

/// what a URL's text after the host says: Some(port, target), None: invalid,
/// or nothing is said about it
/// the port some digits denote
fn number(d: &[u8]) -> Option<u16> {
    let mut d = d;
    while !d.is_empty() && d[0] == b'0' {
        d = &d[1..];
    }
    if d.is_empty() || d.len() > 5 || (d.len() == 5 && d > &b"65535"[..]) {
        return None;
    }
    let mut p = 0u16;
    for b in d {
        p = p.wrapping_mul(10).wrapping_add((*b - b'0') as u16);
    }
    Some(p)
}
enum Tail {
    Good(u16, Vec<u8>),
    Bad,
    Unsaid,
}
fn tail_of(t: &[u8]) -> Tail {
    let mut unsaid = false;
    for b in t {
        if *b <= b' ' || *b == 0x7f {
            return Tail::Bad;
        }
    }
    let mut e = 0;
    while e < t.len() && t[e] != b'/' && t[e] != b'?' && t[e] != b'#' {
        e += 1;
    }
    let mut port = 80u16;
    let auth = &t[..e];
    if e > 0 {
        if auth[0] != b':' {
            // another host or user information
            return Tail::Unsaid;
        }
        if auth.iter().any(|b| *b == b'@') {
            return Tail::Unsaid;
        }
        if e == 1 {
            unsaid = true;
        } else {
            for b in &auth[1..] {
                if !b.is_ascii_digit() {
                    return Tail::Bad;
                }
            }
            match number(&auth[1..]) {
                Some(p) => port = p,
                None => return Tail::Bad,
            }
        }
    }
    let mut f = e;
    while f < t.len() && t[f] != b'#' {
        f += 1;
    }
    if unsaid {
        return Tail::Unsaid;
    }
    let mut target = vec![];
    if e == f || t[e] != b'/' {
        target.push(b'/');
    }
    target.extend_from_slice(&t[e..f]);
    Tail::Good(port, target)
}

/// anything after the host
#[no_mangle]
pub extern "C" fn h_url_tail() {
    let n = choice(deep(5, 6));
    let t = bytes_in(n, &[(0, 0x7f)]);
    let mut url = b"http://1.2.3.4".to_vec();
    url.extend_from_slice(&t);
    match tail_of(&t) {
        Tail::Good(port, target) => ask(&url, &Wanted { ip: 0x01020304, port, host: b"1.2.3.4".to_vec(), target, user: None }),
        Tail::Bad => refused(&url),
        Tail::Unsaid => {
            let (r, c) = get(&url, conn(vec![OK.to_vec()], 0));
            check(r.is_none() | c.connected, "no answer without a connection");
        }
    }
}

/// path, query and fragment
#[no_mangle]
pub extern "C" fn h_url_target() {
    let m = deep(3, 4);
    let a = choice(m + 1);
    let (b, d) = (choice(m + 1), choice(3));
    let mut target = vec![];
    if a > 0 {
        let p = graph(a - 1);
        for x in &p {
            assume((*x != b'?') & (*x != b'#'));
        }
        target.push(b'/');
        target.extend_from_slice(&p);
    }
    if b > 0 {
        let p = graph(b - 1);
        for x in &p {
            assume(*x != b'#');
        }
        target.push(b'?');
        target.extend_from_slice(&p);
    }
    let mut url = if choice(2) == 0 { b"http://10.20.30.40:81".to_vec() } else { b"10.20.30.40:81".to_vec() };
    url.extend_from_slice(&target);
    if a == 0 {
        target.insert(0, b'/');
    }
    if d > 0 {
        url.push(b'#');
        url.extend_from_slice(&graph(d - 1));
    }
    ask(&url, &Wanted { ip: 0x0a141e28, port: 81, host: b"10.20.30.40".to_vec(), target, user: None });
}

/// numeric hosts
#[no_mangle]
pub extern "C" fn h_url_host() {
    let k = choice(4);
    let mut o = [10u8, 0, 255, 7];
    o[k] = u8_();
    if deep(0, 1) == 1 {
        o[(k + 1) % 4] = u8_();
    }
    let host = format!("{}.{}.{}.{}", o[0], o[1], o[2], o[3]).into_bytes();
    let mut url = if choice(2) == 0 { b"http://".to_vec() } else { vec![] };
    url.extend_from_slice(&host);
    let (t, port): (&[u8], u16) = [(&b"/a"[..], 80), (b":8080/", 8080), (b"", 80)][choice(3)];
    url.extend_from_slice(t);
    ask(&url, &Wanted { ip: u32::from_be_bytes(o), port, host, target: if t == b"/a" { b"/a".to_vec() } else { b"/".to_vec() }, user: None });
}

/// names
#[no_mangle]
pub extern "C" fn h_url_name() {
    let mut url = if choice(2) == 0 { b"http://".to_vec() } else { vec![] };
    let user = if choice(2) == 0 { None } else { Some(b"u:p".to_vec()) };
    if user.is_some() {
        url.extend_from_slice(b"u:p@");
    }
    match choice(4) {
        0 => {
            url.extend_from_slice(b"localhost/x?y=z");
            ask(&url, &Wanted { ip: 0x7f000001, port: 80, host: b"localhost".to_vec(), target: b"/x?y=z".to_vec(), user });
        }
        1 => {
            // both an IPv6 and an IPv4 address
            url.extend_from_slice(b"two.test:90");
            ask(&url, &Wanted { ip: 0x0a010203, port: 90, host: b"two.test".to_vec(), target: b"/".to_vec(), user });
        }
        2 => {
            // a name that resolves to nothing
            let n = bytes_in(1 + choice(3), &[(b'a', b'z'), (b'-', b'-')]);
            url.extend_from_slice(&n);
            url.extend_from_slice(b"/x");
            refused(&url);
        }
        _ => {
            url.extend_from_slice([&b"six.test/"[..], b":80/", b"/", b"?a", b"#a", b"localhost:/../@"][1 + choice(4)]);
            refused(&url);
        }
    }
}

/// ports
#[no_mangle]
pub extern "C" fn h_url_port() {
    let mut d = [&b""[..], b"65", b"10", b"000", b"99", b"655", b"6553"][choice(7)].to_vec();
    let n = if d.is_empty() { 1 + choice(3) } else if d.len() == 4 { 1 } else { deep(2, 3) };
    d.extend_from_slice(&bytes_in(n, &[(b'0', b'9')]));
    let port = number(&d);
    let scheme: &[u8] = [&b"http://"[..], b""][choice(2)];
    let mut url = scheme.to_vec();
    url.extend_from_slice(b"1.2.3.4:");
    url.extend_from_slice(&d);
    let t: &[u8] = [&b"/a:1"[..], b"", b"?b:2/"][choice(3)];
    url.extend_from_slice(t);
    if port.is_none() {
        refused(&url);
    } else {
        let mut target = if t.starts_with(b"/") { vec![] } else { b"/".to_vec() };
        target.extend_from_slice(t);
        ask(&url, &Wanted { ip: 0x01020304, port: port.unwrap(), host: b"1.2.3.4".to_vec(), target, user: None });
    }
}

/// user information
#[no_mangle]
pub extern "C" fn h_url_user() {
    let m = deep(3, 4);
    let u = graph(choice(m));
    let p = graph(choice(m));
    for b in u.iter() {
        assume((*b != b'/') & (*b != b'?') & (*b != b'#') & (*b != b'@') & (*b != b':'));
    }
    for b in p.iter() {
        assume((*b != b'/') & (*b != b'?') & (*b != b'#') & (*b != b'@'));
    }
    let mut up = u.clone();
    let colon = choice(3) > 0;
    if colon {
        up.push(b':');
        up.extend_from_slice(&p);
    }
    let mut url = if choice(2) == 0 { b"http://".to_vec() } else { vec![] };
    url.extend_from_slice(&up);
    url.extend_from_slice(b"@9.8.7.6:90/@?:@#@:");
    if colon {
        ask(&url, &Wanted { ip: 0x09080706, port: 90, host: b"9.8.7.6".to_vec(), target: b"/@?:@".to_vec(), user: Some(up) });
    } else {
        refused(&url);
    }
}

/// other schemes are not taken for http
#[no_mangle]
pub extern "C" fn h_url_scheme() {
    let n = choice(6);
    let s = bytes_in(n, &[(b'a', b'z'), (b'A', b'Z'), (b'+', b'+'), (b'-', b'9')]);
    let mut url = s.clone();
    url.extend_from_slice(b"://1.2.3.4/x");
    let l = s.to_ascii_lowercase();
    if s == b"http" {
        ask(&url, &Wanted { ip: 0x01020304, port: 80, host: b"1.2.3.4".to_vec(), target: b"/x".to_vec(), user: None });
    } else if l != b"http" && l != b"https" && !s.contains(&b'/') {
        refused(&url);
    }
}

/// a network that takes the request in pieces, or breaks
#[no_mangle]
pub extern "C" fn h_url_send() {
    let p = graph(2);
    for x in &p {
        assume((*x != b'?') & (*x != b'#'));
    }
    let mut target = b"/".to_vec();
    target.extend_from_slice(&p);
    let mut url = b"http://u:p@1.2.3.4".to_vec();
    url.extend_from_slice(&target);
    let w = Wanted { ip: 0x01020304, port: 80, host: b"1.2.3.4".to_vec(), target, user: Some(b"u:p".to_vec()) };
    let mut c = conn(vec![OK.to_vec()], 0);
    match choice(3) {
        0 => {
            c.send_max = 1 + choice(deep(5, 12));
            let (r, c) = get(&url, c);
            expect_sent(&w, &c);
            check(r.is_some(), "a request sent in pieces is answered");
            reach("pieces");
        }
        1 => {
            c.send_fail_after = 1 + choice(40);
            let (r, c) = get(&url, c);
            check(r.is_none(), "a request that could not be sent is an error");
            check(c.out.len() <= 40, "nothing sent after the failure");
            reach("broken");
        }
        _ => {
            // nobody listens
            c.accepted = true;
            let (r, _) = get(&url, c);
            check(r.is_none(), "a refused connection is an error");
            reach("nobody");
        }
    }
}

// ----------------------------------------------------------- the response
fn fetch(segs: Vec<Vec<u8>>, tail: u8) -> Option<Response> {
    let (r, c) = get(b"http://1.2.3.4/", conn(segs, tail));
    check(c.connected, "connected");
    match &r {
        Some(r) => {
            let mut r = r.clone();
            let (v, s, _) = r.verif_view();
            observe(v.as_slice());
            observe(&s.to_le_bytes());
            observe(&r.body());
        }
        None => observe(b"error"),
    }
    r
}
fn fetch1(b: &[u8]) -> Option<Response> {
    fetch(vec![b.to_vec()], 0)
}
fn view(r: &mut Response) -> (bool, u16, Vec<(Vec<u8>, Vec<Vec<u8>>)>, Vec<u8>) {
    let (v, s, h) = r.verif_view();
    let f = h.map().into_iter().map(|(k, v)| (k.into_bytes(), v.into_iter().map(|x| x.into_bytes()).collect())).collect();
    (v == Version::HTTP_11, s, f, r.body())
}
fn field<'a>(f: &'a Vec<(Vec<u8>, Vec<Vec<u8>>)>, k: &[u8]) -> Vec<&'a Vec<u8>> {
    let mut r = vec![];
    for e in f.iter() {
        if e.0.eq_ignore_ascii_case(k) {
            for v in e.1.iter() {
                r.push(v);
            }
        }
    }
    r
}
fn want(r: Option<Response>, v11: bool, code: u16, fields: &[(&[u8], &[u8])], body: &[u8]) {
    match r {
        None => fail("a well-formed response is returned"),
        Some(mut r) => {
            let (v, c, f, b) = view(&mut r);
            check(v == v11, "version of the response");
            check(c == code, "status of the response");
            check(f.len() == fields.len(), "number of header fields");
            for w in fields {
                let g = field(&f, w.0);
                check(g.len() == 1, "header field present");
                if g.len() == 1 {
                    check(same(g[0], w.1), "header field value");
                }
            }
            check(same(&b, body), "body of the response");
            reach("end");
        }
    }
}

/// every status code, version and phrase
#[no_mangle]
pub extern "C" fn h_cli_status() {
    let d = bytes_in(3, &[(b'0', b'9')]);
    let code = (d[0] - b'0') as u16 * 100 + (d[1] - b'0') as u16 * 10 + (d[2] - b'0') as u16;
    let minor = choice(2) as u8;
    let p = bytes_in(choice(deep(3, 5)), &[(9, 9), (0x20, 0x7e), (0x80, 0xff)]);
    let mut m = b"HTTP/1.".to_vec();
    m.push(b'0' + minor);
    m.push(b' ');
    m.extend_from_slice(&d);
    m.push(b' ');
    m.extend_from_slice(&p);
    m.extend_from_slice(b"\r\nX-A: b\r\nContent-Length: 2\r\n\r\nhi");
    let r = fetch1(&m);
    if crate::h_resp::phrase(code).is_none() {
        if code < 100 {
            check(r.is_none(), "no such status");
        } else {
            check(r.is_none() || r.unwrap().verif_view().1 == code, "a status is never taken for another");
        }
        reach("unknown");
    } else {
        want(r, minor == 1, code, &[(b"X-A", b"b"), (b"Content-Length", b"2")], b"hi");
    }
}

/// a status line damaged in two adjoining places
#[no_mangle]
pub extern "C" fn h_cli_line() {
    let mut l = b"HTTP/1.1 200 OK".to_vec();
    let n = deep(2, 3);
    let gone = choice(n + 1);
    let at = choice(l.len() - gone + 1);
    let x = bytes(n);
    for b in &x {
        assume((*b != b'\r') & (*b != b'\n'));
    }
    l.splice(at..at + gone, x);
    let mut m = l.clone();
    m.extend_from_slice(b"\r\nContent-Length: 2\r\n\r\nhi");
    let r = fetch1(&m);
    if l.len() > 12 && l.starts_with(b"HTTP/1.") && (l[7] == b'0' || l[7] == b'1') && l[8] == b' ' && l[9].is_ascii_digit() && l[10].is_ascii_digit() && l[11].is_ascii_digit() && l[12] == b' ' {
        let code = (l[9] - b'0') as u16 * 100 + (l[10] - b'0') as u16 * 10 + (l[11] - b'0') as u16;
        if crate::h_resp::phrase(code).is_some() && l[13..].iter().all(|b| (*b >= b' ' || *b == 9) && *b != 0x7f) {
            want(r, l[7] == b'1', code, &[(b"Content-Length", b"2")], b"hi");
        } else {
            check(r.is_none() || r.unwrap().verif_view().1 == code, "a status is never taken for another");
        }
    } else if l != b"HTTP/1.1 200" && l != b"HTTP/1.0 200" {
        check(r.is_none(), "a malformed status line is an error");
        reach("bad");
    }
}

fn token(n: usize) -> Vec<u8> {
    bytes_in(n, &[(b'!', b'!'), (b'#', b'\''), (b'*', b'+'), (b'-', b'.'), (b'0', b'9'), (b'A', b'Z'), (b'^', b'z'), (b'|', b'|'), (b'~', b'~')])
}
fn value(n: usize) -> Vec<u8> {
    let v = bytes_in(n, &[(9, 9), (0x20, 0x7e)]);
    for i in 0..n {
        if i == 0 || i + 1 == n {
            assume((v[i] != b' ') & (v[i] != 9));
        }
    }
    v
}

/// one field of any name and value
#[no_mangle]
pub extern "C" fn h_cli_field() {
    let k = token(1 + choice(deep(2, 3)));
    let v = value(choice(deep(4, 5)));
    let (l, t): (&[u8], &[u8]) = [(&b" "[..], &b""[..]), (b"", b""), (b" \t", b"\t "), (b"", b" ")][choice(4)];
    let mut m = b"HTTP/1.1 404 Not Found\r\n".to_vec();
    let first = choice(2) == 0;
    if !first {
        m.extend_from_slice(b"Content-Length: 3\r\n");
    }
    m.extend_from_slice(&k);
    m.push(b':');
    m.extend_from_slice(l);
    m.extend_from_slice(&v);
    m.extend_from_slice(t);
    m.extend_from_slice(b"\r\n");
    if first {
        m.extend_from_slice(b"Content-Length: 3\r\n");
    }
    m.extend_from_slice(b"\r\nabc");
    let r = fetch1(&m);
    want(r, true, 404, &[(&k, &v), (b"Content-Length", b"3")], b"abc");
}

/// fields that mean something elsewhere, in any case of letters; repetitions
#[no_mangle]
pub extern "C" fn h_cli_fields() {
    let v = value(2);
    let w = value(2);
    let mut m = b"HTTP/1.0 200 Fine\r\n".to_vec();
    let name: &[u8] = [&b"Cookie"[..], b"Host", b"Connection", b"Content-Type", b"Authorization", b"Accept-Encoding", b"Location", b"x-long-name-of-a-field"][choice(8)];
    let other = if choice(2) == 0 { name } else { b"Other" };
    let cl: &[u8] = [&b"Content-Length"[..], b"content-length", b"CONTENT-LENGTH", b"Content-length"][choice(4)];
    for (k, x) in [(name, &v), (other, &w)] {
        m.extend_from_slice(k);
        m.extend_from_slice(b": ");
        m.extend_from_slice(x);
        m.extend_from_slice(b"\r\n");
    }
    m.extend_from_slice(cl);
    m.extend_from_slice(b": 1\r\n\r\nabc");
    let r = fetch1(&m);
    if other == name {
        want(r, false, 200, &[(name, &w), (b"Content-Length", b"1")], b"a");
    } else {
        want(r, false, 200, &[(name, &v), (other, &w), (b"Content-Length", b"1")], b"a");
    }
}

/// every Set-Cookie is kept, in order
#[no_mangle]
pub extern "C" fn h_cli_cookies() {
    let n = 1 + choice(3);
    let mut m = b"HTTP/1.1 200 OK\r\n".to_vec();
    let mut vals = vec![];
    let name: &[u8] = [&b"Set-Cookie"[..], b"set-cookie", b"SET-COOKIE"][choice(3)];
    for i in 0..n {
        let k = bytes_in(1, &[(b'a', b'z')]);
        let v = bytes_in(choice(3), &[(b'0', b'z'), (b'#', b'+')]);
        for b in &v {
            assume((*b != b';') & (*b != b'\\') & (*b != b'"'));
        }
        m.extend_from_slice(if i == 1 { b"Set-Cookie" } else { name });
        m.extend_from_slice(b": ");
        m.extend_from_slice(&k);
        m.push(b'=');
        m.extend_from_slice(&v);
        m.extend_from_slice(b"; Path=/\r\n");
        if i == 0 {
            m.extend_from_slice(b"Content-Length: 0\r\n");
        }
        vals.push((k, v));
    }
    m.extend_from_slice(b"\r\n");
    match fetch1(&m) {
        None => fail("a well-formed response is returned"),
        Some(r) => match r.read_set_cookies() {
            Err(_) => fail("cookies are read"),
            Ok(c) => {
                check(c.len() == n, "every Set-Cookie is kept");
                for i in 0..n {
                    if i < c.len() {
                        let mut t = vals[i].0.clone();
                        t.push(b'=');
                        t.extend_from_slice(&vals[i].1);
                        let s = c[i].to_string().into_bytes();
                        check(s.len() >= t.len() && same(&s[..t.len()], &t), "name and value of the cookie");
                        check(s.len() == t.len() || s[t.len()] == b';', "name and value of the cookie");
                    }
                }
                reach("end");
            }
        },
    }
}

/// the body, however delimited
#[no_mangle]
pub extern "C" fn h_cli_body() {
    let n = choice(deep(5, 6));
    let b = bytes(n);
    let mut m = b"HTTP/1.1 200 OK\r\nX: y\r\n".to_vec();
    let mode = choice(5);
    let len = match mode {
        0 | 2 => n,
        1 => n + 1 + choice(2),
        3 => {
            assume(n > 0);
            choice(6).min(n - 1)
        }
        _ => 0,
    };
    let digits = len.to_string();
    if mode < 4 {
        m.extend_from_slice(b"Content-Length: ");
        m.extend_from_slice(digits.as_bytes());
        m.extend_from_slice(b"\r\n");
    }
    m.extend_from_slice(b"\r\n");
    let head = m.len();
    m.extend_from_slice(&b);
    // one cut within head or body
    let segs = if mode == 2 {
        let at = head - 3 + choice(7);
        let at = at.min(m.len());
        vec![m[..at].to_vec(), m[at..].to_vec()]
    } else {
        vec![m]
    };
    let r = fetch(segs, 0);
    match mode {
        1 => {
            check(r.is_none(), "a body cut short is an error");
            reach("short");
        }
        4 => want(r, true, 200, &[(b"X", b"y")], &b),
        _ => want(r, true, 200, &[(b"X", b"y"), (b"Content-Length", digits.as_bytes())], &b[..len]),
    }
}

/// two cuts anywhere
#[no_mangle]
pub extern "C" fn h_cli_segs() {
    let b = bytes(2);
    let mut m = b"HTTP/1.1 302 Found\r\nLocation: /a?b:c\r\nContent-Length:2\r\n\r\n".to_vec();
    m.extend_from_slice(&b);
    let i = choice(m.len() + 1);
    let j = if deep(0, 1) == 1 { i + choice(m.len() + 1 - i) } else { (i + 1).min(m.len()) };
    let r = fetch(vec![m[..i].to_vec(), m[i..j].to_vec(), m[j..].to_vec()], 0);
    want(r, true, 302, &[(b"Location", b"/a?b:c"), (b"Content-Length", b"2")], &b);
}

/// the stream ends or breaks after any prefix
#[no_mangle]
pub extern "C" fn h_cli_cut() {
    let b = bytes(2);
    let mut m = b"HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: 2\r\n\r\n".to_vec();
    m.extend_from_slice(&b);
    let i = choice(m.len() + 1);
    let reset = choice(2) == 1;
    if i == m.len() && !reset {
        assume(false);
    }
    let r = fetch(vec![m[..i].to_vec()], if reset { 2 } else { 0 });
    // a reset after the last byte of a complete response loses nothing
    check(r.is_none() || i == m.len(), "a response cut short is an error");
    reach("end");
}

/// arbitrary bytes
#[no_mangle]
pub extern "C" fn h_cli_any() {
    let n = choice(deep(7, 8));
    let r = fetch1(&bytes(n));
    check(r.is_none(), "this is no response");
    reach("end");
}

/// arbitrary bytes in the middle of a response: no crash, and the status is
/// the one on the status line
#[no_mangle]
pub extern "C" fn h_cli_window() {
    let mut m = b"HTTP/1.1 200 OK\r\nA: b\r\nSet-Cookie: c=d\r\nContent-Length: 2\r\n\r\nhi".to_vec();
    let n = deep(2, 3);
    let at = 15 + choice(m.len() - 15 - n + 1);
    m[at..at + n].copy_from_slice(&bytes(n));
    if let Some(r) = fetch1(&m) {
        check(r.verif_view().1 == 200, "status of the response");
        let _ = r.read_set_cookies();
        reach("fine");
    } else {
        reach("error");
    }
}

/// arbitrary text as length
#[no_mangle]
pub extern "C" fn h_cli_length() {
    let n = 1 + choice(deep(3, 4));
    let t = bytes_in(n, &[(0x21, 0x7e)]);
    let mut m = b"HTTP/1.1 200 OK\r\nContent-Length: ".to_vec();
    m.extend_from_slice(&t);
    m.extend_from_slice(b"\r\n\r\n0123456789abc");
    let mut len = 0usize;
    let mut ok = true;
    for b in &t {
        if !b.is_ascii_digit() {
            ok = false;
            break;
        }
        len = len * 10 + (*b - b'0') as usize;
    }
    if !ok && (t[0] == b'+' || (t[0] == b'-' && t[1..].iter().all(|b| *b == b'0' || *b == b'1'))) {
        // leniencies nothing is said about
        return;
    }
    let r = fetch1(&m);
    if ok && len <= 13 {
        want(r, true, 200, &[(b"Content-Length", &t)], &b"0123456789abc"[..len]);
    } else {
        check(r.is_none(), "a body of another length than announced is an error");
        reach("error");
    }
}

/// large responses
#[no_mangle]
pub extern "C" fn h_cli_long() {
    se_step_limit(60_000_000);
    let size = [4095, 4096, 8193, 70000, 20000][choice(deep(4, 5))];
    let x = u8_();
    let at = [0, size / 2, size - 1][choice(3)];
    let mut b = vec![b'a'; size];
    for i in 0..size {
        b[i] = (i % 251) as u8;
    }
    b[at] = x;
    let big = vec![b'v'; [1, 3000][choice(2)]];
    let mut m = b"HTTP/1.1 200 OK\r\nBig: ".to_vec();
    m.extend_from_slice(&big);
    let n = size.to_string();
    let cl = choice(2) == 0;
    if cl {
        m.extend_from_slice(b"\r\nContent-Length: ");
        m.extend_from_slice(n.as_bytes());
    }
    m.extend_from_slice(b"\r\n\r\n");
    m.extend_from_slice(&b);
    let short = cl && choice(2) == 1;
    if short {
        m.pop();
    }
    let mut segs = vec![];
    for p in m.chunks(1460) {
        segs.push(p.to_vec());
    }
    let r = fetch(segs, 0);
    if short {
        check(r.is_none(), "a body cut short is an error");
    } else if cl {
        want(r, true, 200, &[(b"Big", &big), (b"Content-Length", n.as_bytes())], &b);
    } else {
        want(r, true, 200, &[(b"Big", &big)], &b);
    }
}
