//! what handlers see: query parameters, forms, uploads, cookies, credentials
use crate::h_req::{ask, one, see, server, ASK};
use crate::net::*;
use crate::se::*;
use starry::*;
use std::sync::Mutex;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_query", h_query));
    v.push(("h_query_pairs", h_query_pairs));
    v.push(("h_query_absent", h_query_absent));
    v.push(("h_form", h_form));
    v.push(("h_form_pairs", h_form_pairs));
    v.push(("h_form_type", h_form_type));
    v.push(("h_multi_one", h_multi_one));
    v.push(("h_multi_many", h_multi_many));
    v.push(("h_multi_names", h_multi_names));
    v.push(("h_multi_bad", h_multi_bad));
    v.push(("h_multi_cut", h_multi_cut));
    v.push(("h_multi_partial", h_multi_partial));
    v.push(("h_cookie_req", h_cookie_req));
    v.push(("h_cookie_raw", h_cookie_raw));
    v.push(("h_auth", h_auth));
    v.push(("h_auth_raw", h_auth_raw));
    v.push(("h_auth_other", h_auth_other));
    v.push(("h_client_addr", h_client_addr));
    v.push(("h_client_v6", h_client_v6));
    v.push(("h_client_claim", h_client_claim));
    v.push(("h_multi_bound", h_multi_bound));
    v.push(("h_client_any", h_client_any));
    v.push(("h_websocket", h_websocket));
    v.push(("h_websocket_raw", h_websocket_raw));
}
pub static COUNT: Mutex<usize> = Mutex::new(0);
#[derive(Clone)]
struct File {
    key: String,
    name: String,
    content: Vec<u8>,
}
static FILES: Mutex<Vec<File>> = Mutex::new(Vec::new());

fn say(c: &mut Context, ok: bool) {
    c.resp_body(if ok { b"match".to_vec() } else { b"differ".to_vec() });
    c.response();
}
pub fn st(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
pub fn on_query(c: &mut Context) {
    let mut ok = c.req_count_param() == *COUNT.lock().unwrap();
    for a in ASK.lock().unwrap().iter() {
        ok &= c.req_have_param(&a.key) == a.val.is_some();
        ok &= see(c.req_param(&a.key), &a.val);
    }
    say(c, ok)
}
fn on_form(c: &mut Context) {
    let mut ok = true;
    for a in ASK.lock().unwrap().iter() {
        match c.req_form(&a.key) {
            Ok(v) => ok &= see(v, &a.val),
            Err(_) => return,
        }
        ok &= c.req_have_form(&a.key).ok() == Some(a.val.is_some());
    }
    ok &= c.req_count_form().ok() == Some(*COUNT.lock().unwrap());
    for f in FILES.lock().unwrap().iter() {
        match c.req_form_file(&f.key) {
            Ok(Some(g)) => {
                ok &= same(g.filename().as_bytes(), f.name.as_bytes());
                ok &= g.size() == f.content.len();
                ok &= same(&g.content(), &f.content);
            }
            _ => ok = false,
        }
    }
    match c.req_form_file("absent") {
        Ok(None) => {}
        _ => ok = false,
    }
    say(c, ok)
}
/// reference reading of `a=b&c=d`: pieces between '&', the first '=' of a
/// piece separates name and value, empty pieces count for nothing, the last
/// of several equal names wins
fn pairs(q: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut r: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut i = 0;
    while i <= q.len() {
        let mut e = i;
        while e < q.len() && q[e] != b'&' {
            e += 1;
        }
        if e > i {
            let mut s = i;
            while s < e && q[s] != b'=' {
                s += 1;
            }
            let k = q[i..s].to_vec();
            let v = if s < e { q[s + 1..e].to_vec() } else { vec![] };
            let mut found = false;
            for p in r.iter_mut() {
                if same(&p.0, &k) {
                    p.1 = v.clone();
                    found = true;
                    break;
                }
            }
            if !found {
                r.push((k, v));
            }
        }
        i = e + 1;
    }
    r
}
fn expect(q: &[u8]) {
    let r = pairs(q);
    *COUNT.lock().unwrap() = r.len();
    for (k, v) in r.iter() {
        ask(k, Some(v));
    }
    if !r.iter().any(|p| same(&p.0, b"zz")) {
        ask(b"zz", None);
    }
}
pub fn get(target: &[u8]) -> Vec<u8> {
    let mut m = b"GET ".to_vec();
    m.extend_from_slice(target);
    m.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    m
}
pub fn ok(r: (u32, Vec<u8>), what: &str) {
    check(r.0 == 200 && same(&r.1, b"match"), what);
    reach("end");
}
/// every query string of up to n visible bytes
#[no_mangle]
pub extern "C" fn h_query() {
    let q = bytes_in(choice(deep(6, 7)), &[(0x21, 0x7e)]);
    let mut e = 0;
    while e < q.len() && q[e] != b'#' {
        e += 1;
    }
    expect(&q[..e]);
    let s = server();
    s.router("").get("/a", on_query);
    let mut t = b"/a?".to_vec();
    t.extend_from_slice(&q);
    ok(one(s, vec![get(&t)]), "the parameters are those of the query");
}
/// many pairs, symbolic names and values
#[no_mangle]
pub extern "C" fn h_query_pairs() {
    let n = 1 + choice(deep(4, 6));
    let mut q = vec![];
    for i in 0..n {
        if i > 0 {
            q.push(b'&');
        }
        q.extend(bytes_in(1, &[(b'a', b'z')]));
        match choice(3) {
            0 => {}
            1 => q.push(b'='),
            _ => {
                q.push(b'=');
                q.extend(bytes_in(2, &[(0x27, 0x7e)]));
            }
        }
    }
    expect(&q);
    let s = server();
    s.router("").get("/a", on_query);
    let mut t = b"/a?".to_vec();
    t.extend_from_slice(&q);
    ok(one(s, vec![get(&t)]), "the parameters are those of the query");
}
/// no query: no parameters, whatever the path and the method
#[no_mangle]
pub extern "C" fn h_query_absent() {
    let s = server();
    s.router("").get("/:p", on_query);
    let mut t = b"/".to_vec();
    t.extend(bytes_in(choice(5), &[(0x21, 0x22), (0x24, 0x2e), (0x30, 0x3e), (0x40, 0x7e)]));
    match choice(3) {
        0 => t.push(b'?'),
        1 => t.extend_from_slice(b"#f?g=h"),
        _ => {}
    }
    expect(b"");
    ok(one(s, vec![get(&t)]), "no query, no parameters");
}
pub fn post_as(ct: &[u8], body: &[u8]) -> Vec<u8> {
    let mut m = b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: ".to_vec();
    m.extend_from_slice(ct);
    m.extend_from_slice(format!("\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes());
    m.extend_from_slice(body);
    m
}
pub const URLENC: &[u8] = b"application/x-www-form-urlencoded";
pub fn post_server() -> HttpServer {
    let s = server();
    s.router("").post("/a", on_form);
    s
}
/// every urlencoded body of up to n ASCII bytes
#[no_mangle]
pub extern "C" fn h_form() {
    let q = bytes_in(choice(deep(7, 9)), &[(1, 0x7f)]);
    expect(&q);
    ok(one(post_server(), vec![post_as(URLENC, &q)]), "the form fields are those of the body");
}
#[no_mangle]
pub extern "C" fn h_form_pairs() {
    let n = 1 + choice(deep(4, 6));
    let mut q = vec![];
    for i in 0..n {
        if i > 0 {
            q.push(b'&');
        }
        q.extend(bytes_in(1, &[(b'a', b'z')]));
        match choice(3) {
            0 => {}
            1 => q.push(b'='),
            _ => {
                q.push(b'=');
                q.extend(bytes_in(2, &[(0x27, 0x7e)]));
            }
        }
    }
    expect(&q);
    ok(one(post_server(), vec![post_as(URLENC, &q)]), "the form fields are those of the body");
}
/// spellings of the media type; other types carry no form fields
#[no_mangle]
pub extern "C" fn h_form_type() {
    let mut ct = URLENC.to_vec();
    let m = u32_();
    for i in 0..ct.len() {
        if ct[i] >= b'a' && i % 2 == 0 {
            ct[i] -= 32 * ((m >> (i / 2)) as u8 & 1);
        }
    }
    let suffix: [&[u8]; 4] = [b"", b"; charset=utf-8", b";charset=UTF-8", b" ; a=b; c=d"];
    ct.extend_from_slice(suffix[choice(4)]);
    match choice(4) {
        0 => {
            expect(b"k=v&l=w");
        }
        1 => {
            ct = b"text/plain".to_vec();
            expect(b"");
        }
        2 => {
            ct = b"application/json".to_vec();
            expect(b"");
        }
        _ => {
            ct = bytes_in(4, &[(b'a', b'z'), (b'/', b'/')]);
            expect(b"");
        }
    }
    ok(one(post_server(), vec![post_as(&ct, b"k=v&l=w")]), "urlencoded in any spelling, and nothing else, is a form");
}
// ------------------------------------------------------------- multipart
pub fn part(out: &mut Vec<u8>, bound: &[u8], name: &[u8], file: Option<&[u8]>, content: &[u8], ct: bool) {
    out.extend_from_slice(b"--");
    out.extend_from_slice(bound);
    out.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"");
    out.extend_from_slice(name);
    out.push(b'"');
    if let Some(f) = file {
        out.extend_from_slice(b"; filename=\"");
        out.extend_from_slice(f);
        out.push(b'"');
    }
    out.extend_from_slice(b"\r\n");
    if ct {
        out.extend_from_slice(b"Content-Type: text/plain\r\n");
    }
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(content);
    out.extend_from_slice(b"\r\n");
    match file {
        Some(f) => FILES.lock().unwrap().push(File { key: st(name), name: st(f), content: content.to_vec() }),
        None => {
            ask(name, Some(content));
            *COUNT.lock().unwrap() += 1;
        }
    }
}
pub fn finish_multi(mut b: Vec<u8>, bound: &[u8], tail: &[u8]) -> Vec<u8> {
    b.extend_from_slice(b"--");
    b.extend_from_slice(bound);
    b.extend_from_slice(b"--");
    b.extend_from_slice(tail);
    let mut ct = b"multipart/form-data; boundary=".to_vec();
    ct.extend_from_slice(bound);
    post_as(&ct, &b)
}
/// one part, any content of up to n bytes, as a field or as a file
#[no_mangle]
pub extern "C" fn h_multi_one() {
    let file = choice(2) == 1;
    let n = choice(deep(4, 5));
    let c = if file { bytes(n) } else { bytes_in(n, &[(1, 0x7f)]) };
    // a line of the content that is the delimiter ends the part
    for w in c.windows(3) {
        assume(!same(w, b"--b"));
    }
    let mut b = vec![];
    part(&mut b, b"b", b"k", if file { Some(b"f.txt") } else { None }, &c, choice(2) == 1);
    ask(b"zz", None);
    let t: [&[u8]; 2] = [b"\r\n", b""];
    let m = finish_multi(b, b"b", t[choice(2)]);
    ok(one(post_server(), vec![m]), "a part arrives as it was sent");
}
/// up to 3 parts, fields and files mixed
#[no_mangle]
pub extern "C" fn h_multi_many() {
    let n = 1 + choice(deep(3, 4));
    let bounds: [&[u8]; 3] = [b"b", b"--------317111", b"x:y"];
    let bound = bounds[choice(3)];
    let mut b = vec![];
    for i in 0..n {
        let names: [&[u8]; 4] = [b"one", b"two", b"three", b"four"];
        let file = choice(2) == 1;
        let c = match choice(3) {
            0 => vec![],
            1 => bytes_in(2, &[(1, 0x7f)]),
            _ => b"line\r\nline\n\r\n".to_vec(),
        };
        let fname = [b'f', b'0' + i as u8];
        part(&mut b, bound, names[i], if file { Some(&fname) } else { None }, &c, file);
    }
    let m = finish_multi(b, bound, b"\r\n");
    ok(one(post_server(), vec![m]), "every part arrives as it was sent");
}
/// any name and file name
#[no_mangle]
pub extern "C" fn h_multi_names() {
    let name = bytes_in(1 + choice(deep(3, 4)), &[(0x20, 0x21), (0x23, 0x7e)]);
    let fname = bytes_in(choice(deep(3, 4)), &[(0x20, 0x21), (0x23, 0x7e)]);
    let mut b = vec![];
    part(&mut b, b"b", &name, if choice(2) == 1 { Some(&fname) } else { None }, b"v", false);
    let m = finish_multi(b, b"b", b"\r\n");
    ok(one(post_server(), vec![m]), "names and file names are those that were sent");
}
/// any boundary, and content lines that are nearly it
#[no_mangle]
pub extern "C" fn h_multi_bound() {
    let n = 1 + choice(deep(3, 4));
    let quoted = choice(2) == 1;
    let bound = if quoted {
        bytes_in(n, &[(0x20, 0x20), (0x27, 0x29), (0x2b, 0x3a), (b'=', b'='), (b'?', b'?'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')])
    } else {
        bytes_in(n, &[(0x27, 0x27), (0x2b, 0x2e), (b'0', b'9'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')])
    };
    assume(bound[n - 1] != b' ');
    let mut c = vec![];
    match choice(4) {
        0 => c.push(b'v'),
        1 => {
            c.extend_from_slice(b"--");
            c.extend_from_slice(&bound[..n - 1]);
        }
        2 => {
            c.extend_from_slice(b"v\r\n --");
            c.extend_from_slice(&bound);
            c.extend_from_slice(b"\r\nw");
        }
        _ => c.extend_from_slice(&bound),
    }
    let mut b = vec![];
    part(&mut b, &bound, b"k", if choice(2) == 1 { Some(b"f.txt") } else { None }, &c, false);
    part(&mut b, &bound, b"l", None, b"second", false);
    b.extend_from_slice(b"--");
    b.extend_from_slice(&bound);
    b.extend_from_slice(b"--\r\n");
    let mut ct = b"multipart/form-data; boundary=".to_vec();
    if quoted {
        ct.push(b'"');
    }
    ct.extend_from_slice(&bound);
    if quoted {
        ct.push(b'"');
    }
    ok(one(post_server(), vec![post_as(&ct, &b)]), "parts are delimited by the boundary that was declared");
}
/// malformed bodies are refused with 400, not served
#[no_mangle]
pub extern "C" fn h_multi_bad() {
    let bodies: [&[u8]; 10] = [
        b"x\r\n--b--\r\n",
        b"--c\r\nContent-Disposition: form-data; name=\"k\"\r\n\r\nv\r\n--c--\r\n",
        b"--b\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition: attachment; name=\"k\"\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition: form-data\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition: form-data; name=\"k\"\r\n\r\nv\r\n",
        b"--b\r\nContent-Disposition: form-data; name=\"k\"\r\n\r\nv\r\n--b\r\n",
        b"--b\r\nContent-Disposition: form-data; name=\"k\"\r\n\r\nv\r\n--b-\r\n",
        b"--b\r\nContent-Disposition: form-data; name=\"k\"\r\n",
    ];
    ask(b"k", Some(b"v"));
    let (code, _) = one(post_server(), vec![post_as(b"multipart/form-data; boundary=b", bodies[choice(10)])]);
    check(code == 400, "a malformed multipart body is refused");
    reach("end");
}
fn on_partial(c: &mut Context) {
    let again = 1 + choice(2);
    let first = match choice(4) {
        0 => c.req_form("k").is_err(),
        1 => c.req_have_form("k").is_err(),
        2 => c.req_count_form().is_err(),
        _ => c.req_form_file("f").is_err(),
    };
    check(first, "looking into a malformed multipart body is an error");
    for _ in 0..again {
        check(c.req_form("k").unwrap_or(None).is_none(), "no field of a refused body");
        check(!c.req_have_form("k").unwrap_or(false), "no field of a refused body is present");
        check(c.req_count_form().unwrap_or(0) == 0, "no field of a refused body is counted");
        check(c.req_form_file("f").map(|f| f.is_none()).unwrap_or(true), "no file of a refused body");
    }
    c.resp_body(b"again".to_vec());
    c.response();
}
/// parts that are well-formed before one that is not: none is delivered, the answer is the 400 alone
#[no_mangle]
pub extern "C" fn h_multi_partial() {
    let mut b = vec![];
    for _ in 0..1 + choice(2) {
        let file = choice(2) == 1;
        part(&mut b, b"b", if file { b"f" } else { b"k" }, if file { Some(b"f.txt") } else { None }, &bytes_in(1, &[(b'a', b'z')]), false);
    }
    let tails: [&[u8]; 7] = [
        b"--b\r\nContent-Disposition: form-data; name=\"l\"\r\n\r\nv\r\n",
        b"--b\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition: attachment; name=\"l\"\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\nContent-Disposition: form-data\r\n\r\nv\r\n--b--\r\n",
        b"--b\r\n",
        b"",
    ];
    b.extend_from_slice(tails[choice(7)]);
    let s = server();
    s.router("").post("/a", on_partial);
    let q = post_as(b"multipart/form-data; boundary=b", &b);
    let (code, body) = one(s, vec![q]);
    check(code == 400 && body.is_empty(), "a malformed multipart body is refused, nothing else is sent");
    reach("end");
}
/// a multipart upload cut into three segments anywhere
#[no_mangle]
pub extern "C" fn h_multi_cut() {
    let c = bytes(2);
    let mut b = vec![];
    part(&mut b, b"b", b"k", Some(b"f"), &c, false);
    part(&mut b, b"b", b"l", None, b"v", false);
    let m = finish_multi(b, b"b", b"\r\n");
    let i = choice(m.len());
    let step = deep(m.len(), 1);
    let j = i + (choice(deep(2, 40)) * step) % (m.len() - i);
    let mut segs = vec![];
    for (a, z) in [(0, i), (i, j), (j, m.len())] {
        if z > a {
            segs.push(m[a..z].to_vec());
        }
    }
    ok(one(post_server(), segs), "an upload arrives whole however it is segmented");
}
// --------------------------------------------------------------- cookies
pub static COOKIES: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(Vec::new());
/// the cookie's own serialisation is its only public face: `name=value`
fn text(n: &[u8], v: &[u8]) -> Vec<u8> {
    let mut t = n.to_vec();
    if !n.is_empty() {
        t.push(b'=');
        t.extend_from_slice(v);
    } else {
        t.clear();
    }
    t
}
fn on_cookies(c: &mut Context) {
    let want = COOKIES.lock().unwrap().clone();
    let got = c.req_cookies();
    let mut ok = got.len() == want.len();
    for (g, w) in got.iter().zip(want.iter()) {
        ok &= same(g.to_string().as_bytes(), &text(&w.0, &w.1));
    }
    for w in want.iter() {
        let first = want.iter().find(|x| same(&x.0, &w.0)).unwrap();
        match c.req_cookie_get(&st(&w.0)) {
            Some(g) => ok &= same(g.to_string().as_bytes(), &text(&first.0, &first.1)),
            None => ok = false,
        }
    }
    ok &= c.req_cookie_get("absent").is_none();
    say(c, ok)
}
pub fn cookie_server() -> HttpServer {
    let s = server();
    s.router("").get("/a", on_cookies);
    s
}
pub fn with_field(name: &[u8], v: &[u8]) -> Vec<u8> {
    let mut m = b"GET /a HTTP/1.1\r\nHost: h\r\n".to_vec();
    m.extend_from_slice(name);
    m.extend_from_slice(b": ");
    m.extend_from_slice(v);
    m.extend_from_slice(b"\r\n\r\n");
    m
}
const TOK: [(u8, u8); 4] = [(b'a', b'z'), (b'A', b'Z'), (b'0', b'9'), (b'!', b'!')];
/// up to 3 cookies, symbolic names and values
#[no_mangle]
pub extern "C" fn h_cookie_req() {
    let n = choice(deep(3, 4));
    let mut f = vec![];
    for i in 0..n {
        let k = bytes_in(1 + choice(2), &TOK);
        let v = bytes_in(choice(3), &[(0x21, 0x21), (0x23, 0x2b), (0x2d, 0x3a), (0x3c, 0x5b), (0x5d, 0x7e)]);
        if i > 0 {
            f.extend_from_slice(b"; ");
        }
        f.extend_from_slice(&k);
        f.push(b'=');
        f.extend_from_slice(&v);
        COOKIES.lock().unwrap().push((k, v));
    }
    let names: [&[u8]; 2] = [b"Cookie", b"cookie"];
    let m = if n == 0 { b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec() } else { with_field(names[choice(2)], &f) };
    ok(one(cookie_server(), vec![m]), "the cookies are those of the request, in order");
}
/// every Cookie field of n bytes: read as pairs, or refused when a piece has no '='
#[no_mangle]
pub extern "C" fn h_cookie_raw() {
    let v = bytes_in(1 + choice(deep(5, 7)), &[(0x21, 0x7e)]);
    let mut good = true;
    let mut i = 0;
    while i <= v.len() {
        let mut e = i;
        while e < v.len() && v[e] != b';' {
            e += 1;
        }
        let mut s = i;
        while s < e && v[s] != b'=' {
            s += 1;
        }
        if s == e {
            good = false;
            break;
        }
        COOKIES.lock().unwrap().push((v[i..s].to_vec(), v[s + 1..e].to_vec()));
        i = e + 1;
    }
    let (code, body) = one(cookie_server(), vec![with_field(b"Cookie", &v)]);
    if good {
        check(code == 200 && same(&body, b"match"), "pairs are read");
        reach("pairs");
    } else {
        check(code == 400, "a piece without '=' is refused");
        reach("refused");
    }
}
// ----------------------------------------------------------- credentials
pub static CRED: Mutex<Option<(Vec<u8>, Vec<u8>)>> = Mutex::new(None);
fn on_auth(c: &mut Context) {
    let want = CRED.lock().unwrap().clone();
    let ok = match (c.req_userinfo(), want) {
        (None, None) => true,
        (Some(u), Some((n, p))) => same(u.username().as_bytes(), &n) && same(u.password().as_bytes(), &p),
        _ => false,
    };
    say(c, ok)
}
pub fn auth_server() -> HttpServer {
    let s = server();
    s.router("").get("/a", on_auth);
    s
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(x: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in x.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let v = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
        o.push(B64[v >> 18]);
        o.push(B64[v >> 12 & 63]);
        o.push(if c.len() > 1 { B64[v >> 6 & 63] } else { b'=' });
        o.push(if c.len() > 2 { B64[v & 63] } else { b'=' });
    }
    o
}
/// any user name without ':', any password
#[no_mangle]
pub extern "C" fn h_auth() {
    let u = bytes_in(1 + choice(2), &[(0x20, 0x39), (0x3b, 0x7e)]);
    let p = bytes_in(choice(deep(3, 4)), &[(0x20, 0x7e)]);
    let mut x = u.clone();
    x.push(b':');
    x.extend_from_slice(&p);
    *CRED.lock().unwrap() = Some((u, p));
    let pre: [&[u8]; 3] = [b"Basic ", b"basic ", b"BASIC "];
    let mut v = pre[choice(3)].to_vec();
    v.extend(b64(&x));
    ok(one(auth_server(), vec![with_field(b"Authorization", &v)]), "user name and password are those that were sent");
}
/// every base64 text of 4 characters, good or not
#[no_mangle]
pub extern "C" fn h_auth_raw() {
    let x = bytes_in(4, &[(b'A', b'Z'), (b'a', b'z'), (b'0', b'9'), (b'+', b'+'), (b'/', b'/')]);
    let mut d = 0u32;
    for c in x.iter() {
        let i = (((*c >= b'A') & (*c <= b'Z')) as u32) * (c.wrapping_sub(b'A') as u32)
            + (((*c >= b'a') & (*c <= b'z')) as u32) * (c.wrapping_sub(b'a') as u32 + 26)
            + (((*c >= b'0') & (*c <= b'9')) as u32) * (c.wrapping_sub(b'0') as u32 + 52)
            + ((*c == b'+') as u32) * 62
            + ((*c == b'/') as u32) * 63;
        d = d << 6 | (i & 63);
    }
    let y = [(d >> 16) as u8, (d >> 8) as u8, d as u8];
    // plain text with one ':' after a name
    let text = y[0] < 0x80 && y[1] < 0x80 && y[2] < 0x80;
    let mut good = false;
    if text && y[0] != b':' {
        if y[1] == b':' {
            *CRED.lock().unwrap() = Some((y[..1].to_vec(), y[2..].to_vec()));
            good = true;
        } else if y[2] == b':' {
            *CRED.lock().unwrap() = Some((y[..2].to_vec(), vec![]));
            good = true;
        }
    }
    assume(text);
    let mut v = b"Basic ".to_vec();
    v.extend_from_slice(&x);
    let (code, body) = one(auth_server(), vec![with_field(b"Authorization", &v)]);
    if good {
        check(code == 200 && same(&body, b"match"), "well-formed credentials are read");
        reach("good");
    } else {
        check(code == 400, "malformed credentials are refused");
        reach("bad");
    }
}
/// no credentials, or another scheme: none are reported
#[no_mangle]
pub extern "C" fn h_auth_other() {
    let m = match choice(3) {
        0 => b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(),
        1 => with_field(b"Authorization", b"Bearer dTpw"),
        _ => {
            let s = bytes_in(5, &[(b'a', b'z'), (b'A', b'Z')]);
            assume(!s.eq_ignore_ascii_case(b"basic"));
            let mut v = s;
            v.extend_from_slice(b" dTpw");
            with_field(b"Authorization", &v)
        }
    };
    ok(one(auth_server(), vec![m]), "no Basic credentials, none reported");
}
// ------------------------------------------------- peer address, websocket
fn on_addr(c: &mut Context) {
    let a = c.req_client_addr().to_string();
    c.resp_body(a.into_bytes());
    c.response();
}
fn on_host(c: &mut Context) {
    let a = c.req_client_addr();
    let mut b = a.host().into_bytes();
    b.push(b' ');
    dec(a.port(), &mut b);
    c.resp_body(b);
    c.response();
}
/// a peer that speaks IPv6
#[no_mangle]
pub extern "C" fn h_client_v6() {
    let s = server();
    s.router("").get("/a", on_host);
    let mut c = conn(vec![get(b"/a")], 0);
    let mut ip = [0u8; 16];
    match choice(4) {
        0 => ip[15] = 1,
        1 => ip[..4].copy_from_slice(&[0x20, 1, 0xd, 0xb8]),
        2 => ip[10..].copy_from_slice(&[0xff, 0xff, 10, 1, 2, 3]),
        _ => {
            for i in 0..16 {
                ip[i] = 0x11 * (i as u8 % 15 + 1)
            }
        }
    }
    let at = 2 * choice(8);
    ip[at] = u8_();
    c.peer_v6 = Some(ip);
    c.peer_port = [1, 80, 40000, 65535][choice(4)];
    let mut want = std::net::Ipv6Addr::from(ip).to_string().into_bytes();
    want.push(b' ');
    dec(c.peer_port, &mut want);
    let r = serve(s, vec![c]);
    observe_out(&r[0].out);
    let (code, body) = answer(&r[0].out);
    check(code == 200 && same(&body, &want), "the address of the peer");
    reach("end");
}
/// no field of the request makes it come from elsewhere
#[no_mangle]
pub extern "C" fn h_client_claim() {
    const CLAIMS: [&str; 16] = [
        "X-Forwarded-For: 9.8.7.6", "X-Real-IP: 9.8.7.6", "Forwarded: for=9.8.7.6", "Via: 1.1 9.8.7.6", "Client-IP: 9.8.7.6", "X-Client-IP: 9.8.7.6",
        "True-Client-IP: 9.8.7.6", "CF-Connecting-IP: 9.8.7.6", "X-Cluster-Client-IP: 9.8.7.6", "X-Forwarded: for=9.8.7.6", "X-Forwarded-Host: 9.8.7.6",
        "X-Forwarded-Port: 99", "From: 9.8.7.6", "Remote-Addr: 9.8.7.6", "X-ProxyUser-Ip: 9.8.7.6", "Host: 9.8.7.6:99",
    ];
    let f = choice(16);
    let mut l = CLAIMS[f].as_bytes().to_vec();
    if choice(2) == 1 {
        l.make_ascii_lowercase();
    }
    let mut m = b"GET /a HTTP/1.1\r\n".to_vec();
    if f != 15 {
        m.extend_from_slice(b"Host: h\r\n");
    }
    m.extend_from_slice(&l);
    m.extend_from_slice(b"\r\n\r\n");
    let s = server();
    s.router("").get("/a", on_host);
    let mut c = conn(vec![m], 0);
    c.peer_ip = [0x0a010203, 0x7f000001][choice(2)];
    let want: &[u8] = if c.peer_ip == 0x7f000001 { b"127.0.0.1 4321" } else { b"10.1.2.3 4321" };
    let r = serve(s, vec![c]);
    observe_out(&r[0].out);
    let (code, body) = answer(&r[0].out);
    check(code == 200 && same(&body, want), "the address of the peer");
    reach("end");
}
/// the client address is that of the peer of this connection
#[no_mangle]
pub extern "C" fn h_client_addr() {
    let s = server();
    s.router("").get("/a", on_addr);
    let mut cs = vec![];
    for _ in 0..2 {
        let mut c = conn(vec![get(b"/a")], 0);
        c.peer_ip = [0x7f000001, 0x0a010203, 0xc0a8ff00][choice(3)];
        c.peer_port = [1, 80, 40000, 65535][choice(4)];
        cs.push(c);
    }
    let want: Vec<String> = cs.iter().map(|c| format!("{}:{}", std::net::Ipv4Addr::from(c.peer_ip), c.peer_port)).collect();
    let r = serve(s, cs);
    for i in 0..2 {
        observe_out(&r[i].out);
        let (code, body) = answer(&r[i].out);
        check(code == 200 && same(&body, want[i].as_bytes()), "the address of the peer");
    }
    reach("end");
}
fn dec(mut v: u16, o: &mut Vec<u8>) {
    let mut d = vec![];
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    o.extend(d);
}
/// every address and port
#[no_mangle]
pub extern "C" fn h_client_any() {
    let s = server();
    s.router("").get("/a", on_addr);
    let mut c = conn(vec![get(b"/a")], 0);
    let which = if deep(0, 1) == 1 { 2 } else { choice(2) };
    let a = if which != 1 { u32_() } else { 0xc0a80a01 }.to_be_bytes();
    let p = if which != 0 { u16_() } else { 8080 };
    c.peer_ip = u32::from_be_bytes(a);
    c.peer_port = p;
    let mut want = vec![];
    for i in 0..4 {
        dec(a[i] as u16, &mut want);
        want.push(if i < 3 { b'.' } else { b':' });
    }
    dec(p, &mut want);
    let r = serve(s, vec![c]);
    observe_out(&r[0].out);
    let (code, body) = answer(&r[0].out);
    check(code == 200 && same(&body, &want), "the address of the peer");
    reach("end");
}
fn on_ws(c: &mut Context) {
    let w = c.req_is_web_socket();
    c.resp_body(if w { b"yes".to_vec() } else { b"no".to_vec() });
    c.response();
}
fn ws(conn_: &[u8], up: &[u8]) -> Vec<u8> {
    let s = server();
    s.router("").get("/a", on_ws);
    let mut m = b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: ".to_vec();
    m.extend_from_slice(conn_);
    m.extend_from_slice(b"\r\nUpgrade: ");
    m.extend_from_slice(up);
    m.extend_from_slice(b"\r\n\r\n");
    let (code, body) = one(s, vec![m]);
    check(code == 200, "served");
    body
}
/// the handshake in any letter case, alone or in a list
#[no_mangle]
pub extern "C" fn h_websocket() {
    let mut a = b"upgrade".to_vec();
    let mut b = b"websocket".to_vec();
    let m = u16_();
    for i in 0..7 {
        a[i] -= 32 * ((m >> i) as u8 & 1);
    }
    for i in 0..9 {
        b[i] -= 32 * ((m >> (i + 7)) as u8 & 1);
    }
    let mut v = [&b""[..], b"keep-alive, ", b"x,"][choice(3)].to_vec();
    v.extend_from_slice(&a);
    if choice(2) == 1 {
        v.extend_from_slice(b", y");
    }
    check(same(&ws(&v, &b), b"yes"), "a websocket handshake is recognised");
    reach("end");
}
/// anything else is none
#[no_mangle]
pub extern "C" fn h_websocket_raw() {
    let up = bytes_in(9, &[(b'a', b'z'), (b'-', b'-')]);
    let cn = bytes_in(7, &[(b'a', b'z'), (b'-', b'-')]);
    let want = same(&up, b"websocket") && same(&cn, b"upgrade");
    let body = ws(&cn, &up);
    check(same(&body, if want { &b"yes"[..] } else { b"no" }), "only the handshake is one");
    reach(if want { "yes" } else { "no" });
}
