//! value maps, media types, statuses, methods, versions
use crate::h_resp::{phrase, phrase_ok};
use crate::se::*;
use starry::header::ContentType;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_val_ops", h_val_ops));
    v.push(("h_val_keys", h_val_keys));
    v.push(("h_val_files", h_val_files));
    v.push(("h_type_known", h_type_known));
    v.push(("h_type_any", h_type_any));
    v.push(("h_type_near", h_type_near));
    v.push(("h_type_multi", h_type_multi));
    v.push(("h_tab_status", h_tab_status));
    v.push(("h_tab_method", h_tab_method));
    v.push(("h_tab_near", h_tab_near));
    v.push(("h_tab_version", h_tab_version));
    v.push(("h_tab_const", h_tab_const));
    v.push(("h_tab_ready", h_tab_ready));
    v.push(("h_tab_equal", h_tab_equal));
}
fn st(b: &[u8]) -> String {
    // harness strings are ASCII
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

// ------------------------------------------------------------- value maps
/// what a value map should hold
#[derive(Default, Clone)]
struct Model(Vec<(Vec<u8>, Vec<Vec<u8>>)>);
impl Model {
    fn find(&self, k: &[u8]) -> Option<usize> {
        for i in 0..self.0.len() {
            if self.0[i].0 == k {
                return Some(i);
            }
        }
        None
    }
    fn set(&mut self, k: &[u8], v: &[u8]) {
        match self.find(k) {
            Some(i) => self.0[i].1 = vec![v.to_vec()],
            None => self.0.push((k.to_vec(), vec![v.to_vec()])),
        }
    }
    fn add(&mut self, k: &[u8], v: &[u8]) {
        match self.find(k) {
            Some(i) => self.0[i].1.push(v.to_vec()),
            None => self.0.push((k.to_vec(), vec![v.to_vec()])),
        }
    }
    fn del(&mut self, k: &[u8]) -> Option<Vec<u8>> {
        match self.find(k) {
            Some(i) => Some(self.0.remove(i).1.remove(0)),
            None => None,
        }
    }
}
fn same_vec(a: &Vec<String>, b: &Vec<Vec<u8>>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= same(a[i].as_bytes(), &b[i]);
    }
    ok
}
fn look(v: &Values, m: &Model, k: &[u8]) {
    let s = st(k);
    let i = m.find(k);
    let (g, l, c) = (v.get(&s), v.vec(s.as_str()), v.contain(&s));
    match i {
        None => {
            check(g.is_none(), "an absent name has no value");
            check(l.is_none(), "an absent name has no values");
            check(!c, "an absent name is not contained");
        }
        Some(i) => {
            check(c, "a stored name is contained");
            match g {
                Some(g) => check(same(g.as_bytes(), &m.0[i].1[0]), "the first value of a name"),
                None => fail("a stored name has a value"),
            }
            match l {
                Some(l) => check(same_vec(&l, &m.0[i].1), "the values of a name in order of addition"),
                None => fail("a stored name has values"),
            }
        }
    }
    check(v.len() == m.0.len(), "the number of names");
}
fn whole(v: &Values, m: &Model) {
    let all = v.map();
    check(all.len() == m.0.len(), "the number of names in the map");
    for e in m.0.iter() {
        match all.get(&st(&e.0)) {
            Some(l) => check(same_vec(l, &e.1), "the map holds the values of a name"),
            None => fail("the map holds every name"),
        }
    }
}
fn act(v: &mut Values, m: &mut Model, op: usize, k: &[u8], x: &[u8]) {
    match op {
        0 => {
            v.set(st(k), st(x));
            m.set(k, x);
        }
        1 => {
            v.add(st(k), st(x));
            m.add(k, x);
        }
        2 => {
            let d = v.del(st(k).as_str());
            match (d, m.del(k)) {
                (None, None) => {}
                (Some(a), Some(b)) => check(same(a.as_bytes(), &b), "removing a name returns its first value"),
                _ => fail("removing tells whether the name was there"),
            }
        }
        3 => {
            v.set_str(&st(k), &st(x));
            m.set(k, x);
        }
        _ => {
            v.add_str(&st(k), &st(x));
            m.add(k, x);
        }
    }
}
/// sequences of operations on two names
#[no_mangle]
pub extern "C" fn h_val_ops() {
    let n = 1 + choice(deep(5, 6));
    let names: [&[u8]; 3] = [b"k", b"K", b"other"];
    let mut v = Values::new();
    let mut m = Model::default();
    for i in 0..n {
        let op = choice(if i + 1 < n { 3 } else { 5 });
        let k = names[choice(2)];
        let x = if op == 2 { vec![] } else { bytes_in(choice(2), &[(0x20, 0x7e)]) };
        act(&mut v, &mut m, op, k, &x);
        for k in names.iter() {
            look(&v, &m, k);
        }
    }
    whole(&v, &m);
    reach("end");
}
/// arbitrary names
#[no_mangle]
pub extern "C" fn h_val_keys() {
    let n = deep(3, 4);
    let mut v = Values::new();
    let mut m = Model::default();
    let mut keys = vec![];
    for _ in 0..n {
        let k = bytes_in(choice(3), &[(0x20, 0x7e)]);
        let x = bytes_in(1, &[(0x20, 0x7e)]);
        act(&mut v, &mut m, choice(2), &k, &x);
        keys.push(k);
    }
    keys.push(bytes_in(choice(3), &[(0x20, 0x7e)]));
    let l = keys.len() - 1;
    look(&v, &m, &keys[l]);
    act(&mut v, &mut m, 2, &keys[l], b"");
    for k in keys.iter() {
        look(&v, &m, k);
    }
    whole(&v, &m);
    reach("end");
}
/// the map of files
#[no_mangle]
pub extern "C" fn h_val_files() {
    let n = 1 + choice(deep(3, 4));
    let names: [&[u8]; 3] = [b"f", b"F", b""];
    let mut v = MultipartValues::new();
    let mut m: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..n {
        let k = names[choice(2)];
        let at = m.iter().position(|e| e.0 == k);
        let old = if choice(3) == 0 {
            let d = v.del(&st(k));
            match at {
                Some(i) => (d, Some(m.remove(i))),
                None => (d, None),
            }
        } else {
            let name = bytes_in(1, &[(0x20, 0x7e)]);
            let content = bytes(choice(2));
            let d = v.insert_obj(st(k), st(&name), content.clone(), ContentType::TEXT_PLAIN);
            let o = match at {
                Some(i) => Some(m.remove(i)),
                None => None,
            };
            m.push((k.to_vec(), name, content));
            (d, o)
        };
        match (&old.0, &old.1) {
            (None, None) => {}
            (Some(f), Some(e)) => check(same(f.filename().as_bytes(), &e.1) & same(&f.content(), &e.2) & (f.size() == e.2.len()), "the replaced or removed file is returned"),
            _ => fail("the operation tells whether the name was there"),
        }
        check(v.len() == m.len(), "the number of files");
        for k in names.iter() {
            let e = m.iter().find(|e| e.0 == *k);
            check(v.have(st(k).as_str()) == e.is_some(), "membership");
            match (v.get(&st(k)), e) {
                (None, None) => {}
                (Some(f), Some(e)) => check(same(f.filename().as_bytes(), &e.1) & same(&f.content(), &e.2) & (f.size() == e.2.len()), "the file stored under a name"),
                _ => fail("a file is found exactly if it is there"),
            }
        }
        check(v.map().len() == m.len(), "the number of files in the map");
    }
    reach("end");
}

// ------------------------------------------------------------ media types
const TYPES: [(ContentType, &[u8]); 14] = [
    (ContentType::TEXT_HTML, b"text/html"),
    (ContentType::TEXT_PLAIN, b"text/plain"),
    (ContentType::TEXT_XML, b"text/xml"),
    (ContentType::IMAGE_GIF, b"image/gif"),
    (ContentType::IMAGE_JPEG, b"image/jpeg"),
    (ContentType::IMAGE_PNG, b"image/png"),
    (ContentType::APPLICATION_XHTML_XML, b"application/xhtml+xml"),
    (ContentType::APPLICATION_XML, b"application/xml"),
    (ContentType::APPLICATION_ATOM_XML, b"application/atom+xml"),
    (ContentType::APPLICATION_JSON, b"application/json"),
    (ContentType::APPLICATION_PDF, b"application/pdf"),
    (ContentType::APPLICATION_MS_WORD, b"application/msword"),
    (ContentType::APPLICATION_OCTET_STREAM, b"application/octet-stream"),
    (ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED, b"application/x-www-form-urlencoded"),
];
fn is_type(c: &ContentType, i: usize) -> bool {
    *c == TYPES[i].0 && c.as_str().as_bytes() == TYPES[i].1
}
fn any_case(t: &[u8], at: usize, n: usize) -> Vec<u8> {
    // letters at..at+n in either case
    let mut r = t.to_vec();
    for i in at..(at + n).min(t.len()) {
        if t[i].is_ascii_alphabetic() {
            let b = u8_();
            assume((b == t[i]) | (b == t[i] - 32));
            r[i] = b;
        }
    }
    r
}
/// known names in any letter case with blanks and parameters
#[no_mangle]
pub extern "C" fn h_type_known() {
    let i = choice(14);
    let n = TYPES[i].1;
    check(is_type(&TYPES[i].0, i), "the standard name of a media type");
    let mut t = vec![b' '; choice(2)];
    let w = deep(6, 40);
    let at = w * choice((n.len() + w - 1) / w);
    t.extend_from_slice(&any_case(n, at, w));
    t.extend_from_slice(&vec![b' '; choice(2)]);
    let k = choice(deep(4, 5));
    if k > 0 {
        t.push(b';');
        t.extend_from_slice(&bytes_in(k - 1, &[(9, 9), (0x20, 0x7e)]));
    }
    let c = ContentType::from_str(&st(&t));
    check(is_type(&c, i), "a media type is recognised");
    observe(c.as_str().as_bytes());
    reach("end");
}
fn expect_type(t: &[u8]) {
    let mut e = 0;
    while e < t.len() && t[e] != b';' {
        e += 1;
    }
    let mut a = 0;
    while a < e && (t[a] == b' ' || t[a] == 9) {
        a += 1;
    }
    while e > a && (t[e - 1] == b' ' || t[e - 1] == 9) {
        e -= 1;
    }
    let c = ContentType::from_str(&st(t));
    observe(c.as_str().as_bytes());
    if t[a..e].eq_ignore_ascii_case(b"multipart/form-data") {
        return;
    }
    let mut i = 12;
    for j in 0..14 {
        if t[a..e].eq_ignore_ascii_case(TYPES[j].1) {
            i = j;
        }
    }
    check(is_type(&c, i), "a name is read as the media type it stands for, any other as binary data");
    if i == 12 {
        reach("binary");
    } else {
        reach("known");
    }
}
/// arbitrary short texts
#[no_mangle]
pub extern "C" fn h_type_any() {
    let n = choice(deep(11, 14));
    expect_type(&bytes_in(n, &[(0x20, 0x7e)]));
}
/// texts close to a known name
#[no_mangle]
pub extern "C" fn h_type_near() {
    let i = choice(15);
    let mut t = if i == 14 { b"multipart/form-data; boundary=x".to_vec() } else { TYPES[i].1.to_vec() };
    let gone = choice(3);
    let at = choice(t.len() - gone + 1);
    let x = bytes_in(choice(deep(2, 3)), &[(9, 9), (0x20, 0x7e)]);
    t.splice(at..at + gone, x);
    expect_type(&t);
}
/// multipart types and their boundary; custom types
#[no_mangle]
pub extern "C" fn h_type_multi() {
    let b = bytes_in(1 + choice(deep(3, 4)), &[(b'\'', b')'), (b'+', b':'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z'), (b'=', b'='), (b'?', b'?')]);
    let c = match choice(6) {
        0 => {
            // the quotes belong to no boundary
            let mut t = b"multipart/form-data; boundary=\"".to_vec();
            t.extend_from_slice(&b);
            t.push(b'"');
            ContentType::from_str(&st(&t))
        }
        1 => {
            let mut t = any_case(b"multipart/form-data; BOUNDARY=", 0, 4);
            t.extend_from_slice(&b);
            ContentType::from_str(&st(&t))
        }
        2 => {
            let mut t = b"Multipart/Form-Data;charset=utf-8;boundary=".to_vec();
            t.extend_from_slice(&b);
            t.extend_from_slice(b"; x=y");
            ContentType::from_str(&st(&t))
        }
        3 => ContentType::multipart_form_data(st(&b)),
        4 => ContentType::multipart_form_data_str(&st(&b)),
        _ => {
            let c = if choice(2) == 0 { ContentType::custom(st(&b)) } else { ContentType::custom_str(&st(&b)) };
            check(same(c.as_str().as_bytes(), &b), "the name of a custom media type");
            reach("custom");
            return;
        }
    };
    check(c.as_str() == "multipart/form-data", "the name of the multipart media type");
    match c.inner() {
        Inner::MultipartFormData(x) => check(same(x.as_bytes(), &b), "the boundary of a multipart type"),
        _ => fail("a multipart type is recognised"),
    }
    reach("end");
}

// ------------------------------------------------------------------ tables
const CODES: [(Status, u16); 60] = [(Status::CONTINUE, 100), (Status::SWITCHING_PROTOCOLS, 101), (Status::PROCESSING, 102), (Status::OK, 200), (Status::CREATED, 201), (Status::ACCEPTED, 202), (Status::NON_AUTHORITATIVE_INFORMATION, 203), (Status::NO_CONTENT, 204), (Status::RESET_CONTENT, 205), (Status::PARTIAL_CONTENT, 206), (Status::MULTI_STATUS, 207), (Status::ALREADY_REPORTED, 208), (Status::IM_USED, 226), (Status::MULTIPLE_CHOICES, 300), (Status::MOVED_PERMANENTLY, 301), (Status::FOUND, 302), (Status::SEE_OTHER, 303), (Status::NOT_MODIFIED, 304), (Status::USE_PROXY, 305), (Status::TEMPORARY_REDIRECT, 307), (Status::PERMANENT_REDIRECT, 308), (Status::BAD_REQUEST, 400), (Status::UNAUTHORIZED, 401), (Status::PAYMENT_REQUIRED, 402), (Status::FORBIDDEN, 403), (Status::NOT_FOUND, 404), (Status::METHOD_NOT_ALLOWED, 405), (Status::NOT_ACCEPTABLE, 406), (Status::PROXY_AUTHENTICATION_REQUIRED, 407), (Status::REQUEST_TIMEOUT, 408), (Status::CONFLICT, 409), (Status::GONE, 410), (Status::LENGTH_REQUIRED, 411), (Status::PRECONDITION_FAILED, 412), (Status::PAYLOAD_TOO_LARGE, 413), (Status::URI_TOO_LONG, 414), (Status::UNSUPPORTED_MEDIA_TYPE, 415), (Status::RANGE_NOT_SATISFIABLE, 416), (Status::EXPECTATION_FAILED, 417), (Status::IM_A_TEAPOT, 418), (Status::MISDIRECTED_REQUEST, 421), (Status::UNPROCESSABLE_ENTITY, 422), (Status::LOCKED, 423), (Status::FAILED_DEPENDENCY, 424), (Status::UPGRADE_REQUIRED, 426), (Status::PRECONDITION_REQUIRED, 428), (Status::TOO_MANY_REQUESTS, 429), (Status::REQUEST_HEADER_FIELDS_TOO_LARGE, 431), (Status::UNAVAILABLE_FOR_LEGAL_REASONS, 451), (Status::INTERNAL_SERVER_ERROR, 500), (Status::NOT_IMPLEMENTED, 501), (Status::BAD_GATEWAY, 502), (Status::SERVICE_UNAVAILABLE, 503), (Status::GATEWAY_TIMEOUT, 504), (Status::HTTP_VERSION_NOT_SUPPORTED, 505), (Status::VARIANT_ALSO_NEGOTIATES, 506), (Status::INSUFFICIENT_STORAGE, 507), (Status::LOOP_DETECTED, 508), (Status::NOT_EXTENDED, 510), (Status::NETWORK_AUTHENTICATION_REQUIRED, 511)];
/// all 16-bit numbers as status codes
#[no_mangle]
pub extern "C" fn h_tab_status() {
    let code = u16_();
    match Status::from_code(code) {
        Err(_) => {
            check(phrase(code).is_none(), "every standard status is known");
            reach("unknown");
        }
        Ok(s) => {
            check(s.code() == code, "a status keeps its code");
            check(s == code && code == s, "a status equals its code");
            check(phrase_ok(code as u32, s.phrase().as_bytes()), "the reason phrase of a status");
            check(s.phrase_as_slice() == s.phrase().as_bytes(), "both forms of the phrase agree");
            let p = s.phrase().to_string();
            check(s == p && p == s && s == p.as_str() && p.as_str() == s, "a status equals its phrase");
            let other = u16_();
            check((s == other) == (code == other), "a status equals no other code");
            observe(s.phrase().as_bytes());
            reach("known");
        }
    }
}
/// the named constants
#[no_mangle]
pub extern "C" fn h_tab_const() {
    let i = choice(60);
    let (s, c) = &CODES[i];
    check(s.code() == *c, "the code of a named status");
    check(phrase_ok(*c as u32, s.phrase().as_bytes()), "the phrase of a named status");
    check(matches!(Status::from_code(*c), Ok(t) if t == *s && t.phrase() == s.phrase()), "a named status is read back as itself");
    let j = choice(60);
    check((CODES[j].0 == *s) == (i == j), "different statuses differ");
    reach("end");
}
/// the ready-made responses
#[no_mangle]
pub extern "C" fn h_tab_ready() {
    let ready: [(fn() -> Response, u16); 11] = [
        (Response::success, 200),
        (Response::bad_request, 400),
        (Response::unauthorized, 401),
        (Response::forbidden, 403),
        (Response::not_found, 404),
        (Response::method_not_allowed, 405),
        (Response::not_acceptable, 406),
        (Response::request_timeout, 408),
        (Response::http_version_not_supported, 505),
        (Response::length_required, 411),
        (Response::expectation_failed, 417),
    ];
    let i = choice(12);
    let (mut r, code) = if i < 11 {
        (ready[i].0(), ready[i].1)
    } else {
        let n = u16_();
        match Status::from_code(n) {
            Ok(s) => (Response::custom(s), n),
            Err(_) => return,
        }
    };
    check(r.body().is_empty(), "a ready-made response has no body");
    let (version, c, _) = r.verif_view();
    check(c == code, "the status of a ready-made response");
    check(version == Version::HTTP_11 || version == Version::HTTP_10, "the version of a ready-made response");
    reach("end");
}

const METHODS: [(Method, &[u8], bool, bool, Option<bool>); 12] = [
    (Method::GET, b"GET", true, true, None),
    (Method::HEAD, b"HEAD", true, true, None),
    (Method::OPTIONS, b"OPTIONS", true, false, None),
    (Method::TRACE, b"TRACE", true, false, None),
    (Method::POST, b"POST", false, true, Some(false)),
    (Method::PUT, b"PUT", false, false, Some(true)),
    (Method::DELETE, b"DELETE", false, false, Some(true)),
    (Method::CONNECT, b"CONNECT", false, false, Some(false)),
    (Method::PATCH, b"PATCH", false, false, Some(false)),
    (Method::LINK, b"LINK", false, false, None),
    (Method::UNLINK, b"UNLINK", false, false, None),
    (Method::PRI, b"PRI", false, false, None),
];
fn expect_method(t: &[u8]) {
    let m = Method::from_bytes(t);
    let m2 = Method::from_str(&st(t));
    check(m.is_ok() == m2.is_ok(), "bytes and text agree");
    let mut k = None;
    for i in 0..12 {
        if METHODS[i].1 == t {
            k = Some(i);
        }
    }
    match (m, m2, k) {
        (Ok(m), Ok(m2), Some(i)) => {
            let e = &METHODS[i];
            check(m == e.0 && m2 == e.0, "a method is read as itself");
            check(same(m.as_str().as_bytes(), t), "a method is written as its name");
            check(m.to_string().as_bytes() == t, "a method is displayed as its name");
            check(m.is_safe() == e.2, "safe methods");
            check(m.is_cacheable() == e.3, "cacheable methods");
            if let Some(d) = e.4 {
                check(m.is_idempotent() == d, "idempotent methods");
            }
            for j in 0..12 {
                check((m == METHODS[j].0) == (i == j), "different methods differ");
            }
            observe(m.as_str().as_bytes());
            reach("known");
        }
        (Err(_), Err(_), None) => reach("unknown"),
        _ => fail("exactly the known method names are methods"),
    }
}
/// arbitrary texts as methods
#[no_mangle]
pub extern "C" fn h_tab_method() {
    let n = 1 + choice(deep(8, 9));
    expect_method(&bytes_in(n, &[(0, 0x7f)]));
}
/// texts close to a method name
#[no_mangle]
pub extern "C" fn h_tab_near() {
    let mut t = METHODS[choice(12)].1.to_vec();
    let gone = choice(3);
    assume(gone <= t.len());
    let at = choice(t.len() - gone + 1);
    let x = bytes_in(choice(3), &[(0, 0x7f)]);
    t.splice(at..at + gone, x);
    assume(!t.is_empty());
    expect_method(&t);
}
/// arbitrary texts as versions
#[no_mangle]
pub extern "C" fn h_tab_version() {
    let mut t = b"HTTP/1.1".to_vec();
    match choice(3) {
        0 => t = bytes_in(choice(deep(9, 10)), &[(0, 0x7f)]),
        1 => {
            let gone = choice(4);
            let at = choice(t.len() - gone + 1);
            t.splice(at..at + gone, bytes_in(choice(4), &[(0, 0x7f)]));
        }
        _ => t[7] = b'0',
    }
    match Version::from_str(&st(&t)) {
        Ok(v) => {
            check(t == b"HTTP/1.1" || t == b"HTTP/1.0", "exactly the known versions are versions");
            check(same(v.as_slice(), &t), "a version is written as its name");
            check(v.to_string().as_bytes() == &t[..] && v.as_ref().as_bytes() == &t[..], "a version is written as its name");
            check(v.major() == 1, "major number");
            check(v.minor() == t[7] - b'0', "minor number");
            check((v == Version::HTTP_11) == (t[7] == b'1'), "different versions differ");
            check((v == Version::HTTP_10) == (t[7] == b'0'), "different versions differ");
            check(v == *st(&t).as_str(), "a version equals its name");
            reach("known");
        }
        Err(_) => {
            check(t != b"HTTP/1.1" && t != b"HTTP/1.0", "the known versions are versions");
            reach("unknown");
        }
    }
}

/// the comparisons of methods, versions, statuses, media types and codings with each other and with texts
#[no_mangle]
pub extern "C" fn h_tab_equal() {
    macro_rules! compare {
        ($all:expr, $n:expr, $text:expr) => {{
            let all = $all;
            let (i, j) = (choice($n), choice($n));
            let (a, b) = (&all[i], &all[j]);
            let same = i == j;
            check((*a == *b) == same && (a == b) == same && (*a != *b) != same, "equal exactly if the same");
            check((*a == b) == same && (a == *b) == same && (*a != b) != same && (a != *b) != same, "equal exactly if the same, by reference");
            let name: String = $text(a);
            let mut t = name.clone().into_bytes();
            match choice(4) {
                0 => {}
                1 => t.push(0x20 + (u8_() & 0x3f)),
                2 => {
                    if !t.is_empty() {
                        let at = choice(t.len());
                        let x = u8_();
                        assume(x < 0x80);
                        t[at] = x;
                    }
                }
                _ => {
                    t.pop();
                }
            }
            let t = st(&t);
            let same = t == name;
            let s: &str = t.as_str();
            check((*a == *s) == same && (*s == *a) == same, "equal to a text exactly if it is the name");
            check((*a == s) == same && (s == *a) == same && (*a != s) != same && (s != *a) != same, "equal to a text exactly if it is the name, by reference");
            if same {
                reach("same");
            }
        }};
    }
    match choice(5) {
        0 => {
            let all: Vec<Method> = METHODS.iter().map(|m| m.0.clone()).collect();
            compare!(&all, 12, |m: &Method| {
                check(format!("{:?}", m) == m.as_str() && m.as_ref() as &str == m.as_str(), "the texts of a method agree");
                m.as_str().to_string()
            })
        }
        1 => {
            let all = [Version::HTTP_10, Version::HTTP_11];
            compare!(&all, 2, |v: &Version| {
                check(format!("{:?}", v) == v.to_string(), "the texts of a version agree");
                v.to_string()
            })
        }
        2 => {
            let all: Vec<ContentType> = TYPES.iter().map(|t| t.0.clone()).collect();
            compare!(&all, 14, |c: &ContentType| {
                check(format!("{:?}", c) == c.as_str() && c.as_ref() as &str == c.as_str(), "the texts of a media type agree");
                c.as_str().to_string()
            })
        }
        3 => {
            use starry::header::AcceptEncoding as A;
            let all = [A::GZip, A::Deflate, A::ZLib, A::Br, A::None];
            compare!(&all, 5, |e: &A| {
                let t = e.to_string();
                check(A::from(t.as_str()) == *e && A::from(t.clone()) == *e, "a coding is read as itself");
                t
            })
        }
        _ => {
            let all: Vec<Status> = CODES[[0, 20, 40][choice(3)]..].iter().take(20).map(|c| c.0.clone()).collect();
            compare!(&all, 20, |s: &Status| {
                let d = format!("{:?}", s);
                check(d == format!("{} {}", s.code(), s.phrase()), "a status is shown with its code and phrase");
                s.phrase().to_string()
            })
        }
    }
    reach("end");
}
