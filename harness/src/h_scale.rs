//! the same promises at sizes and over histories a few symbolic bytes do not
//! reach: many fields, pairs, parts, cookies, requests, routes, filters, tasks;
//! long names, values and bodies with a symbolic byte or two inside
use crate::h_client::{ask as fetch, Wanted};
use crate::h_in::*;
use crate::h_req::{ask, one, server};
use crate::net::*;
use crate::se::*;
use starry::utils::concurrent::ThreadPool;
use starry::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_scale_routes", h_scale_routes));
    v.push(("h_scale_fields", h_scale_fields));
    v.push(("h_scale_query", h_scale_query));
    v.push(("h_scale_form", h_scale_form));
    v.push(("h_scale_parts", h_scale_parts));
    v.push(("h_scale_cookies", h_scale_cookies));
    v.push(("h_scale_auth", h_scale_auth));
    v.push(("h_scale_conn", h_scale_conn));
    v.push(("h_scale_url", h_scale_url));
    v.push(("h_scale_filters", h_scale_filters));
    v.push(("h_scale_tasks", h_scale_tasks));
    v.push(("h_scale_queue", h_scale_queue));
    v.push(("h_scale_vals", h_scale_vals));
}
/// letters that differ with the position, so that nothing lost or moved goes unseen
pub fn fill(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i * 7 + i / 25) % 25) as u8).collect()
}
/// a text of n letters with one symbolic visible one at one of 4 places
fn long(n: usize, not: &[u8]) -> Vec<u8> {
    let mut v = fill(n);
    let x = bytes_in(1, &[(0x21, 0x7e)])[0];
    for b in not {
        assume(x != *b);
    }
    if n > 0 {
        let at = [0, n / 2, n - 1, n - n / 5 - 1][choice(if n > 4 { 4 } else { 1 })];
        v[at] = x;
    }
    v
}
fn num(n: usize) -> Vec<u8> {
    n.to_string().into_bytes()
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
const LONG: [usize; 4] = [70, 300, 1500, 5000];

// ----------------------------------------------------------------- routing
fn at<const I: usize>(c: &mut Context) {
    let mut b = num(I);
    for k in ["a", "b", "c", "d", "e", "f"] {
        if let Some(v) = c.req_field(k) {
            b.extend_from_slice(v.as_bytes());
        }
    }
    b.extend_from_slice(&num(c.req_count_fields()));
    c.resp_body(b);
    c.response();
}
/// many routes, deep routes
#[no_mangle]
pub extern "C" fn h_scale_routes() {
    let s = server();
    let r = s.router("/r");
    let n = [9, 40, 150][choice(3)];
    let hs: [fn(&mut Context); 3] = [at::<0>, at::<1>, at::<2>];
    for i in 0..n {
        r.get(&format!("/n{}/x", i), hs[i % 3]);
    }
    r.get("/:a/1/:b/2/:c/3/:d/4/:e/5/:f/6", at::<7>);
    r.get("/deep/1/:b/2/:c/3/:d/4/:e/5/g/7", at::<8>);
    // a route of very many segments, with a parameter at the end
    let depth = [12, 17, 33, 70][choice(4)];
    let far = "/s".repeat(depth);
    r.get(&format!("{}/:a", far), at::<6>);
    r.get(&format!("{}/:b/t", far), at::<5>);
    let x = bytes_in(1, &[(b'0', b'9'), (b'a', b'z')]);
    let (path, want) = match choice(5) {
        3 => (cat(&[b"/r", far.as_bytes(), b"/", &x]), cat(&[b"6", &x, b"1"])),
        4 => (cat(&[b"/r", far.as_bytes(), b"/", &x, b"/t"]), cat(&[b"5", &x, b"1"])),
        0 => {
            let i = [0, n / 2, n - 2, n - 1][choice(4)];
            (format!("/r/n{}/x", i).into_bytes(), cat(&[&num(i % 3), b"0"]))
        }
        1 => (cat(&[b"/r/deep/1/", &x, b"/2/v2/3/v3/4/v4/5/g/6"]), cat(&[b"7deep", &x, b"v2v3v4g6"])),
        _ => (cat(&[b"/r/deep/1/", &x, b"/2/v2/3/v3/4/v4/5/g/7"]), cat(&[b"8", &x, b"v2v3v44"])),
    };
    let (code, body) = one(s, vec![get(&path)]);
    check(code == 200 && same(&body, &want), "the matching route among many, with its parameters");
    reach("end");
}
// ------------------------------------------------------------------ fields
fn on_field(c: &mut Context) {
    let mut good = true;
    for a in crate::h_req::ASK.lock().unwrap().iter() {
        good &= crate::h_req::see(c.req_header_get(&a.key), &a.val);
    }
    c.resp_body(if good { b"match".to_vec() } else { b"differ".to_vec() });
    c.response();
}
#[no_mangle]
pub extern "C" fn h_scale_fields() {
    let mut m = b"GET /a HTTP/1.1\r\nHost: h\r\n".to_vec();
    let mut put = |k: &[u8], v: &[u8]| {
        m.extend_from_slice(&cat(&[k, b": ", v, b"\r\n"]));
    };
    if choice(2) == 0 {
        let n = [12, 40, 110, 300][choice(4)];
        let x = long(3, b"");
        for i in 0..n {
            let k = cat(&[b"X-", &num(i)]);
            let v = if i + 1 == n { x.clone() } else { cat(&[b"v", &num(i)]) };
            put(&k, &v);
            if i == 0 || i == n / 2 || i + 1 == n {
                ask(&k, Some(&v));
            }
        }
    } else {
        let n = LONG[choice(4)];
        let (kl, vl) = if choice(2) == 0 { (n, 2) } else { (2, n) };
        let k = fill(kl);
        let v = long(vl, b"");
        put(&k, &v);
        put(b"X-Last", b"l");
        if choice(2) == 1 {
            // sent again: the last one counts
            put(&k, b"again");
            ask(&k, Some(b"again"));
        } else {
            ask(&k, Some(&v));
        }
        ask(b"X-Last", Some(b"l"));
    }
    m.extend_from_slice(b"\r\n");
    ask(b"X-None", None);
    let s = server();
    s.router("").get("/a", on_field);
    ok(one(s, vec![m]), "every header field, however many and long");
}
/// many pairs, or long ones
fn pairs_text() -> Vec<u8> {
    let mut q = vec![];
    if choice(2) == 0 {
        let n = [12, 40, 130, 300][choice(4)];
        let x = long(3, b"&#");
        for i in 0..n {
            if i > 0 {
                q.push(b'&');
            }
            let k = cat(&[b"k", &num(i)]);
            let v = if i + 1 == n { x.clone() } else { cat(&[b"v", &num(i)]) };
            q.extend_from_slice(&cat(&[&k, b"=", &v]));
            if i == 0 || i == n / 2 || i + 1 == n {
                ask(&k, Some(&v));
            }
        }
        *COUNT.lock().unwrap() = n;
    } else {
        let n = LONG[choice(4)];
        let (kl, vl) = if choice(2) == 0 { (n, 2) } else { (2, n) };
        let k = fill(kl);
        let v = long(vl, b"&#");
        q.extend_from_slice(&cat(&[&k, b"=", &v, b"&l=1"]));
        ask(&k, Some(&v));
        ask(b"l", Some(b"1"));
        *COUNT.lock().unwrap() = 2;
    }
    ask(b"zz", None);
    q
}
#[no_mangle]
pub extern "C" fn h_scale_query() {
    let q = pairs_text();
    let s = server();
    s.router("").get("/a", on_query);
    ok(one(s, vec![get(&cat(&[b"/a?", &q]))]), "every parameter, however many and long");
}
#[no_mangle]
pub extern "C" fn h_scale_form() {
    let q = pairs_text();
    ok(one(post_server(), vec![post_as(URLENC, &q)]), "every form field, however many and long");
}
#[no_mangle]
pub extern "C" fn h_scale_parts() {
    let bound = b"----------------------------317111499693539547849948";
    let mut b = vec![];
    if choice(2) == 0 {
        let n = [9, 33, 120][choice(3)];
        for i in 0..n {
            let v = if i + 1 == n { long(3, b"") } else { cat(&[b"v", &num(i)]) };
            let f = cat(&[b"f", &num(i)]);
            part(&mut b, bound, &cat(&[b"k", &num(i)]), if i % 2 == 1 { Some(&f) } else { None }, &v, i % 4 == 1);
        }
    } else {
        let n = [300, 1100, 5000, 70000][choice(4)];
        let mut v = long(n, b"");
        // line ends and what looks like a delimiter, on and off the usual sizes
        for (i, w) in [(100, &b"\r\n"[..]), (130, b"\n"), (200, b"\r\n----------------------------3171114996935395478499\r\n"), (1000, b"\r\r\n")] {
            if i + w.len() < n / 2 {
                v[i..i + w.len()].copy_from_slice(w);
            }
        }
        let f = if choice(2) == 1 { Some(&b"file.txt"[..]) } else { None };
        part(&mut b, bound, b"big", f, &v, true);
        part(&mut b, bound, b"last", None, b"l", false);
    }
    let m = finish_multi(b, bound, b"\r\n");
    ok(one(post_server(), vec![m]), "every part, however many and long");
}
#[no_mangle]
pub extern "C" fn h_scale_cookies() {
    let mut f = vec![];
    let n = if choice(2) == 0 { [9, 55, 190][choice(3)] } else { 2 };
    for i in 0..n {
        let v = if i + 1 < n {
            cat(&[b"v", &num(i)])
        } else if n > 2 {
            long(3, b";\",\\")
        } else {
            long(LONG[choice(4)], b";\",\\")
        };
        if i > 0 {
            f.extend_from_slice(b"; ");
        }
        let k = cat(&[b"c", &num(i)]);
        f.extend_from_slice(&cat(&[&k, b"=", &v]));
        COOKIES.lock().unwrap().push((k, v));
    }
    ok(one(cookie_server(), vec![with_field(b"Cookie", &f)]), "every cookie, however many and long");
}
#[no_mangle]
pub extern "C" fn h_scale_auth() {
    let n = [20, 49, 130, 700][choice(4)];
    let (u, p) = if choice(2) == 0 { (long(n, b":"), b"p:q".to_vec()) } else { (b"u".to_vec(), long(n, b"")) };
    let x = cat(&[&u, b":", &p]);
    *CRED.lock().unwrap() = Some((u, p));
    ok(one(auth_server(), vec![with_field(b"Authorization", &cat(&[b"Basic ", &b64(&x)]))]), "long credentials");
}
// -------------------------------------------------------------- connections
fn tell(c: &mut Context) {
    let v = c.req_field("p").unwrap_or_default();
    let f = match c.req_form("f") {
        Ok(x) => x.unwrap_or_default(),
        Err(_) => "!".to_string(),
    };
    c.resp_body(cat(&[v.as_bytes(), b"=", f.as_bytes()]));
    c.response();
}
/// many requests on one connection
#[no_mangle]
pub extern "C" fn h_scale_conn() {
    se_step_limit(400_000_000);
    clock::set(0);
    let n = [20, 110, deep(270, 1100)][choice(3)];
    let mut s = server();
    s.set_keepalive(60_000);
    s.router("").get("/r/:p", tell);
    s.router("").post("/r/:p", tell);
    let x = long(3, b"#?/");
    let mut segs = vec![];
    let mut want = vec![];
    for i in 0..n {
        let p = if i + 1 == n { x.clone() } else { num(i) };
        let f = num(i * i);
        let keep: &[u8] = if i + 1 < n { b"Connection: keep-alive\r\n" } else { b"" };
        segs.push(if i % 2 == 0 {
            want.push(cat(&[&p, b"="]));
            cat(&[b"GET /r/", &p, b" HTTP/1.1\r\nHost: h\r\n", keep, b"\r\n"])
        } else {
            want.push(cat(&[&p, b"=", &f]));
            cat(&[b"POST /r/", &p, b" HTTP/1.1\r\nHost: h\r\nContent-Type: ", URLENC, b"\r\nContent-Length: ", &num(f.len() + 2), b"\r\n", keep, b"\r\nf=", &f])
        });
    }
    let mut c = conn(segs, 0);
    c.gated = true;
    start(s, vec![c]);
    for i in 0..n {
        arrive(0, 1);
        quiet(0);
        // the thread watching for silence keeps up
        for _ in 0..8 {
            yield_();
        }
        if with(0, |c| c.fds) > 12 {
            fail("the handles on a connection do not pile up");
        }
    }
    let out = with(0, |c| c.out.clone());
    // the answers, one after the other
    let mut at = 0;
    for w in want.iter() {
        let mut e = at;
        while e + 4 <= out.len() && &out[e..e + 4] != b"\r\n\r\n" {
            e += 1;
        }
        let e = (e + 4 + w.len()).min(out.len());
        let (code, body) = answer(&out[at..e]);
        check(code == 200 && same(&body, w), "each request of many gets its own answer");
        at = e;
    }
    check(at == out.len(), "and nothing else is sent");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_scale_url() {
    let n = LONG[choice(4)];
    let t = match choice(3) {
        0 => cat(&[b"/", &long(n, b"?#")]),
        1 => cat(&[b"/p?q=", &long(n, b"#")]),
        _ => {
            let mut v = b"/p?".to_vec();
            for i in 0..n / 10 {
                v.extend_from_slice(&cat(&[b"&k", &num(i), b"=", &num(i * 3)]));
            }
            cat(&[&v, b"&", &long(2, b"#")])
        }
    };
    let user = if choice(2) == 1 { Some(cat(&[&fill(n / 20), b":pass"])) } else { None };
    let mut url = b"http://".to_vec();
    if let Some(u) = &user {
        url.extend_from_slice(&cat(&[u, b"@"]));
    }
    url.extend_from_slice(&cat(&[b"1.2.3.4:8080", &t]));
    fetch(&url, &Wanted { ip: 0x01020304, port: 8080, host: b"1.2.3.4".to_vec(), target: t, user });
}
// ------------------------------------------------------------------ filters
static TRACE: Mutex<Vec<u8>> = Mutex::new(Vec::new());
fn step<const I: usize>(c: &mut Context) {
    TRACE.lock().unwrap().push(I as u8);
    if c.req_header_get("X-Stop").map_or(false, |x| x.as_bytes()[0] == b'A' + I as u8) {
        c.resp_body(num(I));
        c.response();
    }
}
fn last(c: &mut Context) {
    TRACE.lock().unwrap().push(99);
    c.resp_body(b"last".to_vec());
    c.response();
}
/// many filters
#[no_mangle]
pub extern "C" fn h_scale_filters() {
    let f: [fn(&mut Context); 24] = [
        step::<0>, step::<1>, step::<2>, step::<3>, step::<4>, step::<5>, step::<6>, step::<7>, step::<8>, step::<9>, step::<10>, step::<11>,
        step::<12>, step::<13>, step::<14>, step::<15>, step::<16>, step::<17>, step::<18>, step::<19>, step::<20>, step::<21>, step::<22>, step::<23>,
    ];
    let of_route = [0, 5, 12, 24][choice(4)];
    let s = server();
    let r = s.router_wf("", Extend::e1(f[of_route..].to_vec()));
    r.get_wf("/a", last, Extend::e1(f[..of_route].to_vec()));
    let x = bytes_in(1, &[(b'A', b'Z')]);
    let (code, body) = one(s, vec![with_field(b"X-Stop", &x)]);
    let t = TRACE.lock().unwrap().clone();
    let stop = (x[0] - b'A') as usize;
    let mut want = vec![];
    for i in 0..24 {
        want.push(i as u8);
        if i == stop {
            break;
        }
    }
    if stop >= 24 {
        want.push(99);
    }
    check(t == want, "all filters run in order, up to the one that answers");
    check(code == 200 && body == if stop < 24 { num(stop) } else { b"last".to_vec() }, "and its answer is sent");
    reach("end");
}
// -------------------------------------------------------------------- tasks
static RUN: [AtomicUsize; 700] = [const { AtomicUsize::new(0) }; 700];
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static DONE: Mutex<usize> = Mutex::new(0);
static SIGNAL: Condvar = Condvar::new();
static HELD: Mutex<bool> = Mutex::new(false);
static RELEASE: Condvar = Condvar::new();
fn task(i: usize, size: usize, panics: bool) {
    check(ACTIVE.fetch_add(1, SeqCst) < size, "no more tasks at a time than workers");
    RUN[i].fetch_add(1, SeqCst);
    let mut h = HELD.lock().unwrap();
    while *h {
        h = RELEASE.wait(h).unwrap();
    }
    drop(h);
    ACTIVE.fetch_sub(1, SeqCst);
    *DONE.lock().unwrap() += 1;
    SIGNAL.notify_all();
    if panics {
        panic!("task");
    }
}
fn wait(n: usize) {
    let mut d = DONE.lock().unwrap();
    while *d < n {
        d = SIGNAL.wait(d).unwrap();
    }
}
fn count(accepted: &[bool]) {
    for _ in 0..20 {
        yield_();
    }
    for (i, a) in accepted.iter().enumerate() {
        check(RUN[i].load(SeqCst) == *a as usize, "an accepted task runs exactly once, a refused one never");
    }
    reach("end");
}
/// many tasks one after the other, some of them panicking
#[no_mangle]
pub extern "C" fn h_scale_tasks() {
    se_panic_mode(1);
    let size = [1, 2, 5][choice(3)];
    let n = [70, deep(150, 600)][choice(2)];
    let every = [0, 3][choice(2)];
    let burst = [1, 7, 40][choice(3)];
    let p = ThreadPool::new_custom("p".to_string(), size, 0, 64).unwrap();
    for i in 0..n {
        let panics = every > 0 && i % every == 0;
        check(p.execute(move || task(i, size, panics)).is_ok(), "a task is refused only when the queue is full");
        if i % burst == burst - 1 {
            wait(i + 1);
        }
    }
    wait(n);
    count(&vec![true; n]);
}
/// the queue holds as many tasks as it was given room for
#[no_mangle]
pub extern "C" fn h_scale_queue() {
    let size = [1, 3][choice(2)];
    let room = [10, 100, 130][choice(3)];
    *HELD.lock().unwrap() = true;
    // a room of 100 is what a pool has by default
    let p = if room == 100 {
        match choice(4) {
            0 => ThreadPool::builder().pool_size(size).create().unwrap(),
            1 => ThreadPool::new(size).unwrap(),
            2 => ThreadPool::new_with_name("q".to_string(), size).unwrap(),
            _ => ThreadPool::builder().name_prefix("q").stack_size(4_000_000).pool_size(size).create().unwrap(),
        }
    } else {
        ThreadPool::new_custom("p".to_string(), size, 0, room).unwrap()
    };
    check(p.size() == size, "the pool has the size asked for");
    let mut a = vec![];
    // every worker has its task before the queue fills
    for i in 0..size {
        a.push(p.execute(move || task(i, size, false)).is_ok());
        for _ in 0..10 {
            yield_();
        }
    }
    for i in size..size + room + 2 {
        a.push(p.execute(move || task(i, size, false)).is_ok());
    }
    for (i, a) in a.iter().enumerate() {
        check(*a == (i < size + room), "a task is refused exactly when the queue is full");
    }
    *HELD.lock().unwrap() = false;
    RELEASE.notify_all();
    wait(size + room);
    count(&a);
}
// --------------------------------------------------------------------- maps
#[no_mangle]
pub extern "C" fn h_scale_vals() {
    let n = [20, 70, 300][choice(3)];
    let x = st(&long(3, b""));
    let mut v = Values::new();
    for i in 0..n {
        v.set(format!("k{}", i), format!("v{}", i));
        v.add_str("many", &format!("m{}", i % 5));
    }
    v.add_str("many", &x);
    let big = st(&fill(3000));
    v.set_str(&big, "first");
    v.set_str(&big, &x);
    v.set(format!("k{}", n - 1), "other".to_string());
    v.set(format!("k{}", n - 1), format!("v{}", n - 1));
    v.set("a name of some length".to_string(), "first".to_string());
    v.set("a name of some length".to_string(), x.clone());
    check(v.get("a name of some length").map_or(false, |g| same(g.as_bytes(), x.as_bytes())), "setting replaces");
    check(v.del("a name of some length").is_some(), "removal");
    check(v.len() == n + 2, "count");
    for i in [0, n / 2, n - 1] {
        check(v.get(&format!("k{}", i)) == Some(format!("v{}", i)), "each name keeps its value");
    }
    let m = v.vec("many").unwrap_or_default();
    check(m.len() == n + 1, "every added value is kept");
    for i in 0..n {
        check(m[i] == format!("m{}", i % 5), "in order");
    }
    check(same(m[n].as_bytes(), x.as_bytes()), "the last one too");
    check(v.get(&big).map_or(false, |g| same(g.as_bytes(), x.as_bytes())), "long names");
    check(v.del("many").is_some() && v.vec("many").is_none() && v.len() == n + 1, "removal removes all values");
    check(v.map().len() == n + 1, "the map is the same");
    reach("end");
}
