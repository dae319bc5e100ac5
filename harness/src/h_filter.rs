//! filters of routes and groups
use crate::net::*;
use crate::se::*;
use starry::*;
use std::sync::Mutex;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_filter_scope", h_filter_scope));
    v.push(("h_filter_method", h_filter_method));
    v.push(("h_filter_shape", h_filter_shape));
}
static TRACE: Mutex<Vec<u8>> = Mutex::new(Vec::new());

/// filter `id` answers when the request's field X-A has an 'a' at its place
fn filter(c: &mut Context, id: u8) {
    TRACE.lock().unwrap().push(b'0' + id);
    let a = c.req_header_get("X-A").unwrap_or_default().into_bytes();
    match a.get(id as usize).copied() {
        Some(b'a') => {
            c.resp_status(Status::FORBIDDEN);
            c.resp_body(vec![b'F', b'0' + id]);
            c.response();
        }
        // prepares the answer without giving it
        Some(b'h') => c.resp_set_header_str("X-By", "filter"),
        _ => {}
    }
}
fn f0(c: &mut Context) {
    filter(c, 0)
}
fn f1(c: &mut Context) {
    filter(c, 1)
}
fn f2(c: &mut Context) {
    filter(c, 2)
}
fn f3(c: &mut Context) {
    filter(c, 3)
}
fn f4(c: &mut Context) {
    filter(c, 4)
}
fn f5(c: &mut Context) {
    filter(c, 5)
}
const F: [fn(&mut Context); 6] = [f0, f1, f2, f3, f4, f5];
fn handler(c: &mut Context, id: u8) {
    TRACE.lock().unwrap().push(b'A' + id);
    c.resp_body(vec![b'H', b'A' + id]);
    c.response();
}
fn h0(c: &mut Context) {
    handler(c, 0)
}
fn h1(c: &mut Context) {
    handler(c, 1)
}
fn h2(c: &mut Context) {
    handler(c, 2)
}
const H: [fn(&mut Context); 3] = [h0, h1, h2];

/// filters registered at one place
const SETS: [&[u8]; 6] = [&[], &[0], &[1, 0], &[2, 2], &[0, 1, 2], &[3]];

fn extend(set: &[u8]) -> Extend {
    Extend::e1(set.iter().map(|i| F[*i as usize] as fn(&mut Context)).collect())
}
/// what has to happen for one request: trace and answer
fn expect(filters: &[u8], handler: u8, acts: &[u8]) -> (Vec<u8>, u32, Vec<u8>, bool) {
    let mut t = vec![];
    let mut by = false;
    for f in filters {
        t.push(b'0' + f);
        match acts[*f as usize] {
            b'a' => return (t, 403, vec![b'F', b'0' + f], by),
            b'h' => by = true,
            _ => {}
        }
    }
    t.push(b'A' + handler);
    (t, 200, vec![b'H', b'A' + handler], by)
}
fn send(server: HttpServer, method: &str, paths: &[Vec<u8>], acts: &[u8], want: &[Option<(Vec<u8>, u32, Vec<u8>, bool)>]) {
    let mut conns = vec![];
    for p in paths {
        let mut t = method.as_bytes().to_vec();
        t.push(b' ');
        t.extend_from_slice(p);
        t.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\nX-A: ");
        t.extend_from_slice(acts);
        t.extend_from_slice(b"\r\n\r\n");
        conns.push(conn(vec![t], 0));
    }
    let done = serve(server, conns);
    let trace = TRACE.lock().unwrap().clone();
    observe(&trace);
    let mut all = vec![];
    for w in want.iter().flatten() {
        all.extend_from_slice(&w.0);
    }
    check(same(&trace, &all), "filters and handlers in order");
    for (c, w) in done.iter().zip(want.iter()) {
        observe_out(&c.out);
        let r = match parse_resp(&c.out) {
            Some(r) => r,
            None => return fail("one well-formed answer"),
        };
        match w {
            Some(w) => {
                check(r.code == w.1, "status of the answer");
                check(same(&r.body, &w.2), "answer of the filter or handler");
                check(r.has(b"X-By", b"filter") == w.3, "what a filter prepared");
            }
            None => check(r.code == 404, "no such route"),
        }
    }
}
fn any_acts(n: usize) -> Vec<u8> {
    let a = bytes(n);
    for x in a.iter() {
        assume((*x == b'a') | (*x == b'h') | (*x == b'-'));
    }
    a
}
/// two groups, two routes in the first: filters of the route, then of its group
#[no_mangle]
pub extern "C" fn h_filter_scope() {
    let g = choice(7);
    let r1 = choice(7);
    let s = HttpServer::new();
    let mut s = s;
    s.set_pool_size(1);
    let set = |i: usize| if i == 0 { &[][..] } else { SETS[i - 1] };
    // the other group first or last
    let early = choice(2) == 1;
    let other = |s: &HttpServer| {
        let r = s.router_wf("/o", extend(&[4]));
        r.get("/a", H[2]);
    };
    if early {
        other(&s);
    }
    let r = if g == 0 { s.router("/g") } else { s.router_wf("/g", extend(set(g))) };
    if r1 == 0 {
        r.get("/a", H[0]);
    } else {
        r.get_wf("/a", H[0], extend(set(r1)));
    }
    // a second route of the group
    let r2: &[u8] = if deep(0, 1) == 1 { set(choice(7)) } else { [&[5][..], &[]][choice(2)] };
    if r2.is_empty() {
        r.get("/b", H[1]);
    } else {
        r.get_wf("/b", H[1], extend(r2));
    }
    if !early {
        other(&s);
    }
    let acts = any_acts(6);
    let mut fs = [set(r1).to_vec(), r2.to_vec(), vec![4]];
    fs[0].extend_from_slice(set(g));
    fs[1].extend_from_slice(set(g));
    let p = [b"/g/a".to_vec(), b"/g/b".to_vec(), b"/o/a".to_vec(), b"/g/c".to_vec()];
    let (x, y) = (choice(3), choice(4));
    let w = |i: usize| if i < 3 { Some(expect(&fs[i], i as u8, &acts)) } else { None };
    send(s, "GET", &[p[x].clone(), p[y].clone()], &acts, &[w(x), w(y)]);
    reach("end");
}
/// every way to register a route with filters
#[no_mangle]
pub extern "C" fn h_filter_method() {
    let m = choice(12);
    let name = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"][m];
    let wf = choice(2) == 1;
    let group = choice(2) == 1;
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    let r = if group { s.router_wf("/g", extend(&[1])) } else { s.router("/g") };
    let e = || extend(&[0, 2]);
    if wf {
        match m {
            0 => r.option_wf("/a", H[0], e()),
            1 => r.get_wf("/a", H[0], e()),
            2 => r.post_wf("/a", H[0], e()),
            3 => r.put_wf("/a", H[0], e()),
            4 => r.delete_wf("/a", H[0], e()),
            5 => r.head_wf("/a", H[0], e()),
            6 => r.trace_wf("/a", H[0], e()),
            7 => r.connect_wf("/a", H[0], e()),
            8 => r.patch_wf("/a", H[0], e()),
            9 => r.link_wf("/a", H[0], e()),
            10 => r.unlink_wf("/a", H[0], e()),
            _ => r.pri_wf("/a", H[0], e()),
        }
    } else {
        match m {
            0 => r.option("/a", H[0]),
            1 => r.get("/a", H[0]),
            2 => r.post("/a", H[0]),
            3 => r.put("/a", H[0]),
            4 => r.delete("/a", H[0]),
            5 => r.head("/a", H[0]),
            6 => r.trace("/a", H[0]),
            7 => r.connect("/a", H[0]),
            8 => r.patch("/a", H[0]),
            9 => r.link("/a", H[0]),
            10 => r.unlink("/a", H[0]),
            _ => r.pri("/a", H[0]),
        }
    }
    // the same path under another method, with a filter of its own
    let other = [1, 2][(m == 1) as usize];
    if other == 1 {
        s.router("/g").get_wf("/a", H[1], extend(&[3]));
    } else {
        s.router("/g").post_wf("/a", H[1], extend(&[3]));
    }
    let acts = any_acts(4);
    let mut fs = vec![];
    if wf {
        fs.extend_from_slice(&[0, 2]);
    }
    if group {
        fs.push(1);
    }
    if choice(2) == 0 {
        send(s, name, &[b"/g/a".to_vec()], &acts, &[Some(expect(&fs, 0, &acts))]);
    } else {
        send(s, ["", "GET", "POST"][other], &[b"/g/a".to_vec()], &acts, &[Some(expect(&[3], 1, &acts))]);
    }
    reach("end");
}
/// overlapping patterns: the filters are those of the route that handles the request
#[no_mangle]
pub extern "C" fn h_filter_shape() {
    const P: [&str; 5] = ["/a", "/:p", "/a/:q", "/:p/b", "/a/b"];
    let i = choice(5);
    let j = choice(5);
    assume(i != j);
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    let r = s.router("/g");
    let with = choice(3);
    let sets: [&[u8]; 2] = [if with != 1 { &[0, 1] } else { &[] }, if with != 0 { &[2, 1] } else { &[] }];
    for (k, p) in [P[i], P[j]].iter().enumerate() {
        if sets[k].is_empty() {
            r.get(p, H[k]);
        } else {
            r.get_wf(p, H[k], extend(sets[k]));
        }
    }
    let mut path = b"/g/".to_vec();
    path.extend(bytes_in(1, &[(b'a', b'c')]));
    if choice(2) == 1 {
        path.push(b'/');
        path.extend(bytes_in(1, &[(b'a', b'c')]));
    }
    let acts = any_acts(3);
    let hit = crate::h_route::reference(&[P[i], P[j]], &path[2..]);
    let want = hit.map(|k| expect(sets[k], k as u8, &acts));
    send(s, "GET", &[path], &acts, &[want]);
    reach("end");
}
