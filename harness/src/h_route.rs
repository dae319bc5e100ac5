//! route dispatch
use crate::net::*;
use crate::se::*;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_route_pair", h_route_pair));
    v.push(("h_route_triple", h_route_triple));
    v.push(("h_route_path", h_route_path));
    v.push(("h_route_again", h_route_again));
    v.push(("h_route_method", h_route_method));
}

const NAMES: [&str; 4] = ["x", "y", "z", "w"];

fn tell(c: &mut Context, id: u8) {
    let mut b = vec![b'R', b'0' + id, b'#', b'0' + c.req_count_fields() as u8];
    for n in NAMES.iter() {
        if let Some(v) = c.req_field(*n) {
            b.push(b'|');
            b.extend_from_slice(n.as_bytes());
            b.push(b'=');
            b.extend_from_slice(v.as_bytes());
        }
        if c.req_have_field(*n) != c.req_field(*n).is_some() {
            b.push(b'!');
        }
    }
    c.resp_body(b);
    c.response();
}
fn r0(c: &mut Context) {
    tell(c, 0)
}
fn r1(c: &mut Context) {
    tell(c, 1)
}
fn r2(c: &mut Context) {
    tell(c, 2)
}
fn r3(c: &mut Context) {
    tell(c, 3)
}
const H: [fn(&mut Context); 4] = [r0, r1, r2, r3];

fn segs(p: &[u8]) -> Vec<&[u8]> {
    p[1..].split(|b| *b == b'/').collect()
}
/// two patterns denote the same resource when they differ in parameter names only
fn same_shape(a: &str, b: &str) -> bool {
    let (a, b) = (segs(a.as_bytes()), segs(b.as_bytes()));
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| piece_eq(x, y))
}
fn is_param(p: &[u8]) -> bool {
    p.first() == Some(&b':')
}
fn piece_eq(x: &[u8], y: &[u8]) -> bool {
    (is_param(x) && is_param(y)) || x == y
}
/// reference: all matching routes; at the first segment where two of them
/// differ, the alternative introduced first (below the common prefix) wins
pub fn reference(routes: &[&str], path: &[u8]) -> Option<usize> {
    if path.first() != Some(&b'/') {
        return None;
    }
    let ps = segs(path);
    let m = |r: &str| {
        let rs = segs(r.as_bytes());
        rs.len() == ps.len() && rs.iter().zip(ps.iter()).all(|(a, b)| is_param(a) || same(a, b))
    };
    // rank of a route's prefix of length k: index of the first route with that prefix
    let rank = |r: usize, k: usize| {
        let rs = segs(routes[r].as_bytes());
        (0..routes.len())
            .find(|&i| {
                let is = segs(routes[i].as_bytes());
                is.len() >= k && is[..k].iter().zip(rs[..k].iter()).all(|(a, b)| piece_eq(a, b))
            })
            .unwrap()
    };
    let mut best: Option<usize> = None;
    for i in 0..routes.len() {
        if !m(routes[i]) {
            continue;
        }
        best = Some(match best {
            None => i,
            Some(b) => {
                let mut w = b;
                for k in 1..=ps.len() {
                    let (p, q) = (rank(b, k), rank(i, k));
                    if p != q {
                        w = if q < p { i } else { b };
                        break;
                    }
                }
                w
            }
        });
    }
    best
}
fn expect(routes: &[&str], r: usize, path: &[u8]) -> Vec<u8> {
    let rs = segs(routes[r].as_bytes());
    let ps = segs(path);
    let mut n = 0;
    for p in rs.iter() {
        n += is_param(p) as u8;
    }
    let mut b = vec![b'R', b'0' + r as u8, b'#', b'0' + n];
    for nm in NAMES.iter() {
        for i in 0..rs.len() {
            if is_param(rs[i]) && &rs[i][1..] == nm.as_bytes() {
                b.push(b'|');
                b.extend_from_slice(nm.as_bytes());
                b.push(b'=');
                b.extend_from_slice(ps[i]);
            }
        }
    }
    b
}
fn run(routes: &[&str], path: &[u8]) {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    for (i, r) in routes.iter().enumerate() {
        s.router("").get(r, H[i]);
    }
    let mut req = b"GET ".to_vec();
    req.extend_from_slice(path);
    req.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    let r = serve(s, vec![conn(vec![req], 0)]);
    let (code, body) = answer(&r[0].out);
    observe_out(&r[0].out);
    match reference(routes, path) {
        None => {
            check(code == 404, "no route matches: 404");
            reach("404");
        }
        Some(i) => {
            check(code == 200, "a route matches: its handler answers");
            check(same(&body, &expect(routes, i, path)), "the right handler runs with its own parameters");
            reach("200");
        }
    }
}
/// path: '/' followed by n visible bytes other than '?', '#', '&', '%'
fn path(n: usize) -> Vec<u8> {
    let mut p = vec![b'/'];
    p.extend(bytes_in(n, &[(b'!', b'"'), (b'$', b'$'), (b'\'', b'>'), (b'@', b'~')]));
    p
}
const P1: [&str; 3] = ["a", ":x", ":y"];
const P2: [&str; 3] = ["b", "a", ":z"];
fn pattern(i: usize) -> String {
    if i < 3 {
        format!("/{}", P1[i])
    } else {
        format!("/{}/{}", P1[(i - 3) / 3], P2[(i - 3) % 3])
    }
}
/// every ordered pair out of 12 patterns of depth 1 and 2, every path of up to 4 bytes
#[no_mangle]
pub extern "C" fn h_route_pair() {
    let a = pattern(choice(12));
    let b = pattern(choice(12));
    assume(!same_shape(&a, &b));
    let p = path(choice(5));
    run(&[&a, &b], &p);
}
/// every ordered triple of depth-2 patterns, every path of exactly 3 bytes
#[no_mangle]
pub extern "C" fn h_route_triple() {
    let a = pattern(3 + choice(9));
    let b = pattern(3 + choice(9));
    let c = pattern(choice(12));
    assume(!same_shape(&a, &b));
    assume(!same_shape(&a, &c));
    assume(!same_shape(&b, &c));
    let p = path(3);
    run(&[&a, &b, &c], &p);
}
/// a deeper table, longer paths
#[no_mangle]
pub extern "C" fn h_route_path() {
    let t: [&[&str]; 4] = [
        &["/a/:x/c", "/a/b/d", "/a/b/c", "/:y/b/e"],
        &["/", "/:x/:y/:z", "/a/:w", "/a/b/:z"],
        &["/a/:x/c/d", "/a/:y/c", "/a/:z", "/a"],
        &["/ab/:x", "/:y/ab", "/ab/ab", "/a/b"],
    ];
    let r = t[choice(4)];
    let p = path(choice(8));
    run(r, &p);
}
/// two requests to one server, of two methods, in two groups: the second is
/// dispatched like the first
#[no_mangle]
pub extern "C" fn h_route_again() {
    let (get, post): (&[&str], &[&str]) = [
        (&["/g/:x/b", "/g/a/:y", "/g/b"][..], &["/g/a/b", "/g/:z/b", "/g/:w"][..]),
        (&["/:x/b", "/g/a", "/g/:y"], &["/g/:z", "/:w/a", "/:w/a/:z"]),
    ][choice(2)];
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    let (all, g) = (s.router(""), s.router("/g"));
    for i in 0..3 {
        match get[i].strip_prefix("/g") {
            Some(p) => g.get(p, H[i]),
            None => all.get(get[i], H[i]),
        }
        match post[i].strip_prefix("/g") {
            Some(p) => g.post(p, H[i]),
            None => all.post(post[i], H[i]),
        }
    }
    let n = deep(2, 3);
    let mut conns = vec![];
    let mut want = vec![];
    for i in 0..n {
        let m = choice(2);
        let p: &[u8] = [&b"/g/??"[..], b"/?/b", b"/g/?/b", b"/g"][choice(if i == 0 { 4 } else { 3 })];
        let mut p = p.to_vec();
        for b in p.iter_mut() {
            if *b == b'?' {
                *b = bytes_in(1, &[(b'a', b'c'), (b'/', b'/'), (b'g', b'g'), (b'A', b'B')])[0];
            }
        }
        let mut req = [&b"GET "[..], b"POST "][m].to_vec();
        req.extend_from_slice(&p);
        req.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
        conns.push(conn(vec![req], 0));
        want.push((m, p));
    }
    let out = serve(s, conns);
    for i in 0..n {
        let (code, body) = answer(&out[i].out);
        observe_out(&out[i].out);
        let t = [get, post][want[i].0];
        match reference(t, &want[i].1) {
            None => {
                check(code == 404, "no route matches: 404");
                reach("404");
            }
            Some(k) => {
                check(code == 200, "a route matches: its handler answers");
                check(same(&body, &expect(t, k, &want[i].1)), "the right handler runs with its own parameters");
                reach("200");
            }
        }
    }
}
const VERBS: [&[u8]; 12] = [b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS", b"TRACE", b"CONNECT", b"PATCH", b"LINK", b"UNLINK", b"PRI"];
fn register(s: &HttpServer, m: usize, p: &str, h: fn(&mut Context)) {
    let r = s.router("");
    match m {
        0 => r.get(p, h),
        1 => r.post(p, h),
        2 => r.put(p, h),
        3 => r.delete(p, h),
        4 => r.head(p, h),
        5 => r.option(p, h),
        6 => r.trace(p, h),
        7 => r.connect(p, h),
        8 => r.patch(p, h),
        9 => r.link(p, h),
        10 => r.unlink(p, h),
        _ => r.pri(p, h),
    }
}
/// two routes of any two methods, asked with any method: those of other methods do not count
#[no_mangle]
pub extern "C" fn h_route_method() {
    let (a, b, m) = (choice(12), choice(12), choice(12));
    let routes = ["/a/:x", "/a/b"];
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    register(&s, a, routes[0], H[0]);
    register(&s, b, routes[1], H[1]);
    let mut p = b"/a/b".to_vec();
    if choice(2) == 1 {
        p[3] = bytes_in(1, &[(b'a', b'z'), (b'/', b'/')])[0];
    }
    let mut req = VERBS[m].to_vec();
    req.push(b' ');
    req.extend_from_slice(&p);
    req.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    let out = serve(s, vec![conn(vec![req], 0)]);
    let (code, body) = answer(&out[0].out);
    observe_out(&out[0].out);
    let of: Vec<usize> = (0..2).filter(|i| [a, b][*i] == m).collect();
    let mine: Vec<&str> = of.iter().map(|i| routes[*i]).collect();
    match reference(&mine, &p) {
        None => {
            check(code == 404, "no route of the method: 404");
            reach("404");
        }
        Some(k) => {
            check(code == 200, "a route of the method: its handler answers");
            let mut want = expect(&mine, k, &p);
            want[1] = b'0' + of[k] as u8;
            check(same(&body, &want), "the handler of the method runs with its own parameters");
            reach("200");
        }
    }
}
