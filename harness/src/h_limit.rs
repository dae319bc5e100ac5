//! rate limits
use crate::net::*;
use crate::se::*;
use starry::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_limit_one", h_limit_one));
    v.push(("h_limit_group", h_limit_group));
    v.push(("h_limit_burst", h_limit_burst));
    v.push(("h_limit_quiet", h_limit_quiet));
    v.push(("h_limit_long", h_limit_long));
}
/// when requests were let through
static TIMES: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn take(c: &mut Context) {
    TIMES.lock().unwrap().push(clock::now());
    c.resp_body(b"ok".to_vec());
    c.response();
}
/// when requests were let through to their filter
static FILTER: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn pass(_c: &mut Context) {
    FILTER.lock().unwrap().push(clock::now());
}

struct Setting {
    section: u64,
    count: usize,
    interval: u64,
}
/// requests arrive after symbolic gaps; some time after the last, all are let through
fn drive(s: HttpServer, set: &Setting, paths: &[&str], bits: u8) {
    drive_after(s, set, paths, bits, &[])
}
/// the same, with time passing unused before the requests named
fn drive_after(s: HttpServer, set: &Setting, paths: &[&str], bits: u8, quiet_before: &[usize]) {
    drive_by(s, set, paths, bits, quiet_before, std::cmp::max(set.section, set.interval) + 2)
}
/// the same, time passing in such steps in the end
fn drive_by(s: HttpServer, set: &Setting, paths: &[&str], bits: u8, quiet_before: &[usize], step: u64) {
    let n = paths.len();
    let mut conns = vec![];
    for p in paths {
        let mut t = b"GET ".to_vec();
        t.extend_from_slice(p.as_bytes());
        t.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
        let mut c = conn(vec![t], 0);
        c.gated = true;
        conns.push(c);
    }
    start(s, conns);
    for i in 0..n {
        if quiet_before.contains(&i) {
            let gap = (u8_() & 127) as u64;
            clock::set(clock::now() + gap);
            clock::settle();
        }
        let gap = (u8_() & bits) as u64;
        clock::set(clock::now() + gap);
        clock::settle();
        with(i, |c| c.open = 1);
        clock::settle();
    }
    reach("arrived");
    let tries = (n as u64 + 1) * ((std::cmp::max(set.section, set.interval) + 1) / step + 1);
    for _ in 0..tries {
        if TIMES.lock().unwrap().len() == n {
            break;
        }
        clock::set(clock::now() + step);
        clock::settle();
    }
    let t = TIMES.lock().unwrap().clone();
    check(t.len() == n, "every request is let through in the end");
    spaced(&t, set);
    spaced(&FILTER.lock().unwrap(), set);
    for i in 0..n {
        quiet(i);
        let out = with(i, |c| c.out.clone());
        check(parse_resp(&out).map_or(false, |r| r.code == 200 && r.body == b"ok"), "answered once");
    }
    reach("end");
}
fn spaced(t: &[u64], set: &Setting) {
    for i in 1..t.len() {
        check(t[i] - t[i - 1] >= set.interval, "minimum gap");
    }
    for i in set.count..t.len() {
        check(t[i] - t[i - set.count] >= set.section, "no more than the limit in a period");
    }
}
fn setting() -> Setting {
    let (section, count, interval) = [(50, 2, 0), (40, 2, 15), (30, 1, 0), (0, 1, 20), (60, 3, 10)][choice(deep(4, 5))];
    Setting { section, count, interval }
}
fn limit(s: &Setting) -> Limit {
    Limit::new(s.section as i64, s.count, s.interval as i64)
}
fn server() -> HttpServer {
    clock::set(0);
    clock::YIELD_FIRST.store(choice(2) == 1, SeqCst);
    let mut s = HttpServer::new();
    s.set_pool_size(deep(3, 4));
    s
}
#[no_mangle]
pub extern "C" fn h_limit_one() {
    let set = setting();
    let s = server();
    let r = s.router("/l");
    if choice(2) == 0 {
        r.get_wf("/a", take, Extend::e2(limit(&set)));
    } else {
        r.get_wf("/a", take, Extend::e3(vec![pass], limit(&set)));
    }
    drive(s, &set, &["/l/a"; 4][..deep(3, 4)], 127);
}
/// the limit of a group holds for all its routes together
#[no_mangle]
pub extern "C" fn h_limit_group() {
    let set = setting();
    let s = server();
    let r = s.router_wf("/l", Extend::e2(limit(&set)));
    r.get("/a", take);
    r.get_wf("/b", take, Extend::e1(vec![pass]));
    let p = ["/l/a", "/l/b"];
    let paths: Vec<&str> = (0..deep(3, 4)).map(|_| p[choice(2)]).collect();
    drive(s, &set, &paths, 127);
}
/// all requests arrive together
#[no_mangle]
pub extern "C" fn h_limit_burst() {
    let set = setting();
    let s = server();
    s.router("/l").get_wf("/a", take, Extend::e2(limit(&set)));
    drive(s, &set, &["/l/a"; 6][..deep(4, 6)], 1);
}
/// nobody comes for a while: unused time entitles nobody to more
#[no_mangle]
pub extern "C" fn h_limit_quiet() {
    let set = setting();
    let s = server();
    s.router("/l").get_wf("/a", take, Extend::e2(limit(&set)));
    let n = std::cmp::max(set.count + 1, deep(2, 3));
    let at = choice(deep(1, 2));
    drive_after(s, &set, &["/l/a"; 6][..n], [63, 127][choice(2)], &[at]);
}
/// long periods and gaps, gaps longer than the period, many requests in a period
#[no_mangle]
pub extern "C" fn h_limit_long() {
    let (section, count, interval) =
        [(100_000, 1, 0), (3_600_000, 2, 0), (1000, 1, 70_000), (40, 6, 7), (100_000_000, 2, 40_000)][choice(deep(4, 5))];
    let set = Setting { section, count, interval };
    let s = server();
    s.router("/l").get_wf("/a", take, Extend::e3(vec![pass], limit(&set)));
    let max = std::cmp::max(section, interval);
    let n = std::cmp::min(count + 1, 7);
    drive_by(s, &set, &["/l/a"; 8][..n], [1, 15][choice(2)], &[], [max + 2, max * 5 / 8][choice(2)]);
}
