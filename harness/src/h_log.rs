// C27: the log settings an application makes are the ones in force
use crate::net::*;
use crate::se::*;
use log::{Level, LevelFilter};
use log4rs::record::{current, Sink};
use starry::utils::log::LogModule;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_log_route", h_log_route));
    v.push(("h_log_files", h_log_files));
    v.push(("h_log_again", h_log_again));
    v.push(("h_log_server", h_log_server));
}
fn st(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
// any of the six levels, undecided until it is looked at
fn filter() -> LevelFilter {
    let x = u8_();
    assume(x <= 5);
    unsafe { std::mem::transmute(x as usize) }
}
fn level() -> Level {
    let x = u8_();
    assume((x >= 1) & (x <= 5));
    unsafe { std::mem::transmute(x as usize) }
}
fn flag() -> bool {
    u8_() & 1 == 1
}
fn module(name: &str, pkg: &str, level: LevelFilter, additive: bool) -> LogModule {
    LogModule { name: name.to_string(), pkg: pkg.to_string(), level, additive, dir: "d".to_string(), file_max_size: 1, file_max_count: 1 }
}
fn above(name: &str, target: &str) -> bool {
    let n: Vec<&str> = name.split("::").collect();
    let t: Vec<&str> = target.split("::").collect();
    t.len() >= n.len() && t[..n.len()] == n[..]
}
// the files a message goes to, in order of their names
fn files(target: &str, level: Level) -> Vec<String> {
    let c = match current() {
        Some(c) => c,
        None => return vec![],
    };
    let mut r: Vec<String> = c
        .sinks(target, level)
        .into_iter()
        .filter_map(|s| match s {
            Sink::File(f) => Some(f.path),
            Sink::Nothing => Some("nowhere".to_string()),
            _ => None,
        })
        .collect();
    r.sort();
    r
}
/// which files a message reaches, by the packages, levels and sharing of up to two modules
#[no_mangle]
pub extern "C" fn h_log_route() {
    let pkgs = ["a", "a::b", "ab", "a::b::c"];
    let main = module("m", "", filter(), flag());
    let n = choice(4);
    let mut mods = vec![];
    for i in 0..n {
        let p = pkgs[choice(4)];
        assume(mods.iter().all(|m: &LogModule| m.pkg != p));
        mods.push(module(["x", "y", "z"][i], p, filter(), flag()));
    }
    main.config_log(mods.clone());
    let targets = ["a", "a::b", "a::bc", "ab", "b", "a::b::c::d", "abc", "b::a"];
    let t = targets[choice(8)];
    let l = level();
    let mut want = vec![];
    let mut on: Vec<&LogModule> = mods.iter().filter(|m| above(&m.pkg, t)).collect();
    on.sort_by(|a, b| b.pkg.len().cmp(&a.pkg.len()));
    let enough = match on.first() {
        Some(m) => l <= m.level,
        None => l <= main.level,
    };
    if enough {
        let mut also = true;
        for m in on {
            want.push(format!("d/{}.log", m.name));
            also = m.additive;
            if !also {
                break;
            }
        }
        if also {
            want.push("d/m.log".to_string());
        }
        want.sort();
        reach("written");
    } else {
        reach("dropped");
    }
    check(files(t, l) == want, "a message reaches exactly the files configured for it");
    reach("end");
}
fn limit_ok(limit: u64, size: u64) -> bool {
    if size <= u64::MAX >> 20 {
        limit == size << 20
    } else {
        limit >= 1 << 63
    }
}
fn file_of(name: &str) -> Option<log4rs::record::File> {
    current().and_then(|c| {
        c.appenders.into_iter().find_map(|a| match a.sink {
            Sink::File(f) if f.path == name => Some(f),
            _ => None,
        })
    })
}
/// where the files lie, how large they grow and how many old ones are kept
#[no_mangle]
pub extern "C" fn h_log_files() {
    let letters: &[(u8, u8)] = &[(b'a', b'z')];
    let mut main = module(&st(&bytes_in(1 + choice(2), letters)), "", LevelFilter::Info, flag());
    let mut sub = module(&st(&bytes_in(1 + choice(2), letters)), "p", LevelFilter::Debug, flag());
    assume(main.name != sub.name);
    main.dir = st(&bytes_in(1 + choice(2), &[(b'.', b'/'), (b'a', b'z')]));
    sub.dir = st(&bytes_in(choice(3), &[(b'.', b'/'), (b'a', b'z')]));
    main.file_max_size = u64_();
    main.file_max_count = u32_();
    sub.file_max_size = u64_();
    sub.file_max_count = u32_();
    let with = choice(2) == 1;
    main.config_log(if with { vec![sub.clone()] } else { vec![] });
    let path = format!("{}/{}.log", main.dir, main.name);
    let f = file_of(&path);
    check(f.is_some(), "the main log file is in its directory");
    let f = f.unwrap();
    check(f.append, "an existing log is continued");
    check(limit_ok(f.limit, main.file_max_size), "the main log file grows as large as configured");
    check(f.count == main.file_max_count, "as many old main log files are kept as configured");
    check(f.pattern.starts_with(&format!("{}/{}", main.dir, main.name)) && f.pattern.contains("{}"), "old main log files lie beside it");
    if with {
        let dir = if sub.dir.is_empty() { &main.dir } else { &sub.dir };
        let g = file_of(&format!("{}/{}.log", dir, sub.name));
        check(g.is_some(), "the log file of a module is in its directory, or else in the main one");
        let g = g.unwrap();
        check(g.append, "an existing log of a module is continued");
        let size = if sub.file_max_size == 0 { main.file_max_size } else { sub.file_max_size };
        let count = if sub.file_max_count == 0 { main.file_max_count } else { sub.file_max_count };
        check(limit_ok(g.limit, size), "the log file of a module grows as large as configured");
        check(g.count == count, "as many old log files of a module are kept as configured");
        check(g.pattern.starts_with(&format!("{}/{}", dir, sub.name)) && g.pattern.contains("{}"), "old log files of a module lie beside it");
        check(g.pattern != f.pattern, "old log files of different modules are kept apart");
        reach("module");
    }
    reach("end");
}
/// settings made again, one of them impossible
#[no_mangle]
pub extern "C" fn h_log_again() {
    se_panic_mode(1);
    let first = module("m", "", filter(), true);
    first.config_log(vec![module("x", "a", filter(), flag())]);
    let bad = choice(5);
    if bad > 0 {
        let r = std::panic::catch_unwind(|| {
            let mods = match bad {
                1 => vec![module("x", "a", LevelFilter::Error, true), module("x", "b", LevelFilter::Error, true)],
                2 => vec![module("x", "a", LevelFilter::Error, true), module("y", "a", LevelFilter::Error, true)],
                3 => vec![module("x", "a:b", LevelFilter::Error, true)],
                _ => vec![module("x", "", LevelFilter::Error, true)],
            };
            module("n", "", LevelFilter::Error, true).config_log(mods);
        });
        if r.is_err() {
            reach("refused");
            let l = level();
            check(files("b", l) == if l <= first.level { vec!["d/m.log".to_string()] } else { vec![] }, "settings that are refused change nothing");
        }
    }
    let second = module("k", "", filter(), true);
    let y = module("y", "b", filter(), false);
    second.config_log(vec![y.clone()]);
    let l = level();
    check(files("a", l) == if l <= second.level { vec!["d/k.log".to_string()] } else { vec![] }, "later settings replace earlier ones");
    check(files("b", l) == if l <= y.level { vec!["d/y.log".to_string()] } else { vec![] }, "later settings replace earlier ones, for a module too");
    reach("end");
}
fn hello(c: &mut Context) {
    c.resp_body(b"hi".to_vec());
    c.response();
}
/// the settings of a server
#[no_mangle]
pub extern "C" fn h_log_server() {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.router("/a").get("/b", hello);
    let dir = st(&bytes_in(1 + choice(3), &[(b'a', b'z')]));
    let (l, size, count) = (filter(), u64_(), u32_());
    if choice(2) == 1 {
        s.set_log(filter(), "z".to_string(), u64_(), u32_());
    }
    s.set_log(l, dir.clone(), size, count);
    let r = serve(s, vec![conn(vec![b"GET /a/b HTTP/1.1\r\nHost: x\r\n\r\n".to_vec()], 0)]);
    check(answer(&r[0].out).0 == 200, "answered");
    let m = level();
    let mine = files("starry::server", m);
    if m <= l {
        check(mine.len() == 1, "a message of the level set goes to one file");
        let f = file_of(&mine[0]);
        check(f.is_some(), "a message of the level set goes to a file");
        let f = f.unwrap();
        check(f.path.starts_with(&format!("{}/", dir)) && f.pattern.starts_with(&format!("{}/", dir)), "the log of a server lies in the directory set");
        check(limit_ok(f.limit, size), "the log of a server grows as large as set");
        check(f.count == count, "as many old logs of a server are kept as set");
        reach("written");
    } else {
        check(mine.is_empty(), "a message below the level set is not written");
        reach("dropped");
    }
    reach("end");
}
