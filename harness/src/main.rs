mod se;
mod h_util;
mod h_req;
mod h_rob;
mod h_in;
mod h_route;
mod h_server;
mod h_resp;
mod h_client;
mod h_val;
mod h_time;
mod h_conn;
mod h_pool;
mod h_limit;
mod h_filter;
mod h_scale;
mod h_iso;
mod h_log;
mod net;

fn entries() -> Vec<(&'static str, extern "C" fn())> {
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    h_util::list(&mut v);
    h_req::list(&mut v);
    h_rob::list(&mut v);
    h_in::list(&mut v);
    h_route::list(&mut v);
    h_server::list(&mut v);
    h_resp::list(&mut v);
    h_client::list(&mut v);
    h_val::list(&mut v);
    h_time::list(&mut v);
    h_conn::list(&mut v);
    h_pool::list(&mut v);
    h_limit::list(&mut v);
    h_filter::list(&mut v);
    h_scale::list(&mut v);
    h_iso::list(&mut v);
    h_log::list(&mut v);
    v
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in entries() {
            println!("{}", n);
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("PANIC {}", l);
    }));
    let f = match entries().into_iter().find(|e| e.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("no such entry");
            std::process::exit(9);
        }
    };
    // the code under test may create or delete files below its working
    // directory: give it one of its own
    let d = std::env::temp_dir().join(format!("starry-verif-{}", std::process::id()));
    std::fs::create_dir_all(d.join("wonder_log_test_rm")).unwrap();
    std::env::set_current_dir(&d).unwrap();
    *se::SCRATCH.lock().unwrap() = Some(d);
    *se::INPUT.lock().unwrap() = unhex(&a[2]);
    match std::panic::catch_unwind(move || f()) {
        Ok(()) => se::finish(0, "ok"),
        Err(_) => se::finish(1, "panic"),
    }
}
