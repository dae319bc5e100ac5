// ---- plumbing: a server on loopback, raw byte conversations ----
#[allow(unused_imports)]
use starry::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;
fn start(s: HttpServer) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    drop(l);
    std::thread::spawn(move || s.listener(("127.0.0.1", port)));
    for _ in 0..200 {
        if TcpStream::connect(("127.0.0.1", port)).is_ok() {
            return port;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    panic!("server did not start")
}
/// send the segments with pauses, then optionally half-close; read to the end
fn talk(port: u16, segs: &[&[u8]], fin: bool) -> String {
    let mut t = TcpStream::connect(("127.0.0.1", port)).unwrap();
    t.set_nodelay(true).unwrap();
    t.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    for (i, s) in segs.iter().enumerate() {
        if i > 0 {
            std::thread::sleep(Duration::from_millis(150));
        }
        let _ = t.write_all(s);
    }
    if fin {
        let _ = t.shutdown(Shutdown::Write);
    }
    let mut o = vec![];
    let mut b = [0u8; 4096];
    loop {
        match t.read(&mut b) {
            Ok(0) | Err(_) => break,
            Ok(n) => o.extend_from_slice(&b[..n]),
        }
    }
    String::from_utf8_lossy(&o).to_string()
}
fn body(r: &str) -> &str {
    r.split("\r\n\r\n").nth(1).unwrap_or("")
}
fn code(r: &str) -> &str {
    r.get(9..12).unwrap_or("")
}
fn expect(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
