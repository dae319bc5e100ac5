//! A scripted TCP network behind std::net: the harness binary defines the libc
//! socket calls, so the real server and client code run unmodified on top of
//! it, in the symbolic run and in the native replay alike.
use std::sync::Mutex;

pub const FD0: i32 = 1000;
const NFD: usize = 8192;

#[derive(Clone, Default)]
pub struct Conn {
    /// data arriving, one entry per segment
    pub segs: Vec<Vec<u8>>,
    /// what follows the segments: 0 end of stream, 1 silence, 2 connection reset
    pub tail: u8,
    /// largest amount one send() accepts (0: no limit)
    pub send_max: usize,
    /// a send() after this many bytes fails with EPIPE (0: never)
    pub send_fail_after: usize,
    seg: usize,
    pos: usize,
    pub out: Vec<u8>,
    pub accepted: bool,
    pub connected: bool,
    pub shut: bool,
    pub fds: usize,
    pub idle: bool,
    pub peer_port: u16,
    pub peer_ip: u32,
    /// only the first `open` segments have arrived so far
    pub gated: bool,
    pub open: usize,
    /// time that passes as soon as the server has read everything
    pub jump: u64,
    /// output written at the time each segment was first read
    pub marks: Vec<usize>,
    /// the peer speaks IPv6 from this address
    pub peer_v6: Option<[u8; 16]>,
    /// asking the socket for an address fails: 1 the peer's, 2 its own
    pub name_err: u8,
    /// the so manyeth duplication of the socket fails (0: none)
    pub dup_fail: usize,
}
pub struct Net {
    pub conns: Vec<Conn>,
    fdmap: [u8; NFD],
    nfd: usize,
    pub bound: bool,
    /// accept() first fails with these
    pub accept_errs: Vec<i32>,
}
pub static NET: Mutex<Net> = Mutex::new(Net { conns: Vec::new(), fdmap: [0xff; NFD], nfd: 0, bound: false, accept_errs: Vec::new() });
const LISTENER: u8 = 0xfe;

extern "C" {
    fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64;
    fn __errno_location() -> *mut i32;
    fn sched_yield() -> i32;
}
pub fn yield_() {
    unsafe {
        sched_yield();
    }
}
/// the wall clock, once scripted: milliseconds, moved by the harness alone
pub mod clock {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    static SCRIPTED: AtomicBool = AtomicBool::new(false);
    static NOW: AtomicU64 = AtomicU64::new(0);
    /// other threads run before, not after, the clock is read
    pub static YIELD_FIRST: AtomicBool = AtomicBool::new(false);
    static READS: AtomicU64 = AtomicU64::new(0);
    pub fn set(ms: u64) {
        NOW.store(ms, SeqCst);
        SCRIPTED.store(true, SeqCst);
    }
    pub fn now() -> u64 {
        NOW.load(SeqCst)
    }
    /// wait until the clock has been read some more times, or not for long
    pub fn read_again() -> bool {
        read_again_or(|| false)
    }
    /// or until there is nobody left to read it
    pub fn read_again_or(gone: impl Fn() -> bool) -> bool {
        let r = READS.load(SeqCst);
        for _ in crate::se::spins() {
            if READS.load(SeqCst) >= r + 12 || gone() {
                return true;
            }
            super::yield_();
        }
        false
    }
    /// give the other threads time to do what they can do now
    pub fn settle() {
        let r = READS.load(SeqCst);
        if crate::se::se_symbolic() != 0 {
            for _ in 0..60 {
                if READS.load(SeqCst) >= r + 12 {
                    break;
                }
                super::yield_();
            }
        } else {
            real_sleep(40_000_000);
        }
    }
    fn real_sleep(nanos: u64) {
        let t = [nanos / 1_000_000_000, nanos % 1_000_000_000];
        unsafe {
            super::syscall(35, t.as_ptr() as usize, 0, 0, 0, 0);
        }
    }
    /// where the clock is scripted, a sleeper looks at it again soon
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(_clock: i32, _flags: i32, t: *const u64, _rest: *mut u64) -> i32 {
        if crate::se::se_symbolic() != 0 {
            super::yield_();
            return 0;
        }
        let nanos = *t * 1_000_000_000 + *t.add(1);
        real_sleep(if SCRIPTED.load(SeqCst) { std::cmp::min(nanos, 100_000) } else { nanos });
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut u64) -> i32 {
        if id == 0 && SCRIPTED.load(SeqCst) {
            let early = YIELD_FIRST.load(SeqCst);
            if early {
                super::yield_();
            }
            let ms = NOW.load(SeqCst);
            *t = 1_700_000_000 + ms / 1000;
            *t.add(1) = ms % 1000 * 1_000_000;
            READS.fetch_add(1, SeqCst);
            if !early {
                super::yield_();
            }
            return 0;
        }
        super::syscall(228, id as usize, t as usize, 0, 0, 0) as i32
    }
}
fn errno(e: i32) -> isize {
    unsafe { *__errno_location() = e }
    -1
}
fn net() -> std::sync::MutexGuard<'static, Net> {
    match NET.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
impl Net {
    fn newfd(&mut self, c: u8) -> i32 {
        let f = self.nfd;
        if f >= NFD {
            return -1;
        }
        self.nfd += 1;
        self.fdmap[f] = c;
        if c != LISTENER && c != 0xff {
            self.conns[c as usize].fds += 1;
        }
        FD0 + f as i32
    }
    fn conn(&mut self, fd: i32) -> Option<&mut Conn> {
        let f = (fd - FD0) as usize;
        if f >= NFD {
            return None;
        }
        let c = self.fdmap[f] as usize;
        self.conns.get_mut(c)
    }
}
fn native(fd: i32) -> bool {
    fd < FD0 || fd >= FD0 + NFD as i32
}
#[no_mangle]
pub extern "C" fn socket(_d: i32, _t: i32, _p: i32) -> i32 {
    let mut n = net();
    n.newfd(0xff)
}
#[no_mangle]
pub extern "C" fn setsockopt(_f: i32, _l: i32, _o: i32, _v: usize, _n: u32) -> i32 {
    0
}
#[no_mangle]
pub extern "C" fn bind(f: i32, _a: usize, _n: u32) -> i32 {
    let mut n = net();
    n.fdmap[(f - FD0) as usize] = LISTENER;
    0
}
#[no_mangle]
pub extern "C" fn listen(_f: i32, _b: i32) -> i32 {
    net().bound = true;
    0
}
unsafe fn put_addr(a: *mut u8, l: *mut u32, ip: u32, port: u16) {
    if a.is_null() {
        return;
    }
    let b = std::slice::from_raw_parts_mut(a, 16);
    b.fill(0);
    b[0] = 2;
    b[2] = (port >> 8) as u8;
    b[3] = port as u8;
    b[4..8].copy_from_slice(&ip.to_be_bytes());
    *l = 16;
}
unsafe fn put_peer(a: *mut u8, l: *mut u32, c: &Conn) {
    match c.peer_v6 {
        None => put_addr(a, l, c.peer_ip, c.peer_port),
        Some(ip) if !a.is_null() => {
            let b = std::slice::from_raw_parts_mut(a, 28);
            b.fill(0);
            b[0] = 10;
            b[2] = (c.peer_port >> 8) as u8;
            b[3] = c.peer_port as u8;
            b[8..24].copy_from_slice(&ip);
            *l = 28;
        }
        _ => {}
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(_f: i32, a: *mut u8, l: *mut u32, _fl: i32) -> i32 {
    loop {
        {
            let mut n = net();
            if !n.accept_errs.is_empty() {
                let e = n.accept_errs.remove(0);
                return errno(e) as i32;
            }
            for i in 0..n.conns.len() {
                if !n.conns[i].accepted && !n.conns[i].connected {
                    n.conns[i].accepted = true;
                    put_peer(a, l, &n.conns[i]);
                    return n.newfd(i as u8);
                }
            }
        }
        yield_();
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(f: i32, a: *const u8, _l: u32) -> i32 {
    let mut n = net();
    for i in 0..n.conns.len() {
        if !n.conns[i].accepted && !n.conns[i].connected {
            let b = std::slice::from_raw_parts(a, 16);
            n.conns[i].connected = true;
            n.conns[i].peer_port = (b[2] as u16) << 8 | b[3] as u16;
            n.conns[i].peer_ip = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
            n.fdmap[(f - FD0) as usize] = i as u8;
            n.conns[i].fds += 1;
            return 0;
        }
    }
    errno(111) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(f: i32, a: *mut u8, l: *mut u32) -> i32 {
    let mut n = net();
    match n.conn(f) {
        Some(c) if c.name_err != 1 => {
            put_peer(a, l, c);
            0
        }
        _ => errno(107) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(f: i32, a: *mut u8, l: *mut u32) -> i32 {
    if let Some(c) = net().conn(f) {
        if c.name_err == 2 {
            return errno(105) as i32;
        }
    }
    put_addr(a, l, 0x7f000001, 7878);
    0
}
#[no_mangle]
pub unsafe extern "C" fn recv(f: i32, b: *mut u8, len: usize, _fl: i32) -> isize {
    loop {
        {
            let mut n = net();
            let c = match n.conn(f) {
                Some(c) => c,
                None => return errno(9),
            };
            if c.shut {
                return 0;
            }
            while c.seg < c.segs.len() && c.pos >= c.segs[c.seg].len() {
                c.seg += 1;
                c.pos = 0;
            }
            if c.seg < c.segs.len() && !(c.gated && c.seg >= c.open) {
                c.idle = false;
                if c.pos == 0 {
                    let o = c.out.len();
                    c.marks.push(o);
                }
                let s = &c.segs[c.seg];
                let k = std::cmp::min(len, s.len() - c.pos);
                std::ptr::copy_nonoverlapping(s.as_ptr().add(c.pos), b, k);
                c.pos += k;
                return k as isize;
            }
            if c.jump > 0 && c.gated && c.seg >= c.open {
                clock::set(clock::now() + c.jump);
                c.jump = 0;
            }
            match c.tail {
                _ if c.gated && c.seg < c.segs.len() => c.idle = true,
                0 => return 0,
                2 => return errno(104),
                _ => c.idle = true,
            }
        }
        yield_();
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(f: i32, b: *const u8, len: usize, _fl: i32) -> isize {
    let mut n = net();
    let c = match n.conn(f) {
        Some(c) => c,
        None => return errno(9),
    };
    if c.shut {
        return errno(32);
    }
    let mut k = len;
    if c.send_max > 0 && k > c.send_max {
        k = c.send_max;
    }
    if c.send_fail_after > 0 {
        if c.out.len() >= c.send_fail_after {
            return errno(32);
        }
        k = std::cmp::min(k, c.send_fail_after - c.out.len());
    }
    c.out.extend_from_slice(std::slice::from_raw_parts(b, k));
    k as isize
}
#[no_mangle]
pub extern "C" fn shutdown(f: i32, _how: i32) -> i32 {
    let mut n = net();
    match n.conn(f) {
        Some(c) => {
            c.shut = true;
            0
        }
        None => errno(9) as i32,
    }
}
#[no_mangle]
pub extern "C" fn close(f: i32) -> i32 {
    if native(f) {
        return unsafe { syscall(3, f as usize, 0, 0, 0, 0) as i32 };
    }
    let mut n = net();
    if let Some(c) = n.conn(f) {
        c.fds -= 1;
    }
    n.fdmap[(f - FD0) as usize] = 0xff;
    0
}
#[no_mangle]
pub extern "C" fn fcntl(f: i32, cmd: i32, arg: usize) -> i32 {
    if native(f) {
        return unsafe { syscall(72, f as usize, cmd as usize, arg, 0, 0) as i32 };
    }
    let mut n = net();
    let c = n.fdmap[(f - FD0) as usize];
    match cmd {
        0 | 1030 => {
            if let Some(k) = n.conns.get_mut(c as usize) {
                if k.dup_fail > 0 {
                    k.dup_fail -= 1;
                    if k.dup_fail == 0 {
                        return errno(24) as i32;
                    }
                }
            }
            n.newfd(c)
        }
        _ => 0,
    }
}

/// the connections have been handled: every duplicate of every socket is
/// closed, or the server waits for more data that never comes
pub fn settled() -> bool {
    let n = net();
    for c in n.conns.iter() {
        if !(c.accepted && (c.fds == 0 || c.idle)) {
            return false;
        }
    }
    true
}
pub fn conn(segs: Vec<Vec<u8>>, tail: u8) -> Conn {
    Conn { segs, tail, peer_ip: 0x0a000007, peer_port: 4321, ..Default::default() }
}
/// run the real server loop over scripted connections until they are settled
pub fn serve(server: starry::HttpServer, conns: Vec<Conn>) -> Vec<Conn> {
    net().conns = conns;
    std::thread::spawn(move || {
        let _ = server.listener("127.0.0.1:7878");
    });
    let mut spins = crate::se::spins_of(20000);
    while !settled() {
        yield_();
        if spins.next().is_none() {
            crate::se::fail("the server neither answers, closes nor waits");
        }
    }
    let n = net();
    n.conns.clone()
}

/// status code and body of one response (code 0: not a response)
pub fn answer(out: &[u8]) -> (u32, Vec<u8>) {
    if out.len() < 13 || !out.starts_with(b"HTTP/1.") || out[8] != b' ' {
        return (0, vec![]);
    }
    let mut code = 0u32;
    for i in 9..12 {
        code = code * 10 + (out[i].wrapping_sub(b'0')) as u32;
    }
    let mut body = vec![];
    for i in 12..out.len() {
        if i + 4 <= out.len() && &out[i..i + 4] == b"\r\n\r\n" {
            body = out[i + 4..].to_vec();
            break;
        }
    }
    (code, body)
}
/// what of a response does not depend on the order of header fields
pub fn observe_out(out: &[u8]) {
    let (_, body) = answer(out);
    let mut l = 0;
    while l < out.len() && out[l] != b'\r' {
        l += 1;
    }
    crate::se::observe(&out[..l]);
    crate::se::observe(&body);
    crate::se::observe(&(out.len() as u32).to_le_bytes());
}

/// a response taken apart strictly
#[derive(Default)]
pub struct Resp {
    pub minor: u8,
    pub code: u32,
    pub phrase: Vec<u8>,
    pub fields: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
}
impl Resp {
    /// all values of a field, whatever the case of its name
    pub fn all(&self, k: &[u8]) -> Vec<&Vec<u8>> {
        self.fields.iter().filter(|f| f.0.eq_ignore_ascii_case(k)).map(|f| &f.1).collect()
    }
    pub fn has(&self, k: &[u8], v: &[u8]) -> bool {
        let a = self.all(k);
        a.len() == 1 && crate::se::same(a[0], v)
    }
}
/// `HTTP/1.m SP ddd SP phrase CRLF *(name ":" SP value CRLF) CRLF body`
pub fn parse_resp(out: &[u8]) -> Option<Resp> {
    if out.len() < 17 || !out.starts_with(b"HTTP/1.") || out[8] != b' ' || out[12] != b' ' {
        return None;
    }
    let mut r = Resp { minor: out[7], ..Default::default() };
    for i in 9..12 {
        if !out[i].is_ascii_digit() {
            return None;
        }
        r.code = r.code * 10 + (out[i] - b'0') as u32;
    }
    let mut at = 13;
    let mut first = true;
    loop {
        let mut e = at;
        loop {
            if e + 1 >= out.len() || (out[e] != b'\r' && out[e] == b'\n') {
                return None;
            }
            if out[e] == b'\r' {
                if out[e + 1] != b'\n' {
                    return None;
                }
                break;
            }
            e += 1;
        }
        let l = &out[at..e];
        at = e + 2;
        if first {
            r.phrase = l.to_vec();
            first = false;
            continue;
        }
        if l.is_empty() {
            r.body = out[at..].to_vec();
            return Some(r);
        }
        let mut c = 0;
        while c < l.len() && l[c] != b':' {
            c += 1;
        }
        if c == 0 || c + 1 >= l.len() || l[c + 1] != b' ' {
            return None;
        }
        r.fields.push((l[..c].to_vec(), l[c + 2..].to_vec()));
    }
}

/// start the real server over scripted connections and let the harness drive them
pub fn start(server: starry::HttpServer, conns: Vec<Conn>) {
    net().conns = conns;
    std::thread::spawn(move || {
        let _ = server.listener("127.0.0.1:7878");
    });
}
/// let the next segments of a connection arrive and wait until the server has
/// closed the connection or waits for more
pub fn arrive(i: usize, segs: usize) {
    {
        let mut n = net();
        n.conns[i].open += segs;
        n.conns[i].idle = false;
    }
    quiet(i)
}
pub fn quiet(i: usize) {
    for _ in crate::se::spins() {
        {
            let n = net();
            let c = &n.conns[i];
            if c.accepted && (c.fds == 0 || c.shut || c.idle) {
                return;
            }
        }
        yield_();
    }
    crate::se::fail("the server neither answers, closes nor waits");
}
pub fn with<R>(i: usize, f: impl FnOnce(&mut Conn) -> R) -> R {
    let mut n = net();
    f(&mut n.conns[i])
}
