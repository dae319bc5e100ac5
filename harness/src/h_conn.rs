//! kept-alive connections: order and independence of answers, idle time
use crate::net::*;
use crate::se::*;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_conn_two", h_conn_two));
    v.push(("h_conn_keep", h_conn_keep));
    v.push(("h_conn_seq", h_conn_seq));
    v.push(("h_conn_after", h_conn_after));
    v.push(("h_idle", h_idle));
    v.push(("h_idle_busy", h_idle_busy));
    v.push(("h_idle_long", h_idle_long));
}
fn opt(b: &mut Vec<u8>, k: &str, v: Option<Vec<u8>>) {
    b.extend_from_slice(k.as_bytes());
    match v {
        Some(v) => {
            b.push(b'=');
            b.extend_from_slice(&v);
        }
        None => b.push(b'-'),
    }
    b.push(b';');
}
fn form<E>(r: Result<Option<String>, E>) -> Option<Vec<u8>> {
    match r {
        Ok(x) => x.map(|x| x.into_bytes()),
        Err(_) => Some(b"!".to_vec()),
    }
}
/// everything a handler can ask about a request
fn echo(c: &mut Context) {
    let mut b = vec![];
    opt(&mut b, "path", Some(c.req_path().into_bytes()));
    opt(&mut b, "p", c.req_field("p").map(|x| x.into_bytes()));
    opt(&mut b, "h", c.req_header_get("X-H").map(|x| x.into_bytes()));
    opt(&mut b, "q", c.req_param("q").map(|x| x.into_bytes()));
    opt(&mut b, "c", c.req_cookie_get("c").map(|x| x.to_string().into_bytes()));
    let f = form(c.req_form("f"));
    opt(&mut b, "f", f);
    opt(&mut b, "u", c.req_userinfo().map(|x| x.username().into_bytes()));
    b.push(b'0' + c.req_count_fields() as u8);
    b.push(b'0' + c.req_count_param() as u8);
    b.push(b'0' + c.req_cookies().len() as u8);
    c.resp_body(b);
    c.response();
}
/// answers without looking at the request
fn mute(c: &mut Context) {
    c.resp_body(b"mute".to_vec());
    c.response();
}
fn server() -> HttpServer {
    clock::set(0);
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.set_keepalive(60_000);
    let r = s.router("/r");
    r.get("/:p/e", echo);
    r.post("/:p/e", echo);
    r.get("/m", mute);
    r.post("/m", mute);
    s
}
/// one request out of optional parts, and what `echo` answers to it
#[derive(Clone, Default)]
struct Req {
    mute: bool,
    param: Vec<u8>,
    query: Option<Vec<u8>>,
    header: Option<Vec<u8>>,
    cookie: Option<Vec<u8>>,
    form: Option<Vec<u8>>,
    user: bool,
    keep: bool,
}
impl Req {
    fn text(&self) -> (Vec<u8>, Vec<u8>) {
        let mut t = if self.form.is_some() { b"POST /r/".to_vec() } else { b"GET /r/".to_vec() };
        if self.mute {
            t.push(b'm');
        } else {
            t.extend_from_slice(&self.param);
            t.extend_from_slice(b"/e");
        }
        if let Some(q) = &self.query {
            t.extend_from_slice(b"?q=");
            t.extend_from_slice(q);
        }
        t.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n");
        if let Some(h) = &self.header {
            t.extend_from_slice(b"X-H: ");
            t.extend_from_slice(h);
            t.extend_from_slice(b"\r\n");
        }
        if let Some(h) = &self.cookie {
            t.extend_from_slice(b"Cookie: c=");
            t.extend_from_slice(h);
            t.extend_from_slice(b"\r\n");
        }
        if self.user {
            t.extend_from_slice(b"Authorization: Basic dTpw\r\n");
        }
        if self.keep {
            t.extend_from_slice(b"Connection: keep-alive\r\n");
        }
        let mut body = vec![];
        if let Some(f) = &self.form {
            body.extend_from_slice(b"f=");
            body.extend_from_slice(f);
            t.extend_from_slice(b"Content-Type: application/x-www-form-urlencoded\r\nContent-Length: ");
            t.push(b'0' + body.len() as u8);
            t.extend_from_slice(b"\r\n");
        }
        t.extend_from_slice(b"\r\n");
        (t, body)
    }
    fn want(&self) -> Vec<u8> {
        if self.mute {
            return b"mute".to_vec();
        }
        let mut b = vec![];
        let mut p = b"/r/".to_vec();
        p.extend_from_slice(&self.param);
        p.extend_from_slice(b"/e");
        opt(&mut b, "path", Some(p));
        opt(&mut b, "p", Some(self.param.clone()));
        opt(&mut b, "h", self.header.clone());
        opt(&mut b, "q", self.query.clone());
        opt(&mut b, "c", self.cookie.as_ref().map(|x| [b"c=", &x[..]].concat()));
        opt(&mut b, "f", self.form.clone());
        opt(&mut b, "u", if self.user { Some(b"u".to_vec()) } else { None });
        b.push(b'1');
        b.push(b'0' + self.query.is_some() as u8);
        b.push(b'0' + self.cookie.is_some() as u8);
        b
    }
}
fn some(p: u8) -> Option<Vec<u8>> {
    if p != 0 {
        Some(bytes_in(1, &[(b'a', b'z'), (b'0', b'9')]))
    } else {
        None
    }
}
/// which parts the request has, with symbolic contents
fn any_req(parts: u8) -> Req {
    Req {
        mute: false,
        param: bytes_in(1, &[(b'a', b'z')]),
        query: some(parts & 1),
        header: some(parts & 2),
        cookie: some(parts & 4),
        form: some(parts & 8),
        user: parts & 16 != 0,
        keep: true,
    }
}
/// what was written since the last look
fn answers(i: usize, from: usize) -> Vec<u8> {
    with(i, |c| c.out[from..].to_vec())
}
fn answered(out: &[u8], want: &[u8]) {
    observe_out(out);
    match parse_resp(out) {
        Some(r) => {
            check(r.code == 200, "status of the answer");
            check(same(&r.body, want), "exactly one answer, of this request");
        }
        None => fail("one well-formed answer"),
    }
}
fn is_open(i: usize) -> bool {
    // the timer thread shares in closing
    quiet(i);
    with(i, |c| !c.shut && c.fds > 0)
}
/// closed, if not now then by the timer thread soon
fn closes(i: usize) -> bool {
    for _ in spins() {
        if with(i, |c| c.shut || c.fds == 0) {
            return true;
        }
        yield_();
    }
    false
}
/// a request is answered from itself alone, whatever came before it
#[no_mangle]
pub extern "C" fn h_conn_two() {
    let (a, b) = if deep(0, 1) == 0 {
        ([31u8, 15, 8, 7, 1, 2, 4, 16, 0][choice(9)], [0u8, 8, 31, 1, 2, 4, 16][choice(7)])
    } else {
        (choice(32) as u8, choice(32) as u8)
    };
    let (mut r1, r2) = (any_req(a), any_req(b));
    r1.mute = choice(2) == 1;
    let mut segs = vec![];
    let split = choice(2) == 1;
    let mut count = vec![];
    for r in [&r1, &r2].iter() {
        let (mut t, body) = r.text();
        if split && !body.is_empty() {
            segs.push(t);
            segs.push(body);
            count.push(2);
        } else {
            t.extend_from_slice(&body);
            segs.push(t);
            count.push(1);
        }
    }
    let mut c = conn(segs, 1);
    c.gated = true;
    start(server(), vec![c]);
    let mut at = 0;
    for (i, r) in [&r1, &r2].iter().enumerate() {
        arrive(0, count[i]);
        let out = answers(0, at);
        at += out.len();
        answered(&out, &r.want());
        check(is_open(0), "kept open");
    }
    reach("end");
}
/// the connection stays open exactly when the request asks for it
#[no_mangle]
pub extern "C" fn h_conn_keep() {
    let kind = choice(4);
    let v = match kind {
        // any short value
        0 => bytes_in(choice(deep(9, 14)), &[(b'!', b'~')]),
        // keep-alive with one character replaced, inserted or missing
        1 => {
            let mut v = b"keep-alive".to_vec();
            v[choice(10)] = bytes_in(1, &[(b'!', b'~')])[0];
            v
        }
        2 => {
            let mut v = b"keep-alive".to_vec();
            v.insert(choice(11), bytes_in(1, &[(b'!', b'~')])[0]);
            v
        }
        _ => [b"close".to_vec(), b"keep-alive".to_vec(), b"keep-aliv".to_vec(), b"eep-alive".to_vec(), b"Upgrade".to_vec(), b"keepalive".to_vec()][choice(6)].clone(),
    };
    let post = choice(2) == 1;
    let mut t = if post { b"POST /r/x/e HTTP/1.1\r\nHost: h\r\n".to_vec() } else { b"GET /r/x/e HTTP/1.1\r\nHost: h\r\n".to_vec() };
    if post {
        t.extend_from_slice(b"Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n");
    }
    let named = choice(3);
    if named > 0 {
        t.extend_from_slice(if named == 1 { b"Connection: " } else { b"connection: " });
        t.extend_from_slice(&v);
        t.extend_from_slice(b"\r\n");
    }
    t.extend_from_slice(b"\r\n");
    if post {
        t.extend_from_slice(b"f=1");
    }
    let keep = same(&v, b"keep-alive") & (named > 0);
    // other spellings of the wish are left open
    let loose = v.eq_ignore_ascii_case(b"keep-alive");
    assume(keep | !loose | (named == 0));
    let next = Req { param: vec![b'2'], keep: false, ..Default::default() };
    let mut c = conn(vec![t, next.text().0], 1);
    c.gated = true;
    start(server(), vec![c]);
    arrive(0, 1);
    let out = answers(0, 0);
    let first = Req { param: vec![b'x'], form: if post { Some(vec![b'1']) } else { None }, ..Default::default() };
    answered(&out, &first.want());
    if keep {
        check(is_open(0), "kept open");
        arrive(0, 1);
        answered(&answers(0, out.len()), &next.want());
        check(closes(0), "closed after the last answer");
        reach("kept");
    } else {
        check(closes(0), "closed");
        arrive(0, 1);
        check(answers(0, out.len()).is_empty(), "nothing after the last answer");
        reach("closed");
    }
    reach("end");
}
/// several requests of different kinds, each cut anywhere
#[no_mangle]
pub extern "C" fn h_conn_seq() {
    let n = deep(3, 4);
    let mut segs = vec![];
    let mut plan: Vec<(usize, Option<Req>)> = vec![];
    for i in 0..n {
        let p = vec![b'1' + i as u8];
        let (r, ok) = match choice(6) {
            0 => (Req { param: p, keep: true, ..Default::default() }, true),
            1 => (Req { param: p, keep: true, form: Some(bytes_in(1, &[(b'a', b'z')])), header: some(1), ..Default::default() }, true),
            2 => (Req { param: p, keep: true, query: some(1), cookie: some(1), ..Default::default() }, true),
            3 => (Req { mute: true, keep: true, form: some(1), ..Default::default() }, true),
            4 => (Req { param: p, keep: false, header: some(1), ..Default::default() }, true),
            // no such route
            _ => (Req { param: b"n/n".to_vec(), keep: true, ..Default::default() }, false),
        };
        let (mut t, b) = r.text();
        t.extend_from_slice(&b);
        // whole, or in two pieces
        let cut = if n == 3 || i == 1 || i == 2 { [0, 1, t.len() / 2, t.len() - 1, t.len() - b.len()][choice(5)] } else { 0 };
        if cut > 0 && cut < t.len() {
            segs.push(t[..cut].to_vec());
            segs.push(t[cut..].to_vec());
            plan.push((2, if ok { Some(r) } else { None }));
        } else {
            segs.push(t);
            plan.push((1, if ok { Some(r) } else { None }));
        }
    }
    let mut c = conn(segs, 1);
    c.gated = true;
    start(server(), vec![c]);
    let mut at = 0;
    let mut open = true;
    for (k, r) in plan.iter() {
        for j in 0..*k {
            if j > 0 {
                check(answers(0, at).is_empty(), "no answer before the request is complete");
            }
            arrive(0, 1);
        }
        let out = answers(0, at);
        at += out.len();
        if !open {
            check(out.is_empty(), "nothing after the last answer");
            continue;
        }
        match r {
            Some(r) => {
                answered(&out, &r.want());
                open = r.keep;
            }
            None => {
                observe_out(&out);
                check(parse_resp(&out).map_or(0, |r| r.code) == 404, "refused once");
                open = false;
            }
        }
        if open {
            check(is_open(0), "kept open");
        } else {
            check(closes(0), "closed");
            reach("closed");
        }
    }
    reach("end");
}
/// bytes that follow a request which does not ask for keep-alive are no request
#[no_mangle]
pub extern "C" fn h_conn_after() {
    let kept = choice(2) == 1;
    let form = choice(2) == 1;
    let r1 = Req { param: vec![b'1'], keep: true, ..Default::default() };
    let r2 = Req { param: vec![b'2'], keep: false, form: if form { some(1) } else { None }, ..Default::default() };
    let r3 = Req { param: vec![b'3'], keep: true, ..Default::default() };
    let (mut t, body) = r2.text();
    t.extend_from_slice(&body);
    let tail = match choice(2) {
        0 => r3.text().0,
        _ => bytes_in(deep(4, 8), &[(0, 127)]),
    };
    let mut segs = vec![];
    if kept {
        segs.push(r1.text().0);
    }
    if choice(2) == 0 {
        t.extend_from_slice(&tail);
        segs.push(t);
    } else {
        segs.push(t);
        segs.push(tail);
    }
    let n = segs.len() - kept as usize;
    let mut c = conn(segs, 1);
    c.gated = true;
    start(server(), vec![c]);
    let mut at = 0;
    if kept {
        arrive(0, 1);
        let out = answers(0, 0);
        at = out.len();
        answered(&out, &r1.want());
    }
    arrive(0, n);
    check(closes(0), "closed");
    arrive(0, 0);
    answered(&answers(0, at), &r2.want());
    reach("end");
}
/// the time of each event, and what the timer has done by then
#[no_mangle]
pub extern "C" fn h_idle() {
    idle(false, [100u64, 0, 1, 255][choice(4)], false)
}
/// the same with a handler that takes time
#[no_mangle]
pub extern "C" fn h_idle_busy() {
    idle(true, [100u64, 0, 1, 255][choice(deep(2, 4))], false)
}
/// idle times of up to an hour, passing at once or but for up to 255 ms; a handler that takes as long
#[no_mangle]
pub extern "C" fn h_idle_long() {
    let keep = [40_000u64, 100_000, 3_600_000, 32_767, 65_537, 5_000_000_000][choice(deep(3, 6))];
    let busy = choice(2) == 1;
    idle(busy, keep, true)
}
static TAKES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn slow(c: &mut Context) {
    let d = TAKES.load(std::sync::atomic::Ordering::SeqCst);
    if d > 0 {
        clock::set(clock::now() + d);
        clock::read_again();
    }
    c.resp_body(b"done".to_vec());
    c.response();
}
fn idle(busy: bool, keep: u64, far: bool) {
    let gap = || u8_() as u64 + if far && choice(2) == 1 { keep - 128 } else { 0 };
    let n = if far { deep(1, 2) } else if busy { deep(2, 3) } else { deep(3, 4) };
    let gone = || with(0, |c| c.shut || c.fds == 0);
    clock::set(0);
    clock::YIELD_FIRST.store(choice(2) == 1, std::sync::atomic::Ordering::SeqCst);
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.set_keepalive(keep as i64);
    s.router("/r").get("/s", slow);
    let req = b"GET /r/s HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n".to_vec();
    let mut c = conn(vec![req; n + 2], 1);
    c.gated = true;
    start(s, vec![c]);
    arrive(0, 1);
    let mut at = answers(0, 0).len();
    answered(&answers(0, 0), b"done");
    // the timer has started
    clock::read_again_or(gone);
    let mut due = clock::now() + keep;
    let mut open = true;
    for _ in 0..n {
        let event = if busy { 1 } else { choice(2) };
        clock::set(clock::now() + gap());
        if open {
            clock::read_again_or(gone);
        }
        if clock::now() >= due {
            check(closes(0), "closed once the idle time has passed");
            open = false;
            reach("late");
        } else {
            check(is_open(0), "open while the idle time has not passed");
        }
        if event == 1 || !open {
            if busy {
                TAKES.store(gap(), std::sync::atomic::Ordering::SeqCst);
            }
            // time may pass right after the answer, before the timer looks again
            let jump = if open && choice(2) == 1 { gap() } else { 0 };
            assume((jump == 0) | (jump < keep));
            with(0, |c| c.jump = jump);
            let done = clock::now();
            arrive(0, 1);
            let out = answers(0, at);
            at += out.len();
            if jump > 0 {
                answered(&out, b"done");
                let took = TAKES.load(std::sync::atomic::Ordering::SeqCst);
                check(clock::now() == done + took + jump, "time as scripted");
                clock::read_again_or(gone);
                check(is_open(0), "open while the idle time has not passed");
                reach("jump");
                break;
            }
            if !open {
                check(out.is_empty(), "nothing after closing");
                break;
            }
            answered(&out, b"done");
            due = clock::now() + keep;
            reach("answered");
            clock::read_again_or(gone);
            if keep > 0 {
                check(is_open(0), "open after an answer");
            }
        }
    }
    reach("end");
}
