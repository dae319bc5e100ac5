use crate::net::*;
use crate::se::*;
use starry::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_srv0", h_srv0));
}
fn hello(c: &mut Context) {
    reach("handler");
    c.resp_body(b"hi".to_vec());
    c.response();
}

#[no_mangle]
pub extern "C" fn h_srv0() {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.router("/a").get("/b", hello);
    let mut req = b"GET /a/b HTTP/1.1\r\nHost: x\r\n\r\n".to_vec();
    let k = u8_();
    req[7] = k;
    let r = serve(s, vec![conn(vec![req], 0)]);
    observe_out(&r[0].out);
    check(r[0].out.len() > 12, "answered");
    let ok = same(&r[0].out[9..12], b"200");
    check(ok == (k == b'b'), "200 iff /a/b");
    reach("end");
}
