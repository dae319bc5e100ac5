include!("common.rs");
fn h(c: &mut Context) {
    c.resp_body(c.req_field("x").unwrap_or_default().into_bytes());
    c.response();
}
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a/:x", h);
    let p = start(s);
    let r = talk(p, &[b"GET /a/q HTTP/1.1\r\nHost: h\r\n\r\n"], false);
    println!("{}", r);
    expect(body(&r) == "q", "x");
}
