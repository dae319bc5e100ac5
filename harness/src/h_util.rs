//! hex / base64 and other pure utilities
use crate::se::*;
use starry::utils::cryptos::base64::*;
use starry::utils::cryptos::hex::*;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_hex_roundtrip", h_hex_roundtrip));
    v.push(("h_b64_roundtrip", h_b64_roundtrip));
    v.push(("h_hex_any", h_hex_any));
    v.push(("h_b64_any", h_b64_any));
    v.push(("h_b64_long", h_b64_long));
}

fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
fn hex(b: &[u8]) -> Vec<u8> {
    let d = |x: u8| b"0123456789abcdef"[x as usize & 15];
    let mut r = vec![];
    for x in b {
        r.push(d(x >> 4));
        r.push(d(x & 15));
    }
    r
}
#[no_mangle]
pub extern "C" fn h_hex_roundtrip() {
    let n = choice(deep(5, 7));
    let b = bytes(n);
    let s = match choice(2) {
        0 => Hex::encode(b.clone()),
        _ => Hex::encode(b.as_slice()),
    };
    observe(s.as_bytes());
    check(same(s.as_bytes(), &hex(&b)), "two hexadecimal digits per byte");
    match if choice(2) == 0 { Hex::decode(s.clone()) } else { Hex::decode(s.as_str()) } {
        Ok(d) => check(same(&d, &b), "hex decode of encode"),
        Err(_) => fail("hex decode failed"),
    }
    reach("end");
}
/// decoding any text: the bytes it stands for, or an error
#[no_mangle]
pub extern "C" fn h_hex_any() {
    let n = choice(deep(6, 8));
    let t = bytes_in(n, &[(0, 0x7f)]);
    let mut ok = n % 2 == 0;
    let mut want = vec![0u8; n / 2];
    for i in 0..n {
        let d = match t[i] {
            b'0'..=b'9' => t[i] - b'0',
            b'a'..=b'f' => t[i] - b'a' + 10,
            b'A'..=b'F' => t[i] - b'A' + 10,
            _ => {
                ok = false;
                0
            }
        };
        if i / 2 < want.len() {
            want[i / 2] = want[i / 2] << 4 | d;
        }
    }
    match Hex::decode(text(&t)) {
        Ok(d) => {
            check(ok, "only hexadecimal text is decoded");
            check(same(&d, &want), "the bytes hexadecimal text stands for");
            reach("good");
        }
        Err(_) => {
            check(!ok, "hexadecimal text is decoded");
            reach("bad");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_b64_roundtrip() {
    let n = choice(deep(7, 10));
    let b = bytes(n);
    let s = match choice(2) {
        0 => Base64::encode(b.clone()),
        _ => Base64::encode(b.as_slice()),
    };
    observe(s.as_bytes());
    check(same(s.as_bytes(), &crate::h_client::base64(&b)), "the standard base64 text");
    match if choice(2) == 0 { Base64::decode(s.clone()) } else { Base64::decode(s.as_str()) } {
        Ok(d) => check(same(&d, &b), "b64 decode of encode"),
        Err(_) => fail("b64 decode failed"),
    }
    reach("end");
}
/// decoding any text of letters, digits and padding in the middle
#[no_mangle]
pub extern "C" fn h_b64_any() {
    let n = choice(deep(6, 9));
    let t = bytes_in(n, &[(0x21, 0x7e)]);
    let mut pad = 0;
    while pad < n && pad < 3 && t[n - 1 - pad] == b'=' {
        pad += 1;
    }
    let alpha = |b: u8| (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') || b == b'+' || b == b'/';
    let ok = n % 4 == 0 && pad < 3 && t[..n - pad].iter().all(|b| alpha(*b));
    if t[..n - pad.min(2)].contains(&b'=') || (n > 0 && t[n - 1] == b'-') {
        // padding in the middle, end marks the codec skips: nothing is said about them
        let _ = Base64::decode(text(&t));
        return;
    }
    match Base64::decode(text(&t)) {
        Ok(d) => {
            check(ok, "only base64 text is decoded");
            check(d.len() == n / 4 * 3 - pad, "number of bytes base64 text stands for");
            // its digits again; the bits of an incomplete last byte are free
            let e = crate::h_client::base64(&d);
            check(e.len() == n, "length of the text");
            for i in 0..n {
                if i + 1 + pad != n || pad == 0 {
                    if i < e.len() {
                        check(e[i] == t[i], "the bytes base64 text stands for");
                    }
                }
            }
            reach("good");
        }
        Err(_) => {
            check(!ok, "base64 text is decoded");
            reach("bad");
        }
    }
}
/// longer contents, one byte of which is any
#[no_mangle]
pub extern "C" fn h_b64_long() {
    let n = [47, 48, 49, 64, 200][choice(5)];
    let mut b: Vec<u8> = (0..n).map(|i| (i * 7 % 256) as u8).collect();
    let at = choice(deep(8, 40)) * 5 % n;
    b[at] = u8_();
    let s = Base64::encode(b.as_slice());
    check(same(s.as_bytes(), &crate::h_client::base64(&b)), "the standard base64 text");
    let h = Hex::encode(b.as_slice());
    check(same(h.as_bytes(), &hex(&b)), "two hexadecimal digits per byte");
    match (Base64::decode(s), Hex::decode(h)) {
        (Ok(d), Ok(e)) => check(same(&d, &b) & same(&e, &b), "decode of encode"),
        _ => fail("decode failed"),
    }
    reach("end");
}
