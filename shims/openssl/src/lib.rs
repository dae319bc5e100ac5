//! Pure-Rust model of the two `openssl::base64` entry points starry uses
//! (`EVP_EncodeBlock` / `EVP_DecodeBlock` and the wrapper of the `openssl`
//! crate).  It stands in for the C library, which the symbolic executor cannot
//! see; it was compared with the real crate (see DESIGN.md).
pub mod error {
    #[derive(Debug, Clone)]
    pub struct ErrorStack(pub &'static str);
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for ErrorStack {}
}
pub mod base64 {
    use crate::error::ErrorStack;

    fn enc(v: u8) -> u8 {
        // branch free on purpose: keeps symbolic paths few
        const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        T[(v & 63) as usize]
    }

    const ERR: u8 = 0xff;
    const WS: u8 = 0xe0;
    const EOLN: u8 = 0xf0;
    const CR: u8 = 0xf1;
    const EOF: u8 = 0xf2;
    static DEC: [u8; 256] = table();
    const fn table() -> [u8; 256] {
        let mut t = [ERR; 256];
        let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut i = 0;
        while i < 64 {
            t[a[i] as usize] = i as u8;
            i += 1;
        }
        t[b'\t' as usize] = WS;
        t[b' ' as usize] = WS;
        t[b'\n' as usize] = EOLN;
        t[b'\r' as usize] = CR;
        t[b'-' as usize] = EOF;
        t[b'=' as usize] = 0;
        t
    }
    fn not_base64(v: u8) -> bool {
        // B64_NOT_BASE64(a) (((a)|0x13) == 0xf3)
        (v | 0x13) == 0xf3
    }

    pub fn encode_block(src: &[u8]) -> String {
        let mut out = Vec::with_capacity((src.len() + 2) / 3 * 4);
        let mut i = 0;
        while i < src.len() {
            let rem = src.len() - i;
            let b0 = src[i];
            let b1 = if rem > 1 { src[i + 1] } else { 0 };
            let b2 = if rem > 2 { src[i + 2] } else { 0 };
            out.push(enc(b0 >> 2));
            out.push(enc((b0 << 4) | (b1 >> 4)));
            out.push(if rem > 1 { enc((b1 << 2) | (b2 >> 6)) } else { b'=' });
            out.push(if rem > 2 { enc(b2) } else { b'=' });
            i += 3;
        }
        unsafe { String::from_utf8_unchecked(out) }
    }

    pub fn decode_block(src: &str) -> Result<Vec<u8>, ErrorStack> {
        let src = src.trim();
        if src.is_empty() {
            return Ok(Vec::new());
        }
        let mut f = src.as_bytes();
        // EVP_DecodeBlock: trim leading white space, trailing newlines etc.
        while !f.is_empty() && DEC[f[0] as usize] == WS {
            f = &f[1..];
        }
        while f.len() > 3 && not_base64(DEC[f[f.len() - 1] as usize]) {
            f = &f[..f.len() - 1];
        }
        if f.len() % 4 != 0 {
            return Err(ErrorStack("bad base64 length"));
        }
        let mut out = Vec::with_capacity(f.len() / 4 * 3);
        let mut i = 0;
        while i < f.len() {
            let a = DEC[f[i] as usize];
            let b = DEC[f[i + 1] as usize];
            let c = DEC[f[i + 2] as usize];
            let d = DEC[f[i + 3] as usize];
            if ((a | b | c | d) & 0x80) != 0 {
                return Err(ErrorStack("bad base64"));
            }
            let l = ((a as u32) << 18) | ((b as u32) << 12) | ((c as u32) << 6) | d as u32;
            out.push((l >> 16) as u8);
            out.push((l >> 8) as u8);
            out.push(l as u8);
            i += 4;
        }
        // the wrapper drops one byte per trailing '='
        if src.ends_with('=') {
            out.pop();
            if src.ends_with("==") {
                out.pop();
            }
        }
        Ok(out)
    }
}
