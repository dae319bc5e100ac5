//! Textual preparation of the whole-program IR before optimisation:
//! harness primitives become declarations, the std hasher becomes constant
//! (a legal hasher: equal keys still hash equal), the panic message printer
//! becomes empty.
use std::io::Write;

enum Act {
    Decl,
    RetVoid,
    RetZero,
    RetNull,
}

fn action(name: &str) -> Option<Act> {
    if name.starts_with("se_") {
        return Some(Act::Decl);
    }
    if name.contains("13DefaultHasher") {
        if name.contains("6finish") {
            return Some(Act::RetZero);
        }
        if name.contains("5write") || name.contains("9write_str") || name.contains("8write_u8") {
            return Some(Act::RetVoid);
        }
    }
    if name.contains("9panicking12default_hook") && !name.contains("closure") && !name.contains("0B") {
        return Some(Act::RetVoid);
    }
    // file-system clean-up of the logger's start-up: outside the checked claims
    if name.contains("2fs14remove_dir_all") {
        return Some(Act::RetNull);
    }
    None
}

pub fn patch(inp: &str, out: &str) -> std::io::Result<()> {
    let text = std::fs::read_to_string(inp)?;
    let mut w = std::io::BufWriter::new(std::fs::File::create(out)?);
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if l.starts_with("define ") {
            let name = l.split('@').nth(1).map(|x| x.trim_start_matches('"')).unwrap_or("");
            let end = name.find(|c: char| c == '(' || c == '"').unwrap_or(name.len());
            let name = &name[..end];
            if let Some(a) = action(name) {
                loop {
                    if lines.next() == Some("}") {
                        break;
                    }
                }
                match a {
                    Act::Decl => {
                        // keep return type and parameter types only
                        let head = &l["define ".len()..];
                        let at = head.find('@').unwrap();
                        let rt = head[..at].split_whitespace().last().unwrap();
                        let rest = &head[at..];
                        let close = matching(rest);
                        let params = &rest[rest.find('(').unwrap() + 1..close];
                        let tys: Vec<&str> = params.split(',').filter_map(|p| p.split_whitespace().next()).collect();
                        writeln!(w, "declare {} @{}({})", rt, name, tys.join(", "))?;
                    }
                    Act::RetVoid | Act::RetZero | Act::RetNull => {
                        let body = match a {
                            Act::RetZero => "ret i64 0",
                            Act::RetNull => "ret ptr null",
                            _ => "ret void",
                        };
                        // drop the personality, keep the rest
                        let l2 = l.split(" personality ").next().unwrap().trim_end_matches('{').trim_end();
                        writeln!(w, "{} {{", l2)?;
                        writeln!(w, "  {}", body)?;
                        writeln!(w, "}}")?;
                    }
                }
                continue;
            }
        }
        w.write_all(l.as_bytes())?;
        w.write_all(b"\n")?;
    }
    Ok(())
}
fn matching(s: &str) -> usize {
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
    }
    s.len()
}
