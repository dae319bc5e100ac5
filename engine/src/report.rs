//! Coverage from debug locations and JSON output.
use crate::expr::FxMap;
use crate::interp::*;
use crate::ir::*;
use crate::Total;
use std::collections::{BTreeMap, BTreeSet};

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn missing() -> String {
    "{\"missing\":true}".into()
}

fn field<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let mut from = 0;
    loop {
        let i = s[from..].find(name)? + from;
        let before = s.as_bytes()[i - 1];
        if (before == b' ' || before == b'(') && s[i + name.len()..].starts_with(':') {
            let r = s[i + name.len() + 1..].trim_start();
            if let Some(r) = r.strip_prefix('"') {
                return Some(&r[..r.find('"')?]);
            }
            let e = r.find(|c| c == ',' || c == ')')?;
            return Some(&r[..e]);
        }
        from = i + name.len();
    }
}
fn mref(s: Option<&str>) -> Option<u32> {
    s?.strip_prefix('!')?.parse().ok()
}

struct Dbg<'a> {
    m: &'a Module,
    scopes: FxMap<u32, Option<(String, String)>>, // scope -> (file, function)
}
impl<'a> Dbg<'a> {
    fn line(&self, id: u32) -> Option<&'a str> {
        let (a, b) = *self.m.meta.get(&id)?;
        Some(&self.m.text[a..b])
    }
    fn scope(&mut self, id: u32) -> Option<(String, String)> {
        if let Some(r) = self.scopes.get(&id) {
            return r.clone();
        }
        let r = (|| {
            let l = self.line(id)?;
            if l.contains("!DISubprogram(") {
                let f = mref(field(l, "file"))?;
                let fl = self.line(f)?;
                let file = field(fl, "filename")?;
                let dir = field(fl, "directory").unwrap_or("");
                let file = if file.starts_with('/') { file.to_string() } else { format!("{}/{}", dir, file) };
                Some((file, field(l, "name")?.to_string()))
            } else {
                let s = mref(field(l, "scope"))?;
                self.scope(s)
            }
        })();
        self.scopes.insert(id, r.clone());
        r
    }
}

pub fn json(sh: &Shared, t: &Total, root: &str) -> String {
    let mut d = Dbg { m: &sh.m, scopes: Default::default() };
    let mut files: BTreeMap<String, (BTreeSet<String>, BTreeSet<u32>)> = BTreeMap::new();
    let mut nfun = 0;
    let mut nblk = 0;
    let mut seen: FxMap<u32, ()> = Default::default();
    for (fi, c) in t.cov.iter().enumerate() {
        if c.is_empty() {
            continue;
        }
        nfun += 1;
        let f = match sh.func(fi) {
            Ok(f) => f,
            Err(_) => continue,
        };
        for (b, hit) in c.iter().enumerate() {
            if *hit == 0 {
                continue;
            }
            nblk += 1;
            let s = f.bstart[b] as usize;
            let e = f.bstart.get(b + 1).map_or(f.ins.len(), |x| *x as usize);
            for pc in s..e {
                let mut id = f.dbg[pc];
                let mut depth = 0;
                while id != 0 && depth < 40 && !seen.contains_key(&id) {
                    seen.insert(id, ());
                    depth += 1;
                    let l = match d.line(id) {
                        Some(l) => l,
                        None => break,
                    };
                    if let (Some(sc), Some(ln)) = (mref(field(l, "scope")), field(l, "line").and_then(|x| x.parse::<u32>().ok())) {
                        if let Some((file, name)) = d.scope(sc) {
                            if file.starts_with(root) && file[root.len()..].starts_with("/src") {
                                let e = files.entry(file[root.len() + 1..].to_string()).or_default();
                                e.0.insert(name);
                                if ln > 0 {
                                    e.1.insert(ln);
                                }
                            }
                        }
                    }
                    id = mref(field(l, "inlinedAt").or(None)).unwrap_or(0);
                }
            }
        }
    }
    let fl: Vec<String> = files
        .iter()
        .map(|(f, (n, l))| format!("{}:{{\"functions\":[{}],\"lines\":{}}}", q(f), n.iter().map(|x| q(x)).collect::<Vec<_>>().join(","), l.len()))
        .collect();
    let viol: Vec<String> = t
        .viol
        .iter()
        .map(|((kd, m), (n, vs))| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"count\":{},\"inputs\":[{}],\"trace\":[{}]}}",
                q(kd),
                q(m),
                n,
                vs.iter().map(|v| q(&hex(&v.input))).collect::<Vec<_>>().join(","),
                vs[0].trace.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let inc: Vec<String> = t.inconclusive.iter().map(|(a, n)| format!("{}:{}", q(a), n)).collect();
    let samples: Vec<String> = t.samples.iter().map(|(i, o)| format!("{{\"input\":{},\"obs\":\"{:016x}\"}}", q(&hex(i)), o)).collect();
    let reached: Vec<String> = t.reached.iter().map(|x| q(x)).collect();
    let s = &t.st;
    format!(
        "{{\"exhausted\":{},\"wall_s\":{:.3},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"feasible_flips\":{},\"steps\":{},\"max_path_steps\":{},\"max_decisions\":{},\"symbolic_bytes\":{},\"assert_symbolic\":{},\"assert_concrete\":{},\"preemptions\":{},\"sched_choices\":{},\"queries\":{},\"z3_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_ms\":{:.1},\"ir_functions\":{},\"ir_blocks\":{},\"reached\":[{}],\"violations\":[{}],\"inconclusive\":{{{}}},\"inc_inputs\":[{}],\"samples\":[{}],\"files\":{{{}}}}}",
        t.exhausted, t.wall, s.paths, s.infeasible, s.decisions, s.flips, s.steps, s.max_path_steps, s.max_decisions, s.max_vars, s.assert_sym, s.assert_conc, s.preempts, s.sched_choices,
        t.sol.queries, t.sol.z3_calls, t.sol.sat, t.sol.unsat, t.sol.unknown, t.sol.solver_ns as f64 / 1e9, t.sol.max_ns as f64 / 1e6, nfun, nblk,
        reached.join(","), viol.join(","), inc.join(","), t.inc_inputs.iter().take(32).map(|v| q(&hex(v))).collect::<Vec<_>>().join(","), samples.join(","), fl.join(",")
    )
}
