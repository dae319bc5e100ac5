mod expr;
mod interp;
mod ir;
mod low;
mod patch;
mod report;
mod z3;

use interp::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Queue {
    items: Vec<Item>,
    active: usize,
    done: bool,
}

#[derive(Default)]
pub struct Total {
    pub st: Stats,
    pub sol: z3::SolverStats,
    pub viol: BTreeMap<(String, String), (u64, Vec<Violation>)>,
    pub reached: std::collections::BTreeSet<String>,
    pub inconclusive: BTreeMap<String, u64>,
    pub inc_inputs: Vec<Vec<u8>>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub cov: Vec<Vec<u8>>,
    pub wall: f64,
    pub exhausted: bool,
}

fn explore(sh: &Arc<Shared>, entry: usize, jobs: usize, opt: &Opt) -> Total {
    let q = Arc::new((Mutex::new(Queue { items: vec![Item { input: vec![], bound: 0, excl: vec![] }], active: 0, done: false }), Condvar::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let tot = Arc::new(Mutex::new(Total { cov: vec![vec![]; sh.m.funcs.len()], ..Default::default() }));
    let t0 = Instant::now();
    let paths = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let mut hs = vec![];
    for wid in 0..jobs {
        let (sh, q, stop, tot, opt, paths) = (sh.clone(), q.clone(), stop.clone(), tot.clone(), opt.clone(), paths.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut it = Interp::new(sh, stop.clone());
                    it.step_limit = opt.steps;
                    it.trace = opt.trace;
                    let mut rng: u64 = 0x9E3779B97F4A7C15u64.wrapping_mul(opt.seed + 1).wrapping_add(wid as u64 * 7919) | 1;
                    let mut samples: Vec<(Vec<u8>, u64)> = vec![];
                    let mut viol: BTreeMap<(String, String), (u64, Vec<Violation>)> = BTreeMap::new();
                    let mut npath = 0u64;
                    let mut interrupted = false;
                    loop {
                        let item = {
                            let mut g = q.0.lock().unwrap();
                            loop {
                                if g.done {
                                    break None;
                                }
                                if let Some(x) = g.items.pop() {
                                    g.active += 1;
                                    break Some(x);
                                }
                                if g.active == 0 {
                                    g.done = true;
                                    q.1.notify_all();
                                    break None;
                                }
                                g = q.1.wait(g).unwrap();
                            }
                        };
                        let item = match item {
                            Some(i) => i,
                            None => break,
                        };
                        let r = it.run(entry, item);
                        if r == Stop::Interrupted {
                            interrupted = true;
                        }
                        npath += 1;
                        for v in it.violations.drain(..) {
                            let e = viol.entry((v.kind.clone(), v.msg.clone())).or_insert((0, vec![]));
                            e.0 += 1;
                            if e.1.len() < 3 {
                                e.1.push(v);
                            }
                        }
                        if r == Stop::Done {
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            if samples.len() < opt.samples {
                                samples.push((it.input.clone(), it.obs));
                            } else if opt.samples > 0 && rng % npath < opt.samples as u64 {
                                let k = (rng >> 20) as usize % opt.samples;
                                samples[k] = (it.input.clone(), it.obs);
                            }
                        }
                        let kids: Vec<Item> = it.children.drain(..).collect();
                        {
                            let mut g = q.0.lock().unwrap();
                            let n = kids.len();
                            g.items.extend(kids);
                            g.active -= 1;
                            let p = paths.fetch_add(1, Ordering::Relaxed) + 1;
                            if p >= opt.max_paths || t0.elapsed() > opt.time {
                                if !(g.items.is_empty() && g.active == 0) {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                g.done = true;
                            }
                            if g.items.is_empty() && g.active == 0 {
                                g.done = true;
                            }
                            if g.done || n > 1 {
                                q.1.notify_all();
                            } else if n == 1 {
                                q.1.notify_one();
                            }
                        }
                        if it.ar.nodes.len() > 6_000_000 {
                            it.ar = expr::Arena::new();
                            it.sol.reset();
                            it.forget_shadow();
                        }
                    }
                    let mut t = tot.lock().unwrap();
                    if interrupted {
                        *t.inconclusive.entry("stopped before the path queue was empty".into()).or_insert(0) += 1;
                    }
                    let s = &it.st;
                    let d = &mut t.st;
                    d.paths += s.paths;
                    d.infeasible += s.infeasible;
                    d.steps += s.steps;
                    d.decisions += s.decisions;
                    d.flips += s.flips;
                    d.assert_sym += s.assert_sym;
                    d.assert_conc += s.assert_conc;
                    d.preempts += s.preempts;
                    d.sched_choices += s.sched_choices;
                    d.max_path_steps = d.max_path_steps.max(s.max_path_steps);
                    d.max_decisions = d.max_decisions.max(s.max_decisions);
                    d.max_vars = d.max_vars.max(s.max_vars);
                    let s = &it.sol.st;
                    let d = &mut t.sol;
                    d.queries += s.queries;
                    d.z3_calls += s.z3_calls;
                    d.sat += s.sat;
                    d.unsat += s.unsat;
                    d.unknown += s.unknown;
                    d.solver_ns += s.solver_ns;
                    d.max_ns = d.max_ns.max(s.max_ns);
                    for (k, (n, vs)) in viol {
                        let e = t.viol.entry(k).or_insert((0, vec![]));
                        e.0 += n;
                        for v in vs {
                            if e.1.len() < 3 {
                                e.1.push(v);
                            }
                        }
                    }
                    t.reached.extend(it.reached.iter().cloned());
                    for (k, n) in &it.inconclusive {
                        *t.inconclusive.entry(k.clone()).or_insert(0) += n;
                    }
                    t.inc_inputs.extend(it.inc_inputs.iter().cloned());
                    t.samples.extend(samples);
                    for (i, c) in it.cov.iter().enumerate() {
                        if c.is_empty() {
                            continue;
                        }
                        if t.cov[i].is_empty() {
                            t.cov[i] = c.clone();
                        } else {
                            for (x, y) in t.cov[i].iter_mut().zip(c) {
                                *x |= *y;
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    let mut died = false;
    for h in hs {
        if h.join().is_err() {
            died = true;
            // a crashed worker would leave the others waiting
            q.0.lock().map(|mut g| g.done = true).ok();
            q.1.notify_all();
        }
    }
    let left = q.0.lock().map(|g| g.items.len()).unwrap_or(1);
    let mut t = Arc::try_unwrap(tot).ok().unwrap().into_inner().unwrap();
    if died {
        t.inconclusive.insert("engine worker crashed".into(), 1);
    }
    if left > 0 {
        t.inconclusive.insert("path or time budget exhausted".into(), left as u64);
    }
    t.exhausted = t.inconclusive.is_empty();
    t.wall = t0.elapsed().as_secs_f64();
    t
}

#[derive(Clone)]
struct Opt {
    steps: u64,
    max_paths: u64,
    time: Duration,
    samples: usize,
    seed: u64,
    trace: bool,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("patch") => patch::patch(&a[2], &a[3]).unwrap(),
        Some("run") => run(&a[2..]),
        _ => {
            eprintln!("usage: engine patch IN.ll OUT.ll | run M.ll --entry F.. [--out FILE] ...");
            std::process::exit(2);
        }
    }
}

fn run(a: &[String]) {
    let mut entries = vec![];
    let mut out = None;
    let mut jobs = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut opt = Opt { steps: 20_000_000, max_paths: u64::MAX, time: Duration::from_secs(600), samples: 8, seed: 1, trace: false };
    let mut root = "/repo".to_string();
    let mut input: Option<Vec<u8>> = None;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => entries.push(v),
            "--out" => out = Some(v),
            "--jobs" => jobs = v.parse().unwrap(),
            "--steps" => opt.steps = v.parse().unwrap(),
            "--max-paths" => opt.max_paths = v.parse().unwrap(),
            "--time" => opt.time = Duration::from_secs(v.parse().unwrap()),
            "--samples" => opt.samples = v.parse().unwrap(),
            "--seed" => opt.seed = v.parse().unwrap(),
            "--root" => root = v,
            "--tier" => interp::TIER.store(v.parse().unwrap(), std::sync::atomic::Ordering::Relaxed),
            "--input" => input = Some((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect()),
            "--trace" => {
                opt.trace = true;
                i -= 1;
            }
            x => panic!("option {}", x),
        }
        i += 2;
    }
    let t = Instant::now();
    let text = std::fs::read_to_string(&a[0]).expect("module");
    let m = ir::Module::parse(text).expect("parse");
    let sh = Arc::new(Shared::new(m).expect("image"));
    let load = t.elapsed().as_secs_f64();
    eprintln!("loaded {} functions, {} globals in {:.2}s", sh.m.funcs.len(), sh.m.globals.len(), load);
    let mut js = vec![];
    for e in &entries {
        let fi = match sh.m.fidx.get(e) {
            Some(i) => *i,
            None => {
                eprintln!("no entry {}", e);
                js.push(format!("{}:{}", report::q(e), report::missing()));
                continue;
            }
        };
        if let Some(inp) = &input {
            // a single concrete run, for debugging
            let mut it = Interp::new(sh.clone(), Arc::new(AtomicBool::new(false)));
            it.step_limit = opt.steps;
            it.trace = true;
            let r = it.run(fi, Item { input: inp.clone(), bound: u32::MAX, excl: vec![] });
            eprintln!("{:?} {:?} {:?}", r, it.violations, it.inconclusive);
            continue;
        }
        let t = explore(&sh, fi, jobs, &opt);
        eprintln!(
            "{}: {:.2}s paths={} infeasible={} decisions={} flips={} queries={} z3={} ({:.2}s, max {:.0}ms) steps={} asserts={}/{} reached={:?}",
            e,
            t.wall,
            t.st.paths,
            t.st.infeasible,
            t.st.decisions,
            t.st.flips,
            t.sol.queries,
            t.sol.z3_calls,
            t.sol.solver_ns as f64 / 1e9,
            t.sol.max_ns as f64 / 1e6,
            t.st.steps,
            t.st.assert_sym,
            t.st.assert_conc,
            t.reached
        );
        for ((k, m), (n, vs)) in &t.viol {
            eprintln!("  VIOL {} x{}: {} input={}", k, n, m, report::hex(&vs[0].input));
            eprintln!("     ascii {:?}", String::from_utf8_lossy(&vs[0].input));
            if opt.trace {
                for l in &vs[0].trace {
                    eprintln!("       {}", l);
                }
            }
        }
        for (k, n) in &t.inconclusive {
            eprintln!("  INCONCLUSIVE x{}: {}", n, k);
        }
        js.push(format!("{}:{}", report::q(e), report::json(&sh, &t, &root)));
    }
    if let Some(o) = out {
        std::fs::write(o, format!("{{\"load_s\":{:.3},\"entries\":{{{}}}}}\n", load, js.join(",\n"))).unwrap();
    }
}
