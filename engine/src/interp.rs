//! Concolic interpreter for the lowered IR.
//!
//! One run follows the concrete input model of a work item; every decision on
//! a symbolic value past the item's bound asks the solver for the other
//! side(s), and each satisfiable side becomes a new work item.  The queue
//! running dry means every feasible path (within the harness' bounds) was run.
use crate::expr::*;
use crate::ir::*;
use crate::low::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};

pub const GBASE: u64 = 0x10000;
pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const MAIN_STACK: u64 = 4 << 20;
pub const THR_STACK: u64 = 256 << 10;
pub const MAX_THREADS: usize = 250;
pub const HEAP: u64 = 192 << 20;
const CH: u32 = 6; // shadow chunk = 64 bytes

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub c: u128,
    pub s: E,
}
#[inline(always)]
fn k(c: u128) -> V {
    V { c, s: 0 }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    None,
    Bytes,
    Choice,
    Assume,
    Assert,
    Fail,
    Reach,
    Observe,
    PanicMode,
    SchedMode,
    IsSym,
    Bound,
    StepLimit,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Zero,
    Minus1,
    Write,
    Writev,
    Abort,
    Errno,
    Syscall,
    Getrandom,
    RustPanic, // observed, then executed
    RaiseException,
    DeleteException,
    PthreadCreate,
    PthreadJoin,
    PthreadSelf,
    Sysconf,
    KeyCreate,
    GetSpecific,
    SetSpecific,
    Nanosleep,
    Yield,
    ClockGettime,
    Close,
    Unsupported,
}

/// bounds the harness is to use: 0 quick, 1 thorough
pub static TIER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn ext_of(name: &str, has_body: bool) -> Ext {
    // Rust-mangled hook points that do have bodies
    if has_body {
        if name.contains("rust_begin_unwind") && !name.contains("closure") {
            return Ext::RustPanic;
        }
        return Ext::None;
    }
    match name {
        "se_bytes" => Ext::Bytes,
        "se_choice" => Ext::Choice,
        "se_assume" => Ext::Assume,
        "se_assert" => Ext::Assert,
        "se_fail" => Ext::Fail,
        "se_reach" => Ext::Reach,
        "se_observe" => Ext::Observe,
        "se_panic_mode" => Ext::PanicMode,
        "se_sched" => Ext::SchedMode,
        "se_symbolic" => Ext::IsSym,
        "se_tier" => Ext::Bound,
        "se_step_limit" => Ext::StepLimit,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "memchr" => Ext::Memchr,
        "strlen" => Ext::Strlen,
        "write" => Ext::Write,
        "writev" => Ext::Writev,
        "abort" | "_exit" | "exit" | "__assert_fail" => Ext::Abort,
        "__errno_location" => Ext::Errno,
        "syscall" => Ext::Syscall,
        "getrandom" => Ext::Getrandom,
        "_Unwind_RaiseException" => Ext::RaiseException,
        "_Unwind_DeleteException" => Ext::DeleteException,
        "pthread_create" => Ext::PthreadCreate,
        "pthread_join" => Ext::PthreadJoin,
        "pthread_self" => Ext::PthreadSelf,
        "sysconf" => Ext::Sysconf,
        "pthread_key_create" => Ext::KeyCreate,
        "pthread_getspecific" => Ext::GetSpecific,
        "pthread_setspecific" => Ext::SetSpecific,
        "nanosleep" | "clock_nanosleep" | "usleep" => Ext::Nanosleep,
        "sched_yield" => Ext::Yield,
        "clock_gettime" => Ext::ClockGettime,
        "close" => Ext::Close,
        "getenv" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "pthread_detach" | "prctl" | "sigaltstack" | "munmap" | "mprotect"
        | "pthread_attr_getguardsize" | "pthread_attr_setguardsize" | "sigaction" | "signal" | "pthread_key_delete" | "fflush" | "__cxa_thread_atexit_impl" | "madvise" | "dl_iterate_phdr" | "__cxa_atexit" | "dlsym" | "mkdir" | "__xpg_strerror_r" => Ext::Zero,
        "sched_getaffinity" | "pthread_getattr_np" | "readlink" | "open" | "open64" | "statx" | "stat64" | "lstat64" | "fstat64" | "fcntl" | "ioctl" | "gnu_get_libc_version" => Ext::Minus1,
        _ => Ext::Unsupported,
    }
}

pub struct Shared {
    pub m: Module,
    pub funcs: Vec<OnceLock<Result<Box<Func>, String>>>,
    pub ext: Vec<Ext>,
    pub gaddr: FxMap<String, u64>,
    pub image: Vec<u8>,
    pub rw_start: u64,
    pub tls_start: u64,
    pub tls_end: u64,
    pub ranges: Vec<(u64, u64)>, // RO globals sorted
    pub stack_lo: u64,
    pub heap_lo: u64,
    pub mem_end: u64,
}

struct Boot<'a> {
    m: &'a Module,
    gaddr: &'a FxMap<String, u64>,
}
fn lookup(m: &Module, gaddr: &FxMap<String, u64>, name: &str) -> Option<u64> {
    let mut n = name.to_string();
    let mut depth = 0;
    loop {
        if let Some(a) = gaddr.get(&n) {
            return Some(*a);
        }
        if let Some(&i) = m.fidx.get(&n) {
            return Some(FN_BASE + 16 * i as u64);
        }
        match m.aliases.get(&n) {
            Some(Const::Global(g)) if depth < 8 => {
                n = g.clone();
                depth += 1;
            }
            _ => return None,
        }
    }
}
impl<'a> Env for Boot<'a> {
    fn module(&self) -> &Module {
        self.m
    }
    fn global_addr(&self, name: &str) -> Option<u64> {
        lookup(self.m, self.gaddr, name)
    }
}
impl Env for Shared {
    fn module(&self) -> &Module {
        &self.m
    }
    fn global_addr(&self, name: &str) -> Option<u64> {
        lookup(&self.m, &self.gaddr, name)
    }
}

impl Shared {
    pub fn new(m: Module) -> Result<Shared, String> {
        let mut gaddr: FxMap<String, u64> = Default::default();
        let mut pos = GBASE;
        let mut ranges = vec![];
        let mut place = |g: &GlobalDef, pos: &mut u64| -> (u64, u64) {
            let (s, a) = m.size_align(&g.ty);
            let a = a.max(g.align).max(1);
            *pos = (*pos + a - 1) / a * a;
            let at = *pos;
            gaddr.insert(g.name.clone(), at);
            *pos += s.max(1);
            (at, at + s)
        };
        let weak = |g: &GlobalDef| g.init.is_none() && !matches!(g.name.as_str(), "environ" | "__dso_handle" | "stderr" | "stdout" | "stdin");
        for g in m.globals.iter().filter(|g| g.constant && !g.tls && !weak(g)) {
            let r = place(g, &mut pos);
            if r.1 > r.0 {
                ranges.push(r);
            }
        }
        pos = (pos + 63) / 64 * 64;
        let rw_start = pos;
        for g in m.globals.iter().filter(|g| !g.constant && !g.tls && !weak(g)) {
            place(g, &mut pos);
        }
        pos = (pos + 63) / 64 * 64;
        let tls_start = pos;
        for g in m.globals.iter().filter(|g| g.tls) {
            place(g, &mut pos);
        }
        pos = (pos + 63) / 64 * 64;
        let tls_end = pos;
        let glb_end = tls_end + (tls_end - tls_start) * MAX_THREADS as u64;
        for g in m.globals.iter().filter(|g| !g.tls && weak(g)) {
            gaddr.insert(g.name.clone(), 0);
        }
        let mut image = vec![0u8; (tls_end - GBASE) as usize];
        {
            let boot = Boot { m: &m, gaddr: &gaddr };
            for g in &m.globals {
                if let (Some(c), Some(&a)) = (&g.init, gaddr.get(&g.name)) {
                    if a == 0 {
                        continue;
                    }
                    let s = m.size_align(&g.ty).0;
                    let o = (a - GBASE) as usize;
                    const_bytes(&boot, &g.ty, c, &mut image[o..o + s as usize]).map_err(|e| format!("global {}: {}", g.name, e))?;
                }
            }
        }
        let stack_lo = (glb_end + 4095) / 4096 * 4096;
        let heap_lo = stack_lo + MAIN_STACK + THR_STACK * MAX_THREADS as u64;
        let mem_end = heap_lo + HEAP;
        let funcs = (0..m.funcs.len()).map(|_| OnceLock::new()).collect();
        let ext = m.funcs.iter().map(|f| ext_of(&f.name, f.body.is_some())).collect();
        Ok(Shared { m, funcs, ext, gaddr, image, rw_start, tls_start, tls_end, ranges, stack_lo, heap_lo, mem_end })
    }
    pub fn func(&self, i: usize) -> Result<&Func, String> {
        match self.funcs[i].get_or_init(|| lower(self, i).map(Box::new)) {
            Ok(f) => Ok(f),
            Err(e) => Err(format!("lowering {}: {}", self.m.funcs[i].name, e)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Item {
    pub input: Vec<u8>,
    pub bound: u32,
    pub excl: Vec<u128>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Done,
    Assume,
    Violated,
    Error(String),
    Interrupted,
}

struct Frame {
    f: *const Func,
    pc: u32,
    base: u32,
    sp: u64,
    /// return value is discarded (thread entry, callbacks)
    top: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Run,
    Futex(u64, bool), // address, has timeout
    Join(usize),
    Done,
}

struct Thread {
    frames: Vec<Frame>,
    regs: Vec<V>,
    sp: u64,
    stack_base: u64,
    tls: u64, // offset to add
    st: St,
    exc: u64,
    errno: u64,
    retval: u64,
    timed_out: bool,
    spec: HashMap<u64, u64>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub decisions: u64,
    pub flips: u64,
    pub assert_sym: u64,
    pub assert_conc: u64,
    pub max_path_steps: u64,
    pub max_decisions: u64,
    pub max_vars: u64,
    pub preempts: u64,
    pub sched_choices: u64,
}

pub struct Interp {
    pub sh: Arc<Shared>,
    pub ar: Arena,
    pub sol: Solver,
    mem: Vec<u8>,
    shadow: Vec<E>,
    flags: Vec<u8>,
    brk: u64,
    brk_hi: u64,
    th: Vec<Thread>,
    cur: usize,
    stack_lo_water: Vec<u64>,
    // path state
    pub input: Vec<u8>,
    nvars: u32,
    ndec: u32,
    bound: u32,
    excl: Vec<u128>,
    known: FxMap<E, ()>,
    /// products and quotients known to be a constant
    eqs: FxMap<E, E>,
    pc_comp: Vec<u32>, // union-find parent per var
    comp_cons: Vec<Vec<E>>,
    pub children: Vec<Item>,
    pub violations: Vec<Violation>,
    pub reached: BTreeSet<String>,
    pub obs: u64,
    pub inconclusive: BTreeMap<String, u64>,
    /// models of paths that could not be followed to their end
    pub inc_inputs: Vec<Vec<u8>>,
    pub st: Stats,
    steps: u64,
    pub step_limit: u64,
    cur_limit: u64,
    unwind_mode: bool,
    sched_budget: i64,
    sched_on: bool,
    panic_loc: String,
    nkeys: u64,
    clock: u64,
    pub cov: Vec<Vec<u8>>,
    tmp: Vec<(u32, V)>,
    pub stop_flag: Arc<AtomicBool>,
    pub trace: bool,
    pub max_conc: u32,
    last_rr: usize,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

impl Interp {
    pub fn new(sh: Arc<Shared>, stop_flag: Arc<AtomicBool>) -> Self {
        let n = (sh.mem_end - GBASE) as usize;
        let mut mem = vec![0u8; n];
        mem[..sh.image.len()].copy_from_slice(&sh.image);
        let nf = sh.m.funcs.len();
        Interp {
            ar: Arena::new(),
            sol: Solver::new(),
            mem,
            shadow: vec![0; n],
            flags: vec![0; (n >> CH) + 2],
            brk: sh.heap_lo,
            brk_hi: sh.heap_lo,
            th: vec![],
            cur: 0,
            stack_lo_water: vec![],
            input: vec![],
            nvars: 0,
            ndec: 0,
            bound: 0,
            excl: vec![],
            known: Default::default(),
            eqs: Default::default(),
            pc_comp: vec![],
            comp_cons: vec![],
            children: vec![],
            violations: vec![],
            reached: Default::default(),
            obs: 0,
            inconclusive: Default::default(),
            inc_inputs: vec![],
            st: Default::default(),
            steps: 0,
            step_limit: 20_000_000,
            cur_limit: 0,
            unwind_mode: false,
            sched_budget: 0,
            sched_on: false,
            panic_loc: String::new(),
            nkeys: 0,
            clock: 0,
            cov: vec![vec![]; nf],
            tmp: vec![],
            stop_flag,
            trace: false,
            max_conc: 4096,
            last_rr: 0,
            sh,
        }
    }

    // ---------------------------------------------------------------- memory
    #[inline(always)]
    fn chk(&self, a: u64, n: u64) -> R<usize> {
        if a < GBASE || a.wrapping_add(n) > self.sh.mem_end || a > self.sh.mem_end {
            return Err(Stop::Error(format!("MEMFAULT {:#x}+{}", a, n)));
        }
        Ok((a - GBASE) as usize)
    }
    #[inline(always)]
    fn flagged(&self, o: usize, n: usize) -> bool {
        let a = o >> CH;
        let b = (o + n.max(1) - 1) >> CH;
        if a == b {
            self.flags[a] != 0
        } else {
            self.flags[a..=b].iter().any(|x| *x != 0)
        }
    }
    fn load(&mut self, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let o = self.chk(a, n as u64)?;
        let c = match n {
            1 => self.mem[o] as u128,
            8 => u64::from_le_bytes(self.mem[o..o + 8].try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(self.mem[o..o + 4].try_into().unwrap()) as u128,
            _ => {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&self.mem[o..o + n]);
                u128::from_le_bytes(b)
            }
        };
        let c = if w & 7 == 0 { c } else { c & mask(w) };
        if !self.flagged(o, n) || self.shadow[o..o + n].iter().all(|x| *x == 0) {
            return Ok(k(c));
        }
        let mut e = self.whole(o, n);
        for i in 0..n {
            if e != 0 && i == 0 {
                break;
            }
            let b = if self.shadow[o + i] != 0 { self.shadow[o + i] } else { self.ar.konst(self.mem[o + i] as u128, 8) };
            let b = self.ar.settle(b);
            e = if i == 0 { b } else { self.ar.concat(b, e) };
        }
        if w as usize != n * 8 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.mkv(c, e))
    }
    /// the bytes are those of one stored number
    fn whole(&mut self, o: usize, n: usize) -> E {
        let f = self.shadow[o];
        if n == 1 || f == 0 {
            return 0;
        }
        let x = self.ar.n(f);
        if x.op != Op::Extract || x.w != 8 || !self.ar.is_sum(x.a) {
            return 0;
        }
        let lo = x.k as u32;
        let aw = self.ar.w(x.a);
        if lo + n as u32 * 8 > aw {
            return 0;
        }
        for i in 1..n {
            let b = if self.shadow[o + i] != 0 { self.shadow[o + i] } else { self.ar.konst(self.mem[o + i] as u128, 8) };
            if self.ar.byte_raw(x.a, lo / 8 + i as u32) != b || lo % 8 != 0 {
                return 0;
            }
        }
        self.ar.extract(x.a, lo, n as u32 * 8)
    }
    #[inline(always)]
    fn mkv(&self, c: u128, e: E) -> V {
        if self.ar.as_const(e).is_some() {
            V { c, s: 0 }
        } else {
            V { c, s: e }
        }
    }
    fn store(&mut self, a: u64, w: u32, v: V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let o = self.chk(a, n as u64)?;
        if a < self.sh.rw_start {
            return err(format!("MEMFAULT write to constant {:#x}", a));
        }
        match n {
            1 => self.mem[o] = v.c as u8,
            8 => self.mem[o..o + 8].copy_from_slice(&(v.c as u64).to_le_bytes()),
            4 => self.mem[o..o + 4].copy_from_slice(&(v.c as u32).to_le_bytes()),
            _ => self.mem[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]),
        }
        if v.s != 0 {
            let mut e = v.s;
            if w as usize != n * 8 {
                e = self.ar.zext(e, n as u32 * 8);
            }
            for i in 0..n {
                let b = if n > 1 && self.ar.is_sum(e) { self.ar.byte_raw(e, i as u32) } else { self.ar.extract(e, i as u32 * 8, 8) };
                self.shadow[o + i] = if self.ar.as_const(b).is_some() { 0 } else { b };
                self.flags[(o + i) >> CH] = 1;
            }
        } else if self.flagged(o, n) {
            self.shadow[o..o + n].iter_mut().for_each(|x| *x = 0);
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.chk(s, n)?;
        let dof = self.chk(d, n)?;
        if d < self.sh.rw_start {
            return err(format!("MEMFAULT write to constant {:#x}", d));
        }
        let n = n as usize;
        self.mem.copy_within(so..so + n, dof);
        let fs = self.flagged(so, n);
        if fs {
            self.shadow.copy_within(so..so + n, dof);
            for c in (dof >> CH)..=((dof + n - 1) >> CH) {
                self.flags[c] = 1;
            }
        } else if self.flagged(dof, n) {
            self.shadow[dof..dof + n].iter_mut().for_each(|x| *x = 0);
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Vec<u8> {
        match self.chk(a, n) {
            Ok(o) => self.mem[o..o + n as usize].to_vec(),
            Err(_) => vec![],
        }
    }
    fn alloc(&mut self, n: u64, align: u64) -> R<u64> {
        let al = align.max(16);
        let a = (self.brk + 16 + al - 1) / al * al;
        if a + n + 64 > self.sh.mem_end || n > HEAP {
            return err("heap exhausted");
        }
        let o = (a - 16 - GBASE) as usize;
        self.mem[o..o + 8].copy_from_slice(&n.to_le_bytes());
        self.brk = a + n.max(1);
        Ok(a)
    }

    fn reset(&mut self) {
        let sh = self.sh.clone();
        // globals
        let a = (sh.rw_start - GBASE) as usize;
        let e = (sh.tls_end - GBASE) as usize;
        self.mem[a..e].copy_from_slice(&sh.image[a..e]);
        self.clear_flags(a, e);
        // stacks
        for i in 0..self.th.len() {
            let lo = (self.stack_lo_water[i] - GBASE) as usize;
            let hi = (self.th[i].stack_base - GBASE) as usize;
            if lo < hi {
                self.mem[lo..hi].iter_mut().for_each(|x| *x = 0);
                self.clear_flags(lo, hi);
            }
        }
        let lo = (sh.heap_lo - GBASE) as usize;
        let hi = (self.brk.max(self.brk_hi) - GBASE) as usize;
        self.mem[lo..hi].iter_mut().for_each(|x| *x = 0);
        self.clear_flags(lo, hi);
        self.brk = sh.heap_lo;
        self.brk_hi = sh.heap_lo;
        self.th.clear();
        self.stack_lo_water.clear();
        self.cur = 0;
        self.nvars = 0;
        self.ndec = 0;
        self.known.clear();
        self.eqs.clear();
        self.pc_comp.clear();
        self.comp_cons.clear();
        self.obs = 0xcbf29ce484222325;
        self.steps = 0;
        self.cur_limit = self.step_limit;
        self.unwind_mode = false;
        self.sched_budget = 0;
        self.sched_on = false;
        self.panic_loc.clear();
        self.nkeys = 1;
        self.clock = 1_000_000_000;
        self.last_rr = 0;
    }
    fn clear_flags(&mut self, lo: usize, hi: usize) {
        for c in (lo >> CH)..=(hi >> CH) {
            if self.flags[c] != 0 {
                self.flags[c] = 0;
                let o = c << CH;
                let e = (o + (1 << CH)).min(self.shadow.len());
                self.shadow[o..e].iter_mut().for_each(|x| *x = 0);
            }
        }
    }

    /// after the arena was replaced: no stale expression ids may survive
    pub fn forget_shadow(&mut self) {
        for c in 0..self.flags.len() {
            if self.flags[c] != 0 {
                self.flags[c] = 0;
                let o = c << CH;
                let e = (o + (1 << CH)).min(self.shadow.len());
                self.shadow[o..e].iter_mut().for_each(|x| *x = 0);
            }
        }
    }

    // ------------------------------------------------------- path condition
    fn find(&mut self, mut x: u32) -> u32 {
        while self.pc_comp[x as usize] != x {
            let p = self.pc_comp[x as usize];
            self.pc_comp[x as usize] = self.pc_comp[p as usize];
            x = p;
        }
        x
    }
    fn add_pc(&mut self, e: E) {
        if self.ar.as_const(e).is_some() || self.known.contains_key(&e) {
            return;
        }
        self.known.insert(e, ());
        let n = self.ar.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(n.a);
            self.add_pc(n.b);
            return;
        }
        let e = self.given(e, true);
        if self.ar.as_const(e).is_some() {
            return;
        }
        self.known.insert(e, ());
        let n = self.ar.n(e);
        if n.op == Op::Eq && self.ar.is_hard(n.a) && self.ar.as_const(n.b).is_some() {
            self.eqs.insert(n.a, n.b);
        }
        let vs = self.ar.vars_of(e);
        let mut root = self.find(vs[0]);
        for &v in vs.iter().skip(1) {
            let r = self.find(v);
            if r != root {
                let (big, small) = if self.comp_cons[root as usize].len() >= self.comp_cons[r as usize].len() { (root, r) } else { (r, root) };
                self.pc_comp[small as usize] = big;
                let l = std::mem::take(&mut self.comp_cons[small as usize]);
                self.comp_cons[big as usize].extend(l);
                root = big;
            }
        }
        self.comp_cons[root as usize].push(e);
    }
    fn slice(&mut self, e: E) -> Vec<E> {
        let vs = self.ar.vars_of(e);
        let mut roots: Vec<u32> = vec![];
        for &v in vs.iter() {
            let r = self.find(v);
            if !roots.contains(&r) {
                roots.push(r);
            }
        }
        let mut out = vec![];
        for r in roots {
            out.extend_from_slice(&self.comp_cons[r as usize]);
        }
        out
    }
    /// `e` simplified by what is known on this path
    fn given(&mut self, e: E, itself: bool) -> E {
        if !self.ar.is_hard(e) {
            return e;
        }
        let mut memo = FxMap::default();
        if itself {
            self.known.remove(&e);
        }
        let r = self.ar.given(e, &self.known, &self.eqs, &mut memo);
        if itself {
            self.known.insert(e, ());
        }
        r
    }
    /// Is PC ∧ e satisfiable?  Returns the completed input.
    fn sat(&mut self, e: E) -> Option<Vec<u8>> {
        let e = self.given(e, false);
        if self.ar.as_const(e) == Some(0) {
            return None;
        }
        let sl = self.slice(e);
        match self.sol.check(&mut self.ar, &sl, e) {
            Ok(None) => None,
            Ok(Some(m)) => {
                let mut inp = self.input.clone();
                if inp.len() < self.nvars as usize {
                    inp.resize(self.nvars as usize, 0);
                }
                for &(v, x) in m.iter() {
                    inp[v as usize] = x;
                }
                Some(inp)
            }
            Err(()) => {
                *self.inconclusive.entry("solver answered unknown".into()).or_insert(0) += 1;
                None
            }
        }
    }
    fn decision(&mut self, taken: E, alts: &[E]) {
        let j = self.ndec;
        self.ndec += 1;
        self.st.decisions += 1;
        if j >= self.bound {
            for &a in alts {
                if let Some(inp) = self.sat(a) {
                    self.st.flips += 1;
                    self.children.push(Item { input: inp, bound: j + 1, excl: vec![] });
                }
            }
        }
        self.add_pc(taken);
    }
    fn branch(&mut self, c: V) -> bool {
        let t = c.c & 1 != 0;
        if c.s == 0 {
            return t;
        }
        let ne = self.ar.not(c.s);
        let (tk, alt) = if t { (c.s, ne) } else { (ne, c.s) };
        if self.known.contains_key(&tk) || self.ar.as_const(tk).is_some() {
            return t;
        }
        self.decision(tk, &[alt]);
        t
    }
    fn concretize(&mut self, v: V) -> u128 {
        if v.s == 0 {
            return v.c;
        }
        let w = self.ar.w(v.s);
        let kc = self.ar.konst(v.c, w);
        let eq = self.ar.bin(Op::Eq, v.s, kc);
        if self.known.contains_key(&eq) || self.ar.as_const(eq).is_some() {
            return v.c;
        }
        let j = self.ndec;
        self.ndec += 1;
        self.st.decisions += 1;
        let mut ex: Vec<u128> = vec![];
        let mut go = true;
        if j + 1 == self.bound && !self.excl.is_empty() {
            // this item exists to enumerate further values here
            ex = self.excl.clone();
        } else if j < self.bound {
            go = false;
        }
        if go {
            ex.push(v.c);
            if ex.len() as u32 > self.max_conc {
                *self.inconclusive.entry("too many values at a concretization point".into()).or_insert(0) += 1;
            } else {
                let mut e = self.ar.konst(1, 1);
                for &x in &ex {
                    let kx = self.ar.konst(x, w);
                    let q = self.ar.bin(Op::Eq, v.s, kx);
                    let nq = self.ar.not(q);
                    e = self.ar.bin(Op::And, e, nq);
                }
                if let Some(inp) = self.sat(e) {
                    self.st.flips += 1;
                    self.children.push(Item { input: inp, bound: j + 1, excl: ex });
                }
            }
        }
        self.add_pc(eq);
        v.c
    }
    fn new_var(&mut self) -> V {
        let i = self.nvars;
        self.nvars += 1;
        self.pc_comp.push(i);
        self.comp_cons.push(vec![]);
        if self.input.len() <= i as usize {
            self.input.resize(i as usize + 1, 0);
        }
        let e = self.ar.var(i);
        V { c: self.input[i as usize] as u128, s: e }
    }
    /// fresh choice among 0..n (all explored)
    fn choose(&mut self, n: u64) -> R<u64> {
        if n <= 1 {
            return Ok(0);
        }
        let v = self.new_var();
        let kn = self.ar.konst(n as u128, 8);
        let c = self.ar.bin(Op::Ult, v.s, kn);
        self.assume(V { c: (v.c < n as u128) as u128, s: c })?;
        Ok(self.concretize(v) as u64)
    }
    fn assume(&mut self, c: V) -> R<()> {
        if c.s == 0 {
            if c.c & 1 == 0 {
                return Err(Stop::Assume);
            }
            return Ok(());
        }
        if c.c & 1 != 0 {
            // no flip needed: the other side is outside the assumption
            self.ndec += 1;
            self.add_pc(c.s);
            Ok(())
        } else {
            let ne = self.ar.not(c.s);
            self.decision(ne, &[c.s]);
            Err(Stop::Assume)
        }
    }
    fn violate(&mut self, kind: &str, msg: String, input: Option<Vec<u8>>) {
        let mut input = input.unwrap_or_else(|| self.input.clone());
        input.truncate(self.nvars as usize);
        let trace = self.backtrace();
        self.violations.push(Violation { kind: kind.into(), msg, input, trace });
    }
    fn backtrace(&self) -> Vec<String> {
        let mut out = vec![];
        if let Some(t) = self.th.get(self.cur) {
            for f in t.frames.iter().rev().take(12) {
                let fu = unsafe { &*f.f };
                out.push(format!("{} @{}", fu.name, f.pc));
            }
        }
        out
    }

    // ------------------------------------------------------------ operators
    fn ex(&mut self, v: V, w: u32) -> E {
        if v.s != 0 {
            v.s
        } else {
            self.ar.konst(v.c, w)
        }
    }
    #[inline(always)]
    fn bin(&mut self, op: Op, w: u32, a: V, b: V) -> V {
        let c = ev_bin(op, w, a.c, b.c);
        if a.s | b.s == 0 {
            return k(c);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.bin(op, x, y);
        self.mkv(c, e)
    }
    fn not1(&mut self, v: V) -> V {
        let s = if v.s != 0 { self.ar.not(v.s) } else { 0 };
        V { c: v.c ^ 1, s }
    }
    fn cast(&mut self, kd: CastK, fw: u32, tw: u32, v: V) -> V {
        let c = match kd {
            CastK::SExt => (sext(v.c, fw) as u128) & mask(tw),
            _ => v.c & mask(tw),
        };
        if v.s == 0 {
            return k(c);
        }
        let e = match kd {
            CastK::ZExt => self.ar.zext(v.s, tw),
            CastK::SExt => self.ar.sext(v.s, tw),
            CastK::Trunc => self.ar.extract(v.s, 0, tw),
            CastK::Copy => v.s,
        };
        self.mkv(c, e)
    }
    fn ite(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.s == 0 {
            return if c.c & 1 != 0 { a } else { b };
        }
        let r = if c.c & 1 != 0 { a.c } else { b.c };
        // already decided on this path?
        if self.known.contains_key(&c.s) {
            return a;
        }
        let nc = self.ar.not(c.s);
        if self.known.contains_key(&nc) {
            return b;
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.ite(c.s, x, y);
        self.mkv(r, e)
    }

    fn sym_load(&mut self, p: V, w: u32) -> R<Option<V>> {
        // constant tables only
        let a = p.c as u64;
        let sh = self.sh.clone();
        if a >= sh.rw_start {
            return Ok(None);
        }
        let i = sh.ranges.partition_point(|r| r.0 <= a);
        if i == 0 {
            return Ok(None);
        }
        let (gs, ge) = sh.ranges[i - 1];
        let n = ((w + 7) / 8) as u64;
        if a + n > ge || ge - gs > 8192 || w % 8 != 0 {
            return Ok(None);
        }
        // stride from known low zero bits
        let mut tz = 0;
        let nd = self.ar.n(p.s);
        let core = if nd.op == Op::Add && self.ar.as_const(nd.b).is_some() { nd.a } else { p.s };
        let cn = self.ar.n(core);
        let low = if cn.op == Op::ZExt { cn.a } else { core };
        let ln = self.ar.n(low);
        if ln.op == Op::Concat && self.ar.as_const(ln.b) == Some(0) {
            tz = self.ar.w(ln.b).min(6);
        }
        let stride = 1u64 << tz;
        let kgs = self.ar.konst(gs as u128, 64);
        let rel = self.ar.bin(Op::Sub, p.s, kgs);
        let lim = self.ar.konst((ge - gs - n) as u128, 64);
        let inb = self.ar.bin(Op::Ule, rel, lim);
        self.branch(V { c: 1, s: inb });
        let first = (a - gs) % stride;
        let mut offs = vec![];
        let mut o = first;
        while o + n <= ge - gs {
            offs.push(o);
            o += stride;
        }
        let vals: Vec<u128> = offs
            .iter()
            .map(|o| {
                let b = (gs + o - GBASE) as usize;
                let mut x = [0u8; 16];
                x[..n as usize].copy_from_slice(&self.mem[b..b + n as usize]);
                u128::from_le_bytes(x)
            })
            .collect();
        let e = self.tree(rel, &offs, &vals, w);
        let cur = (a - gs - first) / stride;
        Ok(Some(self.mkv(vals[cur as usize], e)))
    }
    fn tree(&mut self, rel: E, offs: &[u64], vals: &[u128], w: u32) -> E {
        if vals.iter().all(|v| *v == vals[0]) {
            return self.ar.konst(vals[0], w);
        }
        let m = vals.len() / 2;
        let l = self.tree(rel, &offs[..m], &vals[..m], w);
        let r = self.tree(rel, &offs[m..], &vals[m..], w);
        let kk = self.ar.konst(offs[m] as u128, 64);
        let c = self.ar.bin(Op::Ult, rel, kk);
        self.ar.ite(c, l, r)
    }

    // --------------------------------------------------------------- frames
    fn new_thread(&mut self) -> usize {
        let i = self.th.len();
        let sh = &self.sh;
        let base = if i == 0 { sh.stack_lo + MAIN_STACK } else { sh.stack_lo + MAIN_STACK + THR_STACK * i as u64 };
        let n = sh.tls_end - sh.tls_start;
        let tls = n * i as u64;
        if i > 0 {
            // its own copy of the thread-local variables, as they are initially
            let t0 = (sh.tls_start - GBASE) as usize;
            let d = t0 + tls as usize;
            let sh = self.sh.clone();
            self.mem[d..d + n as usize].copy_from_slice(&sh.image[t0..t0 + n as usize]);
            self.clear_flags(d, d + n as usize);
        }
        self.th.push(Thread {
            frames: vec![],
            regs: vec![],
            sp: base,
            stack_base: base,
            tls,
            st: St::Run,
            exc: 0,
            errno: 0,
            retval: 0,
            timed_out: false,
            spec: HashMap::new(),
        });
        self.stack_lo_water.push(base);
        i
    }
    fn push_frame(&mut self, t: usize, fi: usize, args: &[V], top: bool) -> R<()> {
        let sh = self.sh.clone();
        let f = sh.func(fi).map_err(Stop::Error)?;
        let th = &mut self.th[t];
        if th.frames.len() > 3000 {
            return err("STACKOVERFLOW recursion depth over 3000");
        }
        let base = th.regs.len() as u32;
        if args.len() != f.nparam_slots as usize {
            return err(format!("arity mismatch calling {} ({} vs {})", f.name, args.len(), f.nparam_slots));
        }
        th.regs.extend_from_slice(args);
        th.regs.resize(base as usize + f.nregs as usize, k(0));
        th.frames.push(Frame { f: f as *const Func, pc: 0, base, sp: th.sp, top });
        let cv = &mut self.cov[fi];
        if cv.is_empty() {
            cv.resize(f.nblocks as usize, 0);
        }
        cv[0] = 1;
        Ok(())
    }

    pub fn run(&mut self, entry: usize, item: Item) -> Stop {
        self.reset();
        self.input = item.input;
        self.bound = item.bound;
        self.excl = item.excl;
        self.children.clear();
        let t = self.new_thread();
        let r = match self.push_frame(t, entry, &[], true) {
            Ok(()) => match self.exec() {
                Ok(()) => Stop::Done,
                Err(s) => s,
            },
            Err(s) => s,
        };
        self.st.steps += self.steps;
        self.st.max_path_steps = self.st.max_path_steps.max(self.steps);
        self.st.max_decisions = self.st.max_decisions.max(self.ndec as u64);
        self.st.max_vars = self.st.max_vars.max(self.nvars as u64);
        self.input.truncate(self.nvars as usize);
        let r = match r {
            Stop::Error(m) if m.starts_with("MEMFAULT") || m.starts_with("STACKOVERFLOW") => {
                self.violate("fault", m, None);
                Stop::Violated
            }
            r => r,
        };
        match &r {
            Stop::Assume => self.st.infeasible += 1,
            Stop::Interrupted => {}
            Stop::Error(e) => {
                let bt = self.backtrace().into_iter().take(6).collect::<Vec<_>>().join(" < ");
                *self.inconclusive.entry(format!("{} [{}]", e, bt)).or_insert(0) += 1;
                if self.inc_inputs.len() < 16 {
                    self.inc_inputs.push(self.input.clone());
                }
                self.st.paths += 1;
            }
            _ => self.st.paths += 1,
        }
        r
    }

    fn exec(&mut self) -> R<()> {
        let mut tick: u32 = 0;
        'outer: loop {
            // (re)load the current frame
            let cur = self.cur;
            let (fp, mut pc, base) = {
                let fr = self.th[cur].frames.last().unwrap();
                (fr.f, fr.pc as usize, fr.base as usize)
            };
            let f: &Func = unsafe { &*fp };
            macro_rules! regs {
                () => {
                    self.th[cur].regs
                };
            }
            macro_rules! get {
                ($o:expr) => {
                    match $o {
                        Opd::R(r) => self.th[cur].regs[base + r as usize],
                        Opd::C(c) => k(c),
                    }
                };
            }
            macro_rules! save {
                () => {
                    self.th[cur].frames.last_mut().unwrap().pc = pc as u32
                };
            }
            macro_rules! edge {
                ($e:expr) => {{
                    let ed = &f.edges[$e as usize];
                    self.cov[f.idx][ed.block as usize] = 1;
                    match ed.moves.len() {
                        0 => {}
                        1 => {
                            let (d, o) = ed.moves[0];
                            let v = get!(o);
                            regs!()[base + d as usize] = v;
                        }
                        _ => {
                            let mut tmp = std::mem::take(&mut self.tmp);
                            tmp.clear();
                            for (d, o) in ed.moves.iter() {
                                tmp.push((*d, get!(*o)));
                            }
                            for (d, v) in tmp.iter() {
                                regs!()[base + *d as usize] = *v;
                            }
                            self.tmp = tmp;
                        }
                    }
                    pc = ed.target as usize;
                }};
            }
            loop {
                let ins = &f.ins[pc];
                pc += 1;
                self.steps += 1;
                tick = tick.wrapping_add(1);
                if tick & 0xffff == 0 && self.stop_flag.load(Ordering::Relaxed) {
                    return Err(Stop::Interrupted);
                }
                if self.steps > self.cur_limit {
                    save!();
                    self.violate("hang", format!("step limit {} exceeded", self.cur_limit), None);
                    return Err(Stop::Violated);
                }
                match ins {
                    I::Bin1 { op, w, dst, a, b } => {
                        let x = get!(*a);
                        let y = get!(*b);
                        let v = self.bin(*op, *w as u32, x, y);
                        regs!()[base + *dst as usize] = v;
                    }
                    I::Icmp { op, neg, w, dst, a, b } => {
                        let x = get!(*a);
                        let y = get!(*b);
                        let mut v = self.bin(*op, *w as u32, x, y);
                        if *neg {
                            v = self.not1(v);
                        }
                        regs!()[base + *dst as usize] = v;
                    }
                    I::Cast { k: kd, fw, tw, dst, a } => {
                        let x = get!(*a);
                        let v = self.cast(*kd, *fw as u32, *tw as u32, x);
                        regs!()[base + *dst as usize] = v;
                    }
                    I::VCast { k: kd, fw, tw, dst, a } => {
                        for (i, o) in a.iter().enumerate() {
                            let x = get!(*o);
                            let v = self.cast(*kd, *fw as u32, *tw as u32, x);
                            regs!()[base + *dst as usize + i] = v;
                        }
                    }
                    I::Bin { op, neg, w, dst, a } => {
                        for (i, (p, q)) in a.iter().enumerate() {
                            let x = get!(*p);
                            let y = get!(*q);
                            let mut v = self.bin(*op, *w as u32, x, y);
                            if *neg {
                                v = self.not1(v);
                            }
                            regs!()[base + *dst as usize + i] = v;
                        }
                    }
                    I::Bitcast { dst, a, fw, tw, tn } => {
                        if fw == tw {
                            for (i, o) in a.iter().enumerate() {
                                let x = get!(*o);
                                regs!()[base + *dst as usize + i] = x;
                            }
                        } else {
                            // through one wide integer (at most 128 bits)
                            let tot = *fw as u32 * a.len() as u32;
                            if tot > 128 {
                                save!();
                                return err("wide bitcast");
                            }
                            let mut c: u128 = 0;
                            let mut sy = false;
                            for (i, o) in a.iter().enumerate() {
                                let x = get!(*o);
                                c |= x.c << (i as u32 * *fw as u32);
                                sy |= x.s != 0;
                            }
                            let mut e = 0;
                            if sy {
                                for (i, o) in a.iter().enumerate() {
                                    let x = get!(*o);
                                    let y = self.ex(x, *fw as u32);
                                    e = if i == 0 { y } else { self.ar.concat(y, e) };
                                }
                            }
                            for i in 0..*tn as u32 {
                                let cc = (c >> (i * *tw as u32)) & mask(*tw as u32);
                                let v = if sy {
                                    let ee = self.ar.extract(e, i * *tw as u32, *tw as u32);
                                    self.mkv(cc, ee)
                                } else {
                                    k(cc)
                                };
                                regs!()[base + *dst as usize + i as usize] = v;
                            }
                        }
                    }
                    I::Load { dst, ptr, leaves, atomic } => {
                        let p = get!(*ptr);
                        if *atomic && self.sched_on {
                            // plain atomic loads are not scheduling points
                        }
                        if p.s != 0 && leaves.len() == 1 {
                            if let Some(v) = self.sym_load(p, leaves[0].1 as u32)? {
                                regs!()[base + *dst as usize] = v;
                                continue;
                            }
                        }
                        let a = self.concretize(p) as u64;
                        for (i, (o, w, _)) in leaves.iter().enumerate() {
                            let v = match self.load(a + *o as u64, *w as u32) {
                                Ok(v) => v,
                                Err(e) => {
                                    save!();
                                    return Err(e);
                                }
                            };
                            regs!()[base + *dst as usize + i] = v;
                        }
                    }
                    I::Store { src, ptr, leaves, atomic: _ } => {
                        let p = get!(*ptr);
                        let a = self.concretize(p) as u64;
                        for (i, (o, w, _)) in leaves.iter().enumerate() {
                            let v = get!(src[i]);
                            if let Err(e) = self.store(a + *o as u64, *w as u32, v) {
                                save!();
                                return Err(e);
                            }
                        }
                    }
                    I::Gep { dst, base: b, off, idx } => {
                        let mut v = get!(*b);
                        if *off != 0 {
                            v = self.bin(Op::Add, 64, v, k(*off as u64 as u128));
                        }
                        for (o, w, sc) in idx.iter() {
                            let mut x = get!(*o);
                            if *w != 64 {
                                x = self.cast(if *w < 64 { CastK::SExt } else { CastK::Trunc }, *w as u32, 64, x);
                            }
                            if *sc != 1 {
                                x = if *sc > 0 && (*sc as u64).is_power_of_two() {
                                    self.bin(Op::Shl, 64, x, k(sc.trailing_zeros() as u128))
                                } else {
                                    self.bin(Op::Mul, 64, x, k(*sc as u64 as u128))
                                };
                            }
                            v = self.bin(Op::Add, 64, v, x);
                        }
                        regs!()[base + *dst as usize] = v;
                    }
                    I::Alloca { dst, size, count, align } => {
                        let n = get!(*count);
                        let n = self.concretize(n) as u64 * size;
                        let th = &mut self.th[cur];
                        let lim = th.stack_base - if cur == 0 { MAIN_STACK } else { THR_STACK };
                        let sp = th.sp.wrapping_sub(n.max(1)) & !(align.max(&1) - 1);
                        if sp < lim || sp > th.sp {
                            save!();
                            return err("STACKOVERFLOW");
                        }
                        th.sp = sp;
                        if sp < self.stack_lo_water[cur] {
                            self.stack_lo_water[cur] = sp;
                        }
                        regs!()[base + *dst as usize] = k(sp as u128);
                    }
                    I::Br(e) => edge!(*e),
                    I::CondBr(c, a, b) => {
                        let v = get!(*c);
                        let t = if v.s == 0 { v.c != 0 } else { self.branch(v) };
                        if t {
                            edge!(*a)
                        } else {
                            edge!(*b)
                        }
                    }
                    I::Switch { w, v, def, cases } => {
                        let x = get!(*v);
                        let tgt = cases.iter().find(|c| c.0 == x.c).map_or(*def, |c| c.1);
                        if x.s != 0 {
                            self.switch(f, x, *w as u32, *def, cases, tgt);
                        }
                        edge!(tgt);
                    }
                    I::Ret(vals) => {
                        let fr = self.th[cur].frames.pop().unwrap();
                        if fr.top {
                            let rv = if vals.is_empty() {
                                k(0)
                            } else {
                                match vals[0] {
                                    Opd::R(r) => self.th[cur].regs[base + r as usize],
                                    Opd::C(c) => k(c),
                                }
                            };
                            self.th[cur].regs.truncate(base);
                            self.th[cur].sp = fr.sp;
                            self.th[cur].retval = rv.c as u64;
                            if cur == 0 {
                                return Ok(());
                            }
                            self.th[cur].st = St::Done;
                            for t in self.th.iter_mut() {
                                if t.st == St::Join(cur) {
                                    t.st = St::Run;
                                }
                            }
                            self.schedule()?;
                            continue 'outer;
                        }
                        let cf = {
                            let c = self.th[cur].frames.last().unwrap();
                            (unsafe { &*c.f }, c.pc, c.base)
                        };
                        if let I::Call(ci) = &cf.0.ins[cf.1 as usize - 1] {
                            if ci.nret as usize == vals.len() {
                                for (i, o) in vals.iter().enumerate() {
                                    let v = get!(*o);
                                    regs!()[cf.2 as usize + ci.dst as usize + i] = v;
                                }
                            } else if ci.nret != 0 {
                                return err("return arity");
                            }
                        }
                        self.th[cur].regs.truncate(base);
                        self.th[cur].sp = fr.sp;
                        self.after_call();
                        continue 'outer;
                    }
                    I::Unreachable => {
                        save!();
                        return err("reached `unreachable`");
                    }
                    I::Copy { dst, src } => {
                        if src.len() == 1 {
                            let v = get!(src[0]);
                            regs!()[base + *dst as usize] = v;
                        } else {
                            for (i, o) in src.iter().enumerate() {
                                let v = get!(*o);
                                regs!()[base + *dst as usize + i] = v;
                            }
                        }
                    }
                    I::Select { c, a, b, w, dst } => {
                        for i in 0..w.len() {
                            let cv = if c.len() == 1 { get!(c[0]) } else { get!(c[i]) };
                            let x = get!(a[i]);
                            let y = get!(b[i]);
                            let v = if cv.s == 0 {
                                if cv.c & 1 != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else if w[i].1 && !(x.s == 0 && y.s == 0 && x.c == y.c) {
                                if self.branch(cv) {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite(cv, x, y, w[i].0 as u32)
                            };
                            regs!()[base + *dst as usize + i] = v;
                        }
                    }
                    I::InsElt { dst, vec, val, idx } => {
                        let ix = get!(*idx);
                        let ix = self.concretize(ix) as usize;
                        let nv = get!(*val);
                        for (i, o) in vec.iter().enumerate() {
                            let v = if i == ix { nv } else { get!(*o) };
                            regs!()[base + *dst as usize + i] = v;
                        }
                    }
                    I::ExtElt { dst, vec, idx } => {
                        let ix = get!(*idx);
                        let ix = self.concretize(ix) as usize;
                        let v = get!(vec[ix]);
                        regs!()[base + *dst as usize] = v;
                    }
                    I::Rmw { op, w, dst, ptr, v } => {
                        if self.sched_on && self.sched_point(&mut pc)? {
                            continue 'outer;
                        }
                        let p = get!(*ptr);
                        let a = self.concretize(p) as u64;
                        let w = *w as u32;
                        let old = self.load(a, w)?;
                        let x = get!(*v);
                        let nv = match op.as_str() {
                            "xchg" => x,
                            "add" => self.bin(Op::Add, w, old, x),
                            "sub" => self.bin(Op::Sub, w, old, x),
                            "and" => self.bin(Op::And, w, old, x),
                            "or" => self.bin(Op::Or, w, old, x),
                            "xor" => self.bin(Op::Xor, w, old, x),
                            "umax" => {
                                let c = self.bin(Op::Ult, w, old, x);
                                self.ite(c, x, old, w)
                            }
                            "umin" => {
                                let c = self.bin(Op::Ult, w, x, old);
                                self.ite(c, x, old, w)
                            }
                            _ => {
                                save!();
                                return err(format!("atomicrmw {}", op));
                            }
                        };
                        self.store(a, w, nv)?;
                        regs!()[base + *dst as usize] = old;
                    }
                    I::CmpXchg { w, dst, ptr, cmp, new, weak: _ } => {
                        if self.sched_on && self.sched_point(&mut pc)? {
                            continue 'outer;
                        }
                        let p = get!(*ptr);
                        let a = self.concretize(p) as u64;
                        let w = *w as u32;
                        let old = self.load(a, w)?;
                        let c = get!(*cmp);
                        let nv = get!(*new);
                        let eq = self.bin(Op::Eq, w, old, c);
                        if self.branch(eq) {
                            self.store(a, w, nv)?;
                            regs!()[base + *dst as usize + 1] = k(1);
                        } else {
                            regs!()[base + *dst as usize + 1] = k(0);
                        }
                        regs!()[base + *dst as usize] = old;
                    }
                    I::Fence => {}
                    I::LandingPad { dst, catch_all, cleanup: _ } => {
                        let e = self.th[cur].exc;
                        regs!()[base + *dst as usize] = k(e as u128);
                        regs!()[base + *dst as usize + 1] = k(*catch_all as u128);
                    }
                    I::Resume(_) => {
                        save!();
                        self.unwind_pop()?;
                        continue 'outer;
                    }
                    I::Fp { op, w, fw, dst, a, b } => {
                        let x = get!(*a);
                        let x = self.concretize(x);
                        let y = get!(*b);
                        let y = self.concretize(y);
                        match fp_op(op, *w as u32, *fw as u32, x, y) {
                            Some(r) => regs!()[base + *dst as usize] = k(r),
                            None => {
                                save!();
                                return err(format!("fp op {}", op));
                            }
                        }
                    }
                    I::Unsupported(s) => {
                        save!();
                        return err(format!("unsupported {}", s));
                    }
                    I::Call(ci) => {
                        let fi = match &ci.callee {
                            Callee::Nop => {
                                if let Some(e) = ci.normal {
                                    edge!(e);
                                }
                                continue;
                            }
                            Callee::Intr(i) => {
                                let args: Vec<V> = ci.args.iter().map(|o| get!(*o)).collect();
                                save!();
                                let mut out: [V; 34] = [k(0); 34];
                                let n = self.intrinsic(*i, ci, &args, &mut out)?;
                                for j in 0..n {
                                    regs!()[base + ci.dst as usize + j] = out[j];
                                }
                                if let Some(e) = ci.normal {
                                    edge!(e);
                                }
                                continue;
                            }
                            Callee::Func(i) => *i,
                            Callee::Reg(o) => {
                                let p = get!(*o);
                                let a = self.concretize(p) as u64;
                                let i = a.wrapping_sub(FN_BASE) / 16;
                                if a < FN_BASE || i as usize >= self.sh.m.funcs.len() {
                                    save!();
                                    return err(format!("MEMFAULT call through {:#x}", a));
                                }
                                i as usize
                            }
                            Callee::Unknown(n) => {
                                save!();
                                return err(format!("unknown callee {}", n));
                            }
                        };
                        let ext = self.sh.ext[fi];
                        if ext == Ext::None || ext == Ext::RustPanic {
                            save!();
                            if ext == Ext::RustPanic {
                                let a0 = get!(ci.args[0]).c as u64;
                                self.panic_loc = self.read_loc(a0);
                                if !self.unwind_mode {
                                    let l = self.panic_loc.clone();
                                    self.violate("panic", l, None);
                                    return Err(Stop::Violated);
                                }
                            }
                            // push frame with arguments copied straight into registers
                            let sh = self.sh.clone();
                            let cf = match sh.funcs[fi].get() {
                                Some(Ok(cf)) => cf,
                                _ => match sh.func(fi) {
                                    Ok(cf) => cf,
                                    Err(e) => return Err(Stop::Error(e)),
                                },
                            };
                            if ci.args.len() != cf.nparam_slots as usize {
                                return err(format!("arity mismatch calling {}", cf.name));
                            }
                            let th = &mut self.th[cur];
                            if th.frames.len() > 3000 {
                                return err("STACKOVERFLOW recursion depth over 3000");
                            }
                            let nb = th.regs.len();
                            th.regs.resize(nb + cf.nregs as usize, k(0));
                            for (i, o) in ci.args.iter().enumerate() {
                                th.regs[nb + i] = match *o {
                                    Opd::R(r) => th.regs[base + r as usize],
                                    Opd::C(c) => k(c),
                                };
                            }
                            let sp = th.sp;
                            th.frames.push(Frame { f: cf as *const Func, pc: 0, base: nb as u32, sp, top: false });
                            let cv = &mut self.cov[fi];
                            if cv.is_empty() {
                                cv.resize(cf.nblocks as usize, 0);
                            }
                            cv[0] = 1;
                            continue 'outer;
                        }
                        let args: Vec<V> = ci.args.iter().map(|o| get!(*o)).collect();
                        save!();
                        match self.external(ext, fi, ci, &args)? {
                            ExtRes::Ret(v) => {
                                if ci.nret >= 1 {
                                    regs!()[base + ci.dst as usize] = V { c: v.c & mask(ci.retw as u32), s: v.s };
                                }
                                if let Some(e) = ci.normal {
                                    edge!(e);
                                }
                            }
                            ExtRes::Switch => continue 'outer,
                            ExtRes::SetSwitch(v) => {
                                if ci.nret >= 1 {
                                    regs!()[base + ci.dst as usize] = k(v);
                                }
                                if let Some(e) = ci.normal {
                                    edge!(e);
                                }
                                save!();
                                self.schedule()?;
                                continue 'outer;
                            }
                        }
                    }
                }
            }
        }
    }

    fn after_call(&mut self) {
        // the frame on top has just received a return value from the call at pc-1
        let cur = self.cur;
        let (fp, pc, base) = {
            let c = self.th[cur].frames.last().unwrap();
            (c.f, c.pc, c.base as usize)
        };
        let f = unsafe { &*fp };
        if let I::Call(ci) = &f.ins[pc as usize - 1] {
            if let Some(e) = ci.normal {
                self.take_edge(f, e, base);
            }
        }
    }
    fn take_edge(&mut self, f: &Func, e: EdgeId, base: usize) {
        let ed = &f.edges[e as usize];
        let cur = self.cur;
        self.cov[f.idx][ed.block as usize] = 1;
        let vals: Vec<(u32, V)> = ed
            .moves
            .iter()
            .map(|(d, o)| {
                (
                    *d,
                    match *o {
                        Opd::R(r) => self.th[cur].regs[base + r as usize],
                        Opd::C(c) => k(c),
                    },
                )
            })
            .collect();
        for (d, v) in vals {
            self.th[cur].regs[base + d as usize] = v;
        }
        self.th[cur].frames.last_mut().unwrap().pc = ed.target;
    }

    /// unwind from the current top frame (whose pc is just past the throwing call)
    fn unwind(&mut self) -> R<()> {
        let cur = self.cur;
        loop {
            let (fp, pc, base, sp_keep) = match self.th[cur].frames.last() {
                None => return err("unwound past the thread entry"),
                Some(c) => (c.f, c.pc, c.base as usize, c.top),
            };
            let _ = sp_keep;
            let f = unsafe { &*fp };
            if let I::Call(ci) = &f.ins[pc as usize - 1] {
                if let Some(e) = ci.unwind {
                    self.take_edge(f, e, base);
                    return Ok(());
                }
            }
            let fr = self.th[cur].frames.pop().unwrap();
            self.th[cur].regs.truncate(fr.base as usize);
            self.th[cur].sp = fr.sp;
            if fr.top {
                self.violate("panic", format!("escaped: {}", self.panic_loc), None);
                return Err(Stop::Violated);
            }
        }
    }
    fn unwind_pop(&mut self) -> R<()> {
        let cur = self.cur;
        let fr = self.th[cur].frames.pop().unwrap();
        self.th[cur].regs.truncate(fr.base as usize);
        self.th[cur].sp = fr.sp;
        if fr.top {
            self.violate("panic", format!("escaped: {}", self.panic_loc), None);
            return Err(Stop::Violated);
        }
        self.unwind()
    }

    fn read_loc(&self, info: u64) -> String {
        let rd = |a: u64| -> u64 {
            let b = self.bytes(a, 8);
            if b.len() == 8 {
                u64::from_le_bytes(b.try_into().unwrap())
            } else {
                0
            }
        };
        let loc = rd(info + 8);
        if loc < GBASE || loc >= self.sh.mem_end {
            return "?".into();
        }
        let (p, n) = (rd(loc), rd(loc + 8));
        let lc = rd(loc + 16);
        if n > 300 {
            return "?".into();
        }
        let n2 = n;
        let s = String::from_utf8_lossy(&self.bytes(p, n2)).trim_end_matches('\0').to_string();
        format!("{}:{}", s, lc as u32)
    }

    fn switch(&mut self, f: &Func, x: V, w: u32, def: EdgeId, cases: &[(u128, EdgeId)], tgt: EdgeId) {
        // group by target block (phi inputs are equal for equal predecessor blocks)
        let tb = f.edges[tgt as usize].block;
        let db = f.edges[def as usize].block;
        let mut groups: Vec<(u32, E)> = vec![];
        let mut none = self.ar.konst(1, 1);
        for (kv, e) in cases {
            let b = f.edges[*e as usize].block;
            let kc = self.ar.konst(*kv, w);
            let q = self.ar.bin(Op::Eq, x.s, kc);
            let nq = self.ar.not(q);
            none = self.ar.bin(Op::And, none, nq);
            match groups.iter_mut().find(|g| g.0 == b) {
                Some(g) => g.1 = self.ar.bin(Op::Or, g.1, q),
                None => groups.push((b, q)),
            }
        }
        match groups.iter_mut().find(|g| g.0 == db) {
            Some(g) => g.1 = self.ar.bin(Op::Or, g.1, none),
            None => groups.push((db, none)),
        }
        let mut taken = 0;
        let mut alts = vec![];
        for (b, e) in groups {
            if b == tb {
                taken = e
            } else if self.ar.as_const(e) != Some(0) {
                alts.push(e)
            }
        }
        if self.ar.as_const(taken).is_some() || self.known.contains_key(&taken) {
            return;
        }
        self.decision(taken, &alts);
    }

    // ----------------------------------------------------------- intrinsics
    fn intrinsic(&mut self, i: Intr, ci: &CallI, a: &[V], out: &mut [V; 34]) -> R<usize> {
        use Intr::*;
        let lanes = ci.lanes as usize;
        let ovf = |me: &mut Self, op: Op, w: u32, signed: bool, x: V, y: V| -> R<(V, V)> {
            let r = me.bin(op, w, x, y);
            // exact result in a wider type
            let co = if signed {
                let (p, q) = (sext(x.c, w), sext(y.c, w));
                let t = match op {
                    Op::Add => p.checked_add(q),
                    Op::Sub => p.checked_sub(q),
                    _ => p.checked_mul(q),
                };
                t.map_or(true, |t| t != sext(r.c, w))
            } else {
                let t = match op {
                    Op::Add => x.c.checked_add(y.c),
                    Op::Sub => x.c.checked_sub(y.c),
                    _ => x.c.checked_mul(y.c),
                };
                t.map_or(true, |t| t != r.c)
            };
            if x.s | y.s == 0 {
                return Ok((r, k(co as u128)));
            }
            let (ex, ey) = (me.ex(x, w), me.ex(y, w));
            if signed && me.ar.never_overflows(op, ex, ey) {
                return Ok((r, k(0)));
            }
            let e = if !signed && op == Op::Add {
                let s = me.ar.bin(Op::Add, ex, ey);
                me.ar.bin(Op::Ult, s, ex)
            } else if !signed && op == Op::Sub {
                me.ar.bin(Op::Ult, ex, ey)
            } else {
                let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                if ww > 128 {
                    return err("wide overflow op");
                }
                let (wx, wy) = if signed { (me.ar.sext(ex, ww), me.ar.sext(ey, ww)) } else { (me.ar.zext(ex, ww), me.ar.zext(ey, ww)) };
                let full = me.ar.bin(op, wx, wy);
                let nar = me.ar.extract(full, 0, w);
                let back = if signed { me.ar.sext(nar, ww) } else { me.ar.zext(nar, ww) };
                let eq = me.ar.bin(Op::Eq, full, back);
                me.ar.not(eq)
            };
            Ok((r, me.mkv(co as u128, e)))
        };
        macro_rules! lanewise {
            ($f:expr) => {{
                for l in 0..lanes {
                    out[l] = $f(self, a[l], a[lanes + l]);
                }
                Ok(lanes)
            }};
        }
        match i {
            Nop => Ok(0),
            Assume => Ok(0),
            Memcpy => {
                let d = self.concretize(a[0]) as u64;
                let s = self.concretize(a[1]) as u64;
                let n = self.concretize(a[2]) as u64;
                self.copy(d, s, n)?;
                Ok(0)
            }
            Memset => {
                let d = self.concretize(a[0]) as u64;
                let n = self.concretize(a[2]) as u64;
                self.memset(d, a[1], n)?;
                Ok(0)
            }
            OvfSAdd(w) | OvfUAdd(w) | OvfSSub(w) | OvfUSub(w) | OvfSMul(w) | OvfUMul(w) => {
                let (op, s) = match i {
                    OvfSAdd(_) => (Op::Add, true),
                    OvfUAdd(_) => (Op::Add, false),
                    OvfSSub(_) => (Op::Sub, true),
                    OvfUSub(_) => (Op::Sub, false),
                    OvfSMul(_) => (Op::Mul, true),
                    _ => (Op::Mul, false),
                };
                let (mut x, mut y) = (a[0], a[1]);
                if op == Op::Mul && w > 64 && (x.s | y.s) != 0 {
                    x = k(self.concretize(x));
                    y = k(self.concretize(y));
                }
                let (r, o) = ovf(self, op, w, s, x, y)?;
                out[0] = r;
                out[1] = o;
                Ok(2)
            }
            Cttz(w) | Ctlz(w) | Ctpop(w) => {
                for l in 0..lanes {
                    let x = a[l];
                    let c = match i {
                        Cttz(_) => (x.c | (1u128.checked_shl(w).unwrap_or(0))).trailing_zeros().min(w) as u128,
                        Ctlz(_) => (x.c.leading_zeros() - (128 - w)) as u128,
                        _ => x.c.count_ones() as u128,
                    };
                    out[l] = if x.s == 0 {
                        k(c)
                    } else {
                        let mut e;
                        match i {
                            Ctpop(_) => {
                                e = self.ar.konst(0, w);
                                for b in 0..w {
                                    let bit = self.ar.extract(x.s, b, 1);
                                    let z = self.ar.zext(bit, w);
                                    e = self.ar.bin(Op::Add, e, z);
                                }
                            }
                            _ => {
                                e = self.ar.konst(w as u128, w);
                                for b in 0..w {
                                    // last ite added has priority
                                    let (pos, val) = if matches!(i, Cttz(_)) { (w - 1 - b, w - 1 - b) } else { (b, w - 1 - b) };
                                    let bit = self.ar.extract(x.s, pos, 1);
                                    let kv = self.ar.konst(val as u128, w);
                                    e = self.ar.ite(bit, kv, e);
                                }
                            }
                        }
                        self.mkv(c, e)
                    };
                }
                Ok(lanes)
            }
            Bswap(w) => {
                for l in 0..lanes {
                    let x = a[l];
                    let c = x.c.swap_bytes() >> (128 - w);
                    out[l] = if x.s == 0 {
                        k(c)
                    } else {
                        let mut e = 0;
                        for b in 0..w / 8 {
                            let by = self.ar.extract(x.s, b * 8, 8);
                            e = if b == 0 { by } else { self.ar.concat(e, by) };
                        }
                        self.mkv(c, e)
                    };
                }
                Ok(lanes)
            }
            BitRev(w) => {
                let x = self.concretize(a[0]);
                out[0] = k(x.reverse_bits() >> (128 - w));
                Ok(1)
            }
            Fshl(w) | Fshr(w) => {
                for l in 0..lanes {
                    let sh = self.concretize(a[2 * lanes + l]) % w as u128;
                    let left = matches!(i, Fshl(_));
                    let (hi, lo) = (a[l], a[lanes + l]);
                    out[l] = if sh == 0 {
                        if left {
                            hi
                        } else {
                            lo
                        }
                    } else {
                        let s = if left { sh } else { w as u128 - sh };
                        let p = self.bin(Op::Shl, w, hi, k(s));
                        let q = self.bin(Op::LShr, w, lo, k(w as u128 - s));
                        self.bin(Op::Or, w, p, q)
                    };
                }
                Ok(lanes)
            }
            UMin(w) => lanewise!(|me: &mut Self, x, y| {
                let c = me.bin(Op::Ult, w, x, y);
                me.ite(c, x, y, w)
            }),
            UMax(w) => lanewise!(|me: &mut Self, x, y| {
                let c = me.bin(Op::Ult, w, x, y);
                me.ite(c, y, x, w)
            }),
            SMin(w) => lanewise!(|me: &mut Self, x, y| {
                let c = me.bin(Op::Slt, w, x, y);
                me.ite(c, x, y, w)
            }),
            SMax(w) => lanewise!(|me: &mut Self, x, y| {
                let c = me.bin(Op::Slt, w, x, y);
                me.ite(c, y, x, w)
            }),
            Abs(w) => {
                for l in 0..lanes {
                    let x = a[l];
                    let c = self.bin(Op::Slt, w, x, k(0));
                    let n = self.bin(Op::Sub, w, k(0), x);
                    out[l] = self.ite(c, n, x, w);
                }
                Ok(lanes)
            }
            USubSat(w) => lanewise!(|me: &mut Self, x, y| {
                let c = me.bin(Op::Ult, w, x, y);
                let s = me.bin(Op::Sub, w, x, y);
                me.ite(c, k(0), s, w)
            }),
            UAddSat(w) => lanewise!(|me: &mut Self, x, y| {
                let s = me.bin(Op::Add, w, x, y);
                let c = me.bin(Op::Ult, w, s, x);
                me.ite(c, k(mask(w)), s, w)
            }),
            SSubSat(w) | SAddSat(w) => {
                let op = if matches!(i, SAddSat(_)) { Op::Add } else { Op::Sub };
                let (r, o) = ovf(self, op, w, true, a[0], a[1])?;
                let neg = self.bin(Op::Slt, w, a[0], k(0));
                let lo = k(1u128 << (w - 1));
                let hi = k((1u128 << (w - 1)) - 1);
                let s = self.ite(neg, lo, hi, w);
                out[0] = self.ite(o, s, r, w);
                Ok(1)
            }
            UCmp(rw, w) | SCmp(rw, w) => {
                let op = if matches!(i, UCmp(..)) { Op::Ult } else { Op::Slt };
                let lt = self.bin(op, w, a[0], a[1]);
                let eq = self.bin(Op::Eq, w, a[0], a[1]);
                let x = self.ite(eq, k(0), k(1), rw);
                out[0] = self.ite(lt, k(mask(rw)), x, rw);
                Ok(1)
            }
            Trap => {
                self.violate("abort", "llvm.trap".into(), None);
                Err(Stop::Violated)
            }
            TlsAddr => {
                let p = a[0].c as u64;
                out[0] = k((p + self.th[self.cur].tls) as u128);
                Ok(1)
            }
            Expect => {
                out[0] = a[0];
                Ok(1)
            }
            IsConstant => {
                out[0] = k(0);
                Ok(1)
            }
            ObjectSize => {
                out[0] = k(mask(64));
                Ok(1)
            }
            EhTypeid => {
                out[0] = k(1);
                Ok(1)
            }
            VecReduceOr(w) | VecReduceAnd(w) | VecReduceAdd(w) => {
                let op = match i {
                    VecReduceOr(_) => Op::Or,
                    VecReduceAnd(_) => Op::And,
                    _ => Op::Add,
                };
                let mut r = a[0];
                for l in 1..a.len() {
                    r = self.bin(op, w, r, a[l]);
                }
                out[0] = r;
                Ok(1)
            }
            Psad => {
                for h in 0..2 {
                    let mut r = k(0);
                    for j in 0..8 {
                        let (x, y) = (a[8 * h + j], a[16 + 8 * h + j]);
                        let c = self.bin(Op::Ult, 8, x, y);
                        let (p, q) = (self.bin(Op::Sub, 8, x, y), self.bin(Op::Sub, 8, y, x));
                        let d = self.ite(c, q, p, 8);
                        let d = self.cast(CastK::ZExt, 8, 64, d);
                        r = self.bin(Op::Add, 64, r, d);
                    }
                    out[h] = r;
                }
                Ok(2)
            }
            Pmadd => {
                for h in 0..4 {
                    let mut r = k(0);
                    for j in 0..2 {
                        let x = self.cast(CastK::SExt, 16, 32, a[2 * h + j]);
                        let y = self.cast(CastK::SExt, 16, 32, a[8 + 2 * h + j]);
                        let d = self.bin(Op::Mul, 32, x, y);
                        r = self.bin(Op::Add, 32, r, d);
                    }
                    out[h] = r;
                }
                Ok(4)
            }
            Cpuid => {
                // a processor without optional features
                for o in out.iter_mut().take(4) {
                    *o = k(0);
                }
                Ok(4)
            }
            PtrMask => {
                out[0] = self.bin(Op::And, 64, a[0], a[1]);
                Ok(1)
            }
        }
    }
    fn memset(&mut self, d: u64, v: V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.chk(d, n)?;
        if v.s != 0 {
            for i in 0..n {
                self.store(d + i, 8, v)?;
            }
            return Ok(());
        }
        let n = n as usize;
        self.mem[o..o + n].iter_mut().for_each(|x| *x = v.c as u8);
        if self.flagged(o, n) {
            self.shadow[o..o + n].iter_mut().for_each(|x| *x = 0);
        }
        Ok(())
    }

    // ------------------------------------------------------------ externals
    fn cstr_arg(&self, p: V, n: V) -> String {
        String::from_utf8_lossy(&self.bytes(p.c as u64, n.c as u64)).to_string()
    }
    fn external(&mut self, ext: Ext, fi: usize, _ci: &CallI, a: &[V]) -> R<ExtRes> {
        use ExtRes::*;
        let ret = |c: u64| Ok(Ret(k(c as u128)));
        match ext {
            Ext::None | Ext::RustPanic => unreachable!(),
            Ext::Bytes => {
                let p = a[0].c as u64;
                let n = self.concretize(a[1]) as u64;
                for i in 0..n {
                    let v = self.new_var();
                    self.store(p + i, 8, v)?;
                }
                ret(0)
            }
            Ext::Choice => {
                let n = a[0].c as u64;
                let r = self.choose(n)?;
                ret(r)
            }
            Ext::Assume => {
                let c = self.truth(a[0]);
                self.assume(c)?;
                ret(0)
            }
            Ext::Assert => {
                let c = self.truth(a[0]);
                let name = self.cstr_arg(a[1], a[2]);
                if c.s == 0 {
                    self.st.assert_conc += 1;
                } else {
                    self.st.assert_sym += 1;
                }
                if c.c == 0 {
                    self.violate("assert", name, None);
                    // the passing side still has to be explored
                    if c.s != 0 {
                        let ne = self.ar.not(c.s);
                        self.decision(ne, &[c.s]);
                    }
                    return Err(Stop::Violated);
                }
                if c.s != 0 {
                    let ne = self.ar.not(c.s);
                    if !self.known.contains_key(&c.s) {
                        let j = self.ndec;
                        self.ndec += 1;
                        if j >= self.bound {
                            if let Some(inp) = self.sat(ne) {
                                self.violate("assert", name, Some(inp));
                            }
                        }
                        // holds on this path from here on
                        if self.ar.is_hard(c.s) {
                            self.known.insert(c.s, ());
                        } else {
                            self.add_pc(c.s);
                        }
                    }
                }
                ret(0)
            }
            Ext::Fail => {
                let name = self.cstr_arg(a[0], a[1]);
                self.violate("assert", name, None);
                Err(Stop::Violated)
            }
            Ext::Reach => {
                let name = self.cstr_arg(a[0], a[1]);
                self.reached.insert(name);
                ret(0)
            }
            Ext::Observe => {
                let n = self.concretize(a[1]) as u64;
                for b in self.bytes(a[0].c as u64, n) {
                    self.obs = (self.obs ^ b as u64).wrapping_mul(0x100000001b3);
                }
                self.obs = (self.obs ^ 0x1ff).wrapping_mul(0x100000001b3);
                ret(0)
            }
            Ext::PanicMode => {
                self.unwind_mode = a[0].c & 1 != 0;
                ret(0)
            }
            Ext::SchedMode => {
                // number of preemptions allowed from here on; negative: off
                let b = sext(a[0].c & mask(32), 32) as i64;
                self.sched_on = b >= 0;
                self.sched_budget = b;
                ret(0)
            }
            Ext::IsSym => ret(1),
            Ext::Bound => ret(TIER.load(std::sync::atomic::Ordering::Relaxed)),
            Ext::StepLimit => {
                self.cur_limit = self.steps + a[0].c as u64;
                ret(0)
            }
            Ext::Malloc => {
                let n = self.concretize(a[0]) as u64;
                let p = self.alloc(n, 16)?;
                ret(p)
            }
            Ext::Calloc => {
                let n = self.concretize(a[0]) as u64 * self.concretize(a[1]) as u64;
                let p = self.alloc(n, 16)?;
                ret(p)
            }
            Ext::PosixMemalign => {
                let al = self.concretize(a[1]) as u64;
                let n = self.concretize(a[2]) as u64;
                let p = self.alloc(n, al)?;
                self.store(a[0].c as u64, 64, k(p as u128))?;
                ret(0)
            }
            Ext::Realloc => {
                let p = a[0].c as u64;
                let n = self.concretize(a[1]) as u64;
                let q = self.alloc(n, 16)?;
                if p != 0 {
                    let old = u64::from_le_bytes(self.bytes(p - 16, 8).try_into().unwrap());
                    self.copy(q, p, old.min(n))?;
                }
                ret(q)
            }
            Ext::Free => ret(0),
            Ext::Memcpy => {
                let d = self.concretize(a[0]) as u64;
                let s = self.concretize(a[1]) as u64;
                let n = self.concretize(a[2]) as u64;
                self.copy(d, s, n)?;
                ret(d)
            }
            Ext::Memset => {
                let d = self.concretize(a[0]) as u64;
                let n = self.concretize(a[2]) as u64;
                let v = self.cast(CastK::Trunc, 32, 8, a[1]);
                self.memset(d, v, n)?;
                ret(d)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let p = self.concretize(a[0]) as u64;
                let q = self.concretize(a[1]) as u64;
                let n = self.concretize(a[2]) as u64;
                let mut r = k(0);
                for i in (0..n).rev() {
                    let x = self.load(p + i, 8)?;
                    let y = self.load(q + i, 8)?;
                    if x.s == 0 && y.s == 0 && x.c == y.c {
                        continue;
                    }
                    let eq = self.bin(Op::Eq, 8, x, y);
                    let d = if ext == Ext::Bcmp {
                        k(1)
                    } else {
                        let lt = self.bin(Op::Ult, 8, x, y);
                        self.ite(lt, k(mask(32)), k(1), 32)
                    };
                    r = self.ite(eq, r, d, 32);
                }
                Ok(Ret(r))
            }
            Ext::Memchr => {
                let p = self.concretize(a[0]) as u64;
                let n = self.concretize(a[2]) as u64;
                let c = self.cast(CastK::Trunc, 32, 8, a[1]);
                for i in 0..n {
                    let x = self.load(p + i, 8)?;
                    let eq = self.bin(Op::Eq, 8, x, c);
                    if self.branch(eq) {
                        return ret(p + i);
                    }
                }
                ret(0)
            }
            Ext::Strlen => {
                let p = self.concretize(a[0]) as u64;
                let mut i = 0;
                loop {
                    let x = self.load(p + i, 8)?;
                    let eq = self.bin(Op::Eq, 8, x, k(0));
                    if self.branch(eq) {
                        return ret(i);
                    }
                    i += 1;
                }
            }
            Ext::Zero => ret(0),
            Ext::Minus1 => ret(u64::MAX),
            Ext::Write => {
                let n = self.concretize(a[2]) as u64;
                if self.trace {
                    eprint!("{}", String::from_utf8_lossy(&self.bytes(a[1].c as u64, n)));
                }
                ret(n)
            }
            Ext::Writev => {
                let mut t = 0;
                for i in 0..a[2].c as u64 {
                    let l = self.load(a[1].c as u64 + i * 16 + 8, 64)?;
                    t += l.c as u64;
                }
                ret(t)
            }
            Ext::Abort => {
                let n = self.sh.m.funcs[fi].name.clone();
                self.violate("abort", format!("{} {}", n, self.panic_loc), None);
                Err(Stop::Violated)
            }
            Ext::Errno => {
                // per-thread cell on the thread's stack top
                let t = self.cur;
                if self.th[t].errno == 0 {
                    let p = self.alloc(8, 8)?;
                    self.th[t].errno = p;
                }
                ret(self.th[t].errno)
            }
            Ext::Getrandom => {
                let n = self.concretize(a[1]) as u64;
                self.memset(a[0].c as u64, k(7), n)?;
                ret(n)
            }
            Ext::RaiseException => {
                if !self.unwind_mode {
                    let l = self.panic_loc.clone();
                    self.violate("panic", l, None);
                    return Err(Stop::Violated);
                }
                self.th[self.cur].exc = a[0].c as u64;
                self.unwind()?;
                Ok(Switch)
            }
            Ext::DeleteException => ret(0),
            Ext::Syscall => self.syscall(a),
            Ext::PthreadCreate => {
                if self.th.len() >= MAX_THREADS {
                    return ret(11);
                }
                let entry = (a[2].c as u64 - FN_BASE) / 16;
                let t = self.new_thread();
                self.store(a[0].c as u64, 64, k(t as u128 + 1))?;
                self.push_frame(t, entry as usize, &[a[3]], true)?;
                if self.sched_on {
                    // the new thread may run first
                    if self.sched_budget > 0 && self.choose(2)? == 1 {
                        self.sched_budget -= 1;
                        return Ok(SetSwitch(0));
                    }
                }
                ret(0)
            }
            Ext::PthreadJoin => {
                let t = a[0].c as usize - 1;
                if self.th[t].st == St::Done {
                    return ret(0);
                }
                self.th[self.cur].st = St::Join(t);
                Ok(SetSwitch(0))
            }
            Ext::PthreadSelf => ret(self.cur as u64 + 1),
            Ext::Sysconf => ret(match a[0].c as u64 & 0xffffffff {
                30 => 4096,
                83 | 84 => 2,
                _ => 65536,
            }
            ),
            Ext::KeyCreate => {
                self.nkeys += 1;
                let n = self.nkeys;
                self.store(a[0].c as u64, 32, k(n as u128))?;
                ret(0)
            }
            Ext::GetSpecific => {
                let key = a[0].c as u64;
                ret(self.th[self.cur].spec.get(&key).copied().unwrap_or(0))
            }
            Ext::SetSpecific => {
                let t = self.cur;
                self.th[t].spec.insert(a[0].c as u64, a[1].c as u64);
                ret(0)
            }
            Ext::Nanosleep | Ext::Yield => {
                if self.th.len() > 1 {
                    self.clock += 1_000_000;
                    return Ok(SetSwitch(0));
                }
                ret(0)
            }
            Ext::ClockGettime => {
                self.gettime(a[1].c as u64)?;
                ret(0)
            }
            Ext::Close => ret(0),
            Ext::Unsupported => {
                let n = &self.sh.m.funcs[fi].name;
                err(format!("external function {}", n))
            }
        }
    }
    fn truth(&mut self, v: V) -> V {
        let c = (v.c & 1 != 0) as u128;
        if v.s == 0 {
            return k(c);
        }
        let e = self.ar.extract(v.s, 0, 1);
        self.mkv(c, e)
    }

    fn syscall(&mut self, a: &[V]) -> R<ExtRes> {
        let ret = |c: u64| Ok(ExtRes::Ret(k(c as u128)));
        match a[0].c as u64 {
            202 => {
                let addr = a[1].c as u64;
                let op = a[2].c as u64 & 0x7f;
                match op {
                    0 | 9 => {
                        let v = self.load(addr, 32)?;
                        if v.c as u32 != a[3].c as u32 {
                            self.set_errno(11)?;
                            return ret(u64::MAX);
                        }
                        let t = self.cur;
                        let to = a.get(4).map_or(0, |x| x.c as u64) != 0;
                        self.th[t].timed_out = false;
                        self.th[t].st = St::Futex(addr, to);
                        // result is patched when timing out
                        Ok(ExtRes::SetSwitch(0))
                    }
                    1 | 10 => {
                        let n = a[3].c as u32;
                        let mut woken = 0;
                        // all waiters on the word are candidates; wake in index order, or
                        // choose when there are more waiters than wakeups
                        loop {
                            if woken >= n as u64 {
                                break;
                            }
                            let w: Vec<usize> = (0..self.th.len()).filter(|&t| matches!(self.th[t].st, St::Futex(x, _) if x == addr)).collect();
                            if w.is_empty() {
                                break;
                            }
                            let i = if self.sched_on && (w.len() as u64) > (n as u64 - woken) { self.choose(w.len() as u64)? as usize } else { 0 };
                            self.th[w[i]].st = St::Run;
                            woken += 1;
                        }
                        ret(woken)
                    }
                    _ => err(format!("futex op {}", op)),
                }
            }
            318 => {
                let n = self.concretize(a[2]) as u64;
                self.memset(a[1].c as u64, k(7), n)?;
                ret(n)
            }
            186 => ret(self.cur as u64 + 100),
            228 => {
                self.gettime(a[2].c as u64)?;
                ret(0)
            }
            n => err(format!("syscall {}", n)),
        }
    }
    fn gettime(&mut self, p: u64) -> R<()> {
        self.clock += 1000;
        let c = self.clock;
        self.store(p, 64, k((c / 1_000_000_000) as u128))?;
        self.store(p + 8, 64, k((c % 1_000_000_000) as u128))
    }
    fn set_errno(&mut self, v: u32) -> R<()> {
        let t = self.cur;
        if self.th[t].errno == 0 {
            let p = self.alloc(8, 8)?;
            self.th[t].errno = p;
        }
        let p = self.th[t].errno;
        self.store(p, 32, k(v as u128))
    }

    // ------------------------------------------------------------ scheduling
    /// voluntary or forced switch: pick the next runnable thread
    fn schedule(&mut self) -> R<()> {
        let n = self.th.len();
        let mut cand: Vec<usize> = (1..=n).map(|d| (self.cur + d) % n).filter(|&t| self.th[t].st == St::Run).collect();
        if cand.is_empty() {
            // time passes: sleepers with a timeout wake
            let to: Vec<usize> = (0..n).filter(|&t| matches!(self.th[t].st, St::Futex(_, true))).collect();
            if to.is_empty() {
                if std::env::var("STARRY_THREADS").is_ok() {
                    let cur = self.cur;
                    for t in 0..n {
                        self.cur = t;
                        eprintln!("thread {} {}", t, self.backtrace().into_iter().take(7).collect::<Vec<_>>().join(" < "));
                    }
                    self.cur = cur;
                }
                self.violate("deadlock", format!("all {} threads blocked", n), None);
                return Err(Stop::Violated);
            }
            let i = if to.len() > 1 && self.sched_on { self.choose(to.len() as u64)? as usize } else { 0 };
            let t = to[i];
            self.th[t].st = St::Run;
            self.th[t].timed_out = true;
            self.clock += 1_000_000_000;
            // patch the result of the futex call
            let save = self.cur;
            self.cur = t;
            self.set_errno(110)?;
            self.cur = save;
            let (fp, pc, base) = {
                let c = self.th[t].frames.last().unwrap();
                (c.f, c.pc, c.base as usize)
            };
            let _ = (fp, pc, base);
            self.patch_ret(t);
            cand = vec![t];
        }
        // round robin; every other choice counts as a deviation
        let i = if self.sched_on && self.sched_budget > 0 && cand.len() > 1 {
            self.st.sched_choices += 1;
            let i = self.choose(cand.len() as u64)? as usize;
            if i > 0 {
                self.sched_budget -= 1;
            }
            i
        } else {
            0
        };
        self.cur = cand[i];
        Ok(())
    }
    fn patch_ret(&mut self, t: usize) {
        // the futex call was the instruction before pc (calls to `syscall` are plain calls or
        // invokes; for invokes the normal edge was already taken, std uses plain calls)
        let (fp, pc, base) = {
            let c = self.th[t].frames.last().unwrap();
            (c.f, c.pc, c.base as usize)
        };
        let f = unsafe { &*fp };
        if let I::Call(ci) = &f.ins[pc as usize - 1] {
            self.th[t].regs[base + ci.dst as usize] = k(mask(ci.retw as u32));
        }
    }
    /// possible preemption before the instruction at pc-1
    fn sched_point(&mut self, pc: &mut usize) -> R<bool> {
        if self.sched_budget <= 0 {
            return Ok(false);
        }
        let n = self.th.len();
        let cand: Vec<usize> = (1..n).map(|d| (self.cur + d) % n).filter(|&t| self.th[t].st == St::Run).collect();
        if cand.is_empty() {
            return Ok(false);
        }
        let i = self.choose(cand.len() as u64 + 1)? as usize;
        if i == 0 {
            return Ok(false);
        }
        self.st.preempts += 1;
        self.sched_budget -= 1;
        // re-execute the instruction when resumed
        self.th[self.cur].frames.last_mut().unwrap().pc = *pc as u32 - 1;
        self.cur = cand[i - 1];
        Ok(true)
    }
}

pub enum ExtRes {
    Ret(V),
    Switch,
    SetSwitch(u128),
}

fn fp_op(op: &str, w: u32, fw: u32, a: u128, b: u128) -> Option<u128> {
    let f = |x: u128, w: u32| if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
    let back = |x: f64, w: u32| if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
    Some(match op {
        "fadd" => back(f(a, w) + f(b, w), w),
        "fsub" => back(f(a, w) - f(b, w), w),
        "fmul" => back(f(a, w) * f(b, w), w),
        "fdiv" => back(f(a, w) / f(b, w), w),
        "frem" => back(f(a, w) % f(b, w), w),
        "fneg" => back(-f(a, w), w),
        "fpext" | "fptrunc" => back(f(a, fw), w),
        "fptoui" => (f(a, fw) as u128) & mask(w),
        "fptosi" => (f(a, fw) as i128 as u128) & mask(w),
        "uitofp" => back(a as f64, w),
        "sitofp" => back(sext(a, fw) as f64, w),
        _ => {
            let (x, y) = (f(a, fw), f(b, fw));
            let un = x.is_nan() || y.is_nan();
            (match op.strip_prefix("fcmp.")? {
                "oeq" => x == y,
                "one" => x != y && !un,
                "olt" => x < y,
                "ole" => x <= y,
                "ogt" => x > y,
                "oge" => x >= y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "une" => un || x != y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                _ => return None,
            }) as u128
        }
    })
}
