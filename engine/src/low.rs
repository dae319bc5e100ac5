//! Lowering of one IR function to a flat instruction vector.
use crate::expr::Op as EOp;
use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
}

pub type EdgeId = u32;

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // pc
    pub block: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Copy,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(usize),
    Intr(Intr),
    Reg(Opd),
    Nop,
    Unknown(String),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    Nop,
    Assume,
    OvfSAdd(u32),
    OvfUAdd(u32),
    OvfSSub(u32),
    OvfUSub(u32),
    OvfSMul(u32),
    OvfUMul(u32),
    Cttz(u32),
    Ctlz(u32),
    Ctpop(u32),
    Bswap(u32),
    BitRev(u32),
    Fshl(u32),
    Fshr(u32),
    UMin(u32),
    UMax(u32),
    SMin(u32),
    SMax(u32),
    Abs(u32),
    USubSat(u32),
    UAddSat(u32),
    SSubSat(u32),
    SAddSat(u32),
    UCmp(u32, u32),
    SCmp(u32, u32),
    Trap,
    TlsAddr,
    Expect,
    IsConstant,
    ObjectSize,
    EhTypeid,
    VecReduceOr(u32),
    VecReduceAnd(u32),
    VecReduceAdd(u32),
    Psad,
    Pmadd,
    Cpuid,
    PtrMask,
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    /// flattened argument operands and their bit width
    pub args: Box<[Opd]>,
    pub argw: Box<[u16]>,
    pub dst: u32,
    pub nret: u32,
    pub retw: u16,
    /// lanes for vector intrinsics (1 otherwise)
    pub lanes: u32,
    pub normal: Option<EdgeId>,
    pub unwind: Option<EdgeId>,
    /// byval argument indices with size
    pub byval: Box<[(u32, u32)]>,
}

#[derive(Debug)]
pub enum I {
    Bin { op: EOp, neg: bool, w: u16, dst: u32, a: Box<[(Opd, Opd)]> },
    VCast { k: CastK, fw: u16, tw: u16, dst: u32, a: Box<[Opd]> },
    Bin1 { op: EOp, w: u16, dst: u32, a: Opd, b: Opd },
    Icmp { op: EOp, neg: bool, w: u16, dst: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u16, tw: u16, dst: u32, a: Opd },
    /// reinterpret lanes (from widths to widths)
    Bitcast { dst: u32, a: Box<[Opd]>, fw: u16, tw: u16, tn: u16 },
    Load { dst: u32, ptr: Opd, leaves: Box<[(u32, u16, bool)]>, atomic: bool },
    Store { src: Box<[Opd]>, ptr: Opd, leaves: Box<[(u32, u16, bool)]>, atomic: bool },
    Gep { dst: u32, base: Opd, off: i64, idx: Box<[(Opd, u16, i64)]> },
    Alloca { dst: u32, size: u64, count: Opd, align: u64 },
    Br(EdgeId),
    CondBr(Opd, EdgeId, EdgeId),
    Switch { w: u16, v: Opd, def: EdgeId, cases: Box<[(u128, EdgeId)]> },
    Ret(Box<[Opd]>),
    Unreachable,
    Call(Box<CallI>),
    Select { c: Box<[Opd]>, a: Box<[Opd]>, b: Box<[Opd]>, w: Box<[(u16, bool)]>, dst: u32 },
    Copy { dst: u32, src: Box<[Opd]> },
    /// dynamic element insert/extract
    InsElt { dst: u32, vec: Box<[Opd]>, val: Opd, idx: Opd },
    ExtElt { dst: u32, vec: Box<[Opd]>, idx: Opd },
    Rmw { op: String, w: u16, dst: u32, ptr: Opd, v: Opd },
    CmpXchg { w: u16, dst: u32, ptr: Opd, cmp: Opd, new: Opd, weak: bool },
    Fence,
    LandingPad { dst: u32, catch_all: bool, cleanup: bool },
    Resume(Opd),
    Fp { op: String, w: u16, fw: u16, dst: u32, a: Opd, b: Opd },
    Unsupported(String),
}

pub struct Func {
    pub idx: usize,
    pub name: String,
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub params: Vec<u32>, // slots per param
    pub nparam_slots: u32,
    pub nblocks: u32,
    /// block id for every pc range: start pcs
    pub bstart: Vec<u32>,
}

pub trait Env {
    fn module(&self) -> &Module;
    fn global_addr(&self, name: &str) -> Option<u64>;
}

pub fn const_scalar(env: &dyn Env, c: &Const) -> Result<u128, String> {
    Ok(match c {
        Const::Int(v) => *v,
        Const::Undef | Const::Zero => 0,
        Const::Global(g) => {
            if let Some(a) = env.global_addr(g) {
                a as u128
            } else {
                return Err(format!("unknown global {}", g));
            }
        }
        Const::Cast(c) => const_scalar(env, c)?,
        Const::Trunc(w, c) => const_scalar(env, c)? & crate::expr::mask(*w),
        Const::Gep(t, base, idx) => {
            let b = const_scalar(env, base)? as u64;
            let m = env.module();
            let mut off = 0i64;
            let mut cur = t.clone();
            for (i, (it, c)) in idx.iter().enumerate() {
                let w = m.bits(it);
                let v = crate::expr::sext(const_scalar(env, c)? & crate::expr::mask(w), w) as i64;
                if i == 0 {
                    off += v * m.size_align(&cur).0 as i64;
                } else {
                    let r = m.resolve(&cur).clone();
                    match r {
                        Ty::Struct(f, p) => {
                            off += m.field_offset(&f, p, v as usize) as i64;
                            cur = f[v as usize].clone();
                        }
                        Ty::Array(_, e) | Ty::Vec(_, e) => {
                            off += v * m.size_align(&e).0 as i64;
                            cur = *e;
                        }
                        _ => return Err("const gep".into()),
                    }
                }
            }
            b.wrapping_add(off as u64) as u128
        }
        Const::Bin(op, t, a, b) => {
            let w = env.module().bits(t);
            let x = const_scalar(env, a)?;
            let y = const_scalar(env, b)?;
            crate::expr::mask(w)
                & match *op {
                    "sub" => x.wrapping_sub(y),
                    "add" => x.wrapping_add(y),
                    _ => x ^ y,
                }
        }
        c => return Err(format!("scalar const {:?}", c)),
    })
}

/// flatten a constant to scalar leaves
pub fn const_slots(env: &dyn Env, t: &Ty, c: &Const, out: &mut Vec<u128>) -> Result<(), String> {
    let m = env.module();
    let t = m.resolve(t).clone();
    match (&t, c) {
        (Ty::Struct(..), Const::Zero | Const::Undef) | (Ty::Array(..), Const::Zero | Const::Undef) | (Ty::Vec(..), Const::Zero | Const::Undef) => {
            for _ in 0..m.nslots(&t) {
                out.push(0);
            }
        }
        (Ty::Vec(n, _), Const::Splat(b)) => {
            let w = m.bits(&b.0);
            let v = const_scalar(env, &b.1)? & crate::expr::mask(w);
            for _ in 0..*n {
                out.push(v);
            }
        }
        (_, Const::Agg(l)) => {
            for (t, c) in l {
                const_slots(env, t, c, out)?;
            }
        }
        (_, Const::Bytes(b)) => {
            for x in b {
                out.push(*x as u128);
            }
        }
        _ => {
            let w = m.bits(&t);
            out.push(const_scalar(env, c)? & crate::expr::mask(w));
        }
    }
    Ok(())
}

/// write a constant initializer into bytes
pub fn const_bytes(env: &dyn Env, t: &Ty, c: &Const, buf: &mut [u8]) -> Result<(), String> {
    let m = env.module();
    let t = m.resolve(t).clone();
    match (&t, c) {
        (_, Const::Zero) | (_, Const::Undef) => {}
        (_, Const::Bytes(b)) => buf[..b.len()].copy_from_slice(b),
        (Ty::Struct(f, p), Const::Agg(l)) => {
            for (i, (ft, fc)) in l.iter().enumerate() {
                let o = m.field_offset(f, *p, i) as usize;
                let s = m.size_align(ft).0 as usize;
                const_bytes(env, ft, fc, &mut buf[o..o + s])?;
            }
        }
        (Ty::Array(_, _), Const::Agg(l)) | (Ty::Vec(_, _), Const::Agg(l)) => {
            let mut o = 0;
            for (ft, fc) in l {
                let s = m.size_align(ft).0 as usize;
                const_bytes(env, ft, fc, &mut buf[o..o + s])?;
                o += s;
            }
        }
        (Ty::Vec(n, e), Const::Splat(b)) => {
            let s = m.size_align(e).0 as usize;
            for i in 0..*n as usize {
                const_bytes(env, e, &b.1, &mut buf[i * s..i * s + s])?;
            }
        }
        _ => {
            let v = const_scalar(env, c)?;
            let s = m.size_align(&t).0 as usize;
            buf[..s].copy_from_slice(&v.to_le_bytes()[..s]);
        }
    }
    Ok(())
}

struct Lower<'m> {
    env: &'m dyn Env,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
    /// registers and instructions for sub-byte vectors in memory
    extra: std::cell::Cell<u32>,
    pre: std::cell::RefCell<Vec<I>>,
}

impl<'m> Lower<'m> {
    fn m(&self) -> &'m Module {
        self.env.module()
    }
    fn val(&self, l: &mut Lex, ty: &Ty) -> Result<Vec<Opd>, String> {
        let v = l.value(ty)?;
        self.opds(&v, ty)
    }
    fn opds(&self, v: &Val, ty: &Ty) -> Result<Vec<Opd>, String> {
        match v {
            Val::Local(n) => {
                let (r, t) = self.regs.get(n).ok_or_else(|| format!("undefined %{}", n))?;
                let k = self.m().nslots(t);
                Ok((0..k as u32).map(|i| Opd::R(r + i)).collect())
            }
            Val::C(c) => {
                let mut o = vec![];
                const_slots(self.env, ty, c, &mut o)?;
                Ok(o.into_iter().map(Opd::C).collect())
            }
            Val::Meta => Ok(vec![]),
        }
    }
    fn val1(&self, l: &mut Lex, ty: &Ty) -> Result<Opd, String> {
        let v = self.val(l, ty)?;
        if v.len() != 1 {
            return Err(format!("scalar expected for {:?}", ty));
        }
        Ok(v[0])
    }
}

fn split_body(body: &str) -> Vec<(Option<String>, Vec<&str>)> {
    // returns blocks: (label, instruction slices)
    let mut blocks: Vec<(Option<String>, Vec<&str>)> = vec![(None, vec![])];
    let mut pos = 0;
    let n = body.len();
    let bytes = body.as_bytes();
    while pos < n {
        let e = memchr(bytes, pos, b'\n').unwrap_or(n);
        let line = &body[pos..e];
        let start = pos;
        pos = e + 1;
        if line.is_empty() {
            continue;
        }
        let t = line.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let lab = if let Some(r) = line.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                line[..line.find(':').unwrap()].to_string()
            };
            if blocks.len() == 1 && blocks[0].0.is_none() && blocks[0].1.is_empty() {
                blocks[0].0 = Some(lab);
            } else {
                blocks.push((Some(lab), vec![]));
            }
            continue;
        }
        // multi-line instructions
        let mut end = e;
        if t.starts_with("switch ") && line.trim_end().ends_with('[') {
            loop {
                let e2 = memchr(bytes, pos, b'\n').unwrap_or(n);
                let l2 = &body[pos..e2];
                end = e2;
                pos = e2 + 1;
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
        } else {
            while pos < n {
                let e2 = memchr(bytes, pos, b'\n').unwrap_or(n);
                let l2 = &body[pos..e2];
                if l2.starts_with("          ") {
                    end = e2;
                    pos = e2 + 1;
                } else {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(&body[start..end]);
    }
    blocks
}

fn dbg_of(s: &str) -> u32 {
    if let Some(i) = s.rfind("!dbg !") {
        let t: String = s[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
        return t.parse().unwrap_or(0);
    }
    0
}

fn intrinsic(name: &str, m: &Module, argt: &[Ty]) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let w = argt.first().map(|t| match m.resolve(t) {
        Ty::Vec(_, e) => m.bits(e),
        t => m.bits(t),
    });
    let w = w.unwrap_or(0);
    let st = |p: &str| n.starts_with(p);
    Some(if st("x86.sse2.psad.bw") {
        Intr::Psad
    } else if st("x86.sse2.pmadd.wd") {
        Intr::Pmadd
    } else if st("memcpy.") || st("memmove.") || st("memcpy.inline") {
        Intr::Memcpy
    } else if st("memset.") {
        Intr::Memset
    } else if st("assume") {
        Intr::Assume
    } else if st("lifetime") || st("experimental.noalias") || st("dbg.") || st("donothing") || st("x86.sse2.pause") || st("prefetch") || st("invariant.") || st("var.annotation") || st("fake.use") || st("sideeffect") {
        Intr::Nop
    } else if st("sadd.with") {
        Intr::OvfSAdd(w)
    } else if st("uadd.with") {
        Intr::OvfUAdd(w)
    } else if st("ssub.with") {
        Intr::OvfSSub(w)
    } else if st("usub.with") {
        Intr::OvfUSub(w)
    } else if st("smul.with") {
        Intr::OvfSMul(w)
    } else if st("umul.with") {
        Intr::OvfUMul(w)
    } else if st("cttz.") {
        Intr::Cttz(w)
    } else if st("ctlz.") {
        Intr::Ctlz(w)
    } else if st("ctpop.") {
        Intr::Ctpop(w)
    } else if st("bswap.") {
        Intr::Bswap(w)
    } else if st("bitreverse.") {
        Intr::BitRev(w)
    } else if st("fshl.") {
        Intr::Fshl(w)
    } else if st("fshr.") {
        Intr::Fshr(w)
    } else if st("umin.") {
        Intr::UMin(w)
    } else if st("umax.") {
        Intr::UMax(w)
    } else if st("smin.") {
        Intr::SMin(w)
    } else if st("smax.") {
        Intr::SMax(w)
    } else if st("abs.") {
        Intr::Abs(w)
    } else if st("usub.sat") {
        Intr::USubSat(w)
    } else if st("uadd.sat") {
        Intr::UAddSat(w)
    } else if st("ssub.sat") {
        Intr::SSubSat(w)
    } else if st("sadd.sat") {
        Intr::SAddSat(w)
    } else if st("ucmp.") || st("scmp.") {
        // llvm.ucmp.i8.i64
        let rw: u32 = n.split('.').nth(1)?.trim_start_matches('i').parse().ok()?;
        if st("ucmp") {
            Intr::UCmp(rw, w)
        } else {
            Intr::SCmp(rw, w)
        }
    } else if st("trap") || st("ubsantrap") {
        Intr::Trap
    } else if st("threadlocal.address") {
        Intr::TlsAddr
    } else if st("expect") {
        Intr::Expect
    } else if st("is.constant") {
        Intr::IsConstant
    } else if st("objectsize") {
        Intr::ObjectSize
    } else if st("eh.typeid") {
        Intr::EhTypeid
    } else if st("vector.reduce.or") {
        Intr::VecReduceOr(w)
    } else if st("vector.reduce.and") {
        Intr::VecReduceAnd(w)
    } else if st("vector.reduce.add") {
        Intr::VecReduceAdd(w)
    } else if st("ptrmask") {
        Intr::PtrMask
    } else {
        return None;
    })
}

fn binop(w: &str) -> Option<EOp> {
    Some(match w {
        "add" => EOp::Add,
        "sub" => EOp::Sub,
        "mul" => EOp::Mul,
        "udiv" => EOp::UDiv,
        "sdiv" => EOp::SDiv,
        "urem" => EOp::URem,
        "srem" => EOp::SRem,
        "and" => EOp::And,
        "or" => EOp::Or,
        "xor" => EOp::Xor,
        "shl" => EOp::Shl,
        "lshr" => EOp::LShr,
        "ashr" => EOp::AShr,
        _ => return None,
    })
}

pub fn lower(env: &dyn Env, fi: usize) -> Result<Func, String> {
    let m = env.module();
    let fd = &m.funcs[fi];
    let (bs, be) = fd.body.ok_or("no body")?;
    let body = &m.text[bs..be];
    let blocks = split_body(body);
    let mut lo = Lower { env, regs: HashMap::new(), nregs: 0, extra: Default::default(), pre: Default::default() };
    let mut params = vec![];
    let mut unnamed = 0u32;
    for (t, n) in &fd.params {
        let k = m.nslots(t) as u32;
        lo.regs.insert(n.clone(), (lo.nregs, t.clone()));
        lo.nregs += k;
        params.push(k);
        if n.bytes().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
    }
    let nparam_slots = lo.nregs;
    // pass 1: result types, so that forward references (phi) resolve
    for (_, ins) in &blocks {
        for s in ins {
            let t = s.trim_start();
            if !t.starts_with('%') {
                continue;
            }
            let mut l = Lex::new(t);
            let name = match l.adv() {
                Tok::Local(n) => n.to_string(),
                _ => return Err("lhs".into()),
            };
            l.expect_p(b'=')?;
            let ty = result_type(&lo, &mut l).map_err(|e| format!("{} in {}", e, &t[..t.len().min(200)]))?;
            let k = m.nslots(&ty) as u32;
            lo.regs.insert(name, (lo.nregs, ty));
            lo.nregs += k;
        }
    }
    // pass 2: instructions
    let mut bidx: HashMap<String, u32> = HashMap::new();
    for (i, (lab, _)) in blocks.iter().enumerate() {
        let nm = lab.clone().unwrap_or_else(|| unnamed.to_string());
        bidx.insert(nm, i as u32);
    }
    // phis per block: dst, slots, [(val opds, pred)]
    let mut phis: Vec<Vec<(u32, Vec<(Vec<Opd>, u32)>)>> = (0..blocks.len()).map(|_| vec![]).collect();
    for (bi, (_, ins)) in blocks.iter().enumerate() {
        for s in ins {
            let t = s.trim_start();
            let mut l = Lex::new(t);
            let name = match l.adv() {
                Tok::Local(n) => n,
                _ => break,
            };
            l.expect_p(b'=')?;
            if !l.eat_w("phi") {
                break;
            }
            while matches!(l.cur, Tok::Word(w) if matches!(w, "nnan"|"ninf"|"nsz"|"fast"|"contract"|"reassoc"|"afn"|"arcp")) {
                l.adv();
            }
            let ty = l.ty()?;
            let mut inc = vec![];
            loop {
                l.expect_p(b'[')?;
                let v = lo.val(&mut l, &ty)?;
                l.expect_p(b',')?;
                let p = match l.adv() {
                    Tok::Local(p) => *bidx.get(p).ok_or_else(|| format!("phi pred {}", p))?,
                    t => return Err(format!("phi {:?}", t)),
                };
                l.expect_p(b']')?;
                inc.push((v, p));
                // continue on ", ["
                if l.is_p(b',') && l.rest().trim_start().starts_with('[') {
                    l.adv();
                    continue;
                }
                break;
            }
            let dst = lo.regs[name].0;
            phis[bi].push((dst, inc));
        }
    }
    let mut ins_out: Vec<I> = vec![];
    let mut dbg: Vec<u32> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let mut bstart = vec![];
    for (bi, (_, ins)) in blocks.iter().enumerate() {
        bstart.push(ins_out.len() as u32);
        for s in ins {
            let t = s.trim_start();
            let mut mk_edge = |lab: &str, edges: &mut Vec<Edge>| -> Result<EdgeId, String> {
                let tb = *bidx.get(lab).ok_or_else(|| format!("label {}", lab))?;
                let mut moves = vec![];
                for (dst, inc) in &phis[tb as usize] {
                    let (v, _) = inc.iter().find(|x| x.1 == bi as u32).ok_or("phi edge")?;
                    for (i, o) in v.iter().enumerate() {
                        moves.push((dst + i as u32, *o));
                    }
                }
                edges.push(Edge { target: tb, block: tb, moves: moves.into_boxed_slice() });
                Ok(edges.len() as u32 - 1)
            };
            let r = lower_ins(&lo, t, &mut |lab| mk_edge(lab, &mut edges));
            for i in lo.pre.borrow_mut().drain(..) {
                ins_out.push(i);
                dbg.push(dbg_of(t));
            }
            match r {
                Ok(Some(i)) => {
                    ins_out.push(i);
                    dbg.push(dbg_of(t));
                }
                Ok(None) => {}
                Err(e) => {
                    ins_out.push(I::Unsupported(format!("{} in: {}", e, &t[..t.len().min(160)])));
                    dbg.push(dbg_of(t));
                }
            }
        }
    }
    for e in edges.iter_mut() {
        e.target = bstart[e.block as usize];
    }
    Ok(Func {
        idx: fi,
        name: fd.name.clone(),
        ins: ins_out,
        dbg,
        edges,
        nregs: lo.nregs + lo.extra.get(),
        params,
        nparam_slots,
        nblocks: blocks.len() as u32,
        bstart,
    })
}

fn skip_words(l: &mut Lex, ws: &[&str]) {
    loop {
        match &l.cur {
            Tok::Word(w) if ws.contains(w) => {
                l.adv();
            }
            _ => break,
        }
    }
}

const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile"];

fn call_head(l: &mut Lex) -> Result<Ty, String> {
    // after 'call'/'invoke': skip attrs, return type, optional function type
    l.skip_attrs_to_type();
    let t = l.ty()?;
    if l.is_p(b'(') {
        l.skip_group();
    }
    Ok(t)
}

fn vec_of(m: &Module, t: &Ty, e: Ty) -> Ty {
    match m.resolve(t) {
        Ty::Vec(n, _) => Ty::Vec(*n, Box::new(e)),
        _ => e,
    }
}

fn result_type(lo: &Lower, l: &mut Lex) -> Result<Ty, String> {
    let m = lo.m();
    let w = match l.adv() {
        Tok::Word(w) => w,
        t => return Err(format!("opcode {:?}", t)),
    };
    if binop(w).is_some() || matches!(w, "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "freeze") {
        skip_words(l, FLAGS);
        return l.ty();
    }
    match w {
        "icmp" | "fcmp" => {
            skip_words(l, FLAGS);
            l.adv();
            skip_words(l, FLAGS);
            let t = l.ty()?;
            Ok(vec_of(m, &t, Ty::Int(1)))
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
            skip_words(l, FLAGS);
            let t = l.ty()?;
            l.value(&t)?;
            if !l.eat_w("to") {
                return Err("cast".into());
            }
            l.ty()
        }
        "load" => {
            skip_words(l, &["atomic", "volatile"]);
            l.ty()
        }
        "getelementptr" => Ok(Ty::Ptr),
        "alloca" => Ok(Ty::Ptr),
        "phi" => {
            skip_words(l, FLAGS);
            l.ty()
        }
        "select" => {
            skip_words(l, FLAGS);
            let t = l.ty()?;
            l.value(&t)?;
            l.expect_p(b',')?;
            l.ty()
        }
        "tail" | "musttail" | "notail" => {
            l.adv();
            call_head(l)
        }
        "call" | "invoke" => call_head(l),
        "extractvalue" => {
            let t = l.ty()?;
            l.value(&t)?;
            let mut cur = t;
            while l.eat_p(b',') {
                if let Tok::Num(_) = l.cur {
                    let i = l.num()? as usize;
                    cur = match m.resolve(&cur).clone() {
                        Ty::Struct(f, _) => f[i].clone(),
                        Ty::Array(_, e) => *e,
                        _ => return Err("extractvalue".into()),
                    };
                } else {
                    break;
                }
            }
            Ok(cur)
        }
        "insertvalue" => l.ty(),
        "extractelement" => {
            let t = l.ty()?;
            match m.resolve(&t) {
                Ty::Vec(_, e) => Ok((**e).clone()),
                _ => Err("extractelement".into()),
            }
        }
        "insertelement" => l.ty(),
        "shufflevector" => {
            let t = l.ty()?;
            l.value(&t)?;
            l.expect_p(b',')?;
            let t2 = l.ty()?;
            l.value(&t2)?;
            l.expect_p(b',')?;
            let mt = l.ty()?;
            match (m.resolve(&t), m.resolve(&mt)) {
                (Ty::Vec(_, e), Ty::Vec(n, _)) => Ok(Ty::Vec(*n, e.clone())),
                _ => Err("shuffle".into()),
            }
        }
        "atomicrmw" => {
            skip_words(l, FLAGS);
            l.adv(); // op
            let t = l.ty()?;
            l.value(&t)?;
            l.expect_p(b',')?;
            l.ty()
        }
        "cmpxchg" => {
            skip_words(l, &["weak", "volatile"]);
            let t = l.ty()?;
            l.value(&t)?;
            l.expect_p(b',')?;
            let t = l.ty()?;
            Ok(Ty::Struct(vec![t, Ty::Int(1)], false))
        }
        "landingpad" => l.ty(),
        w => Err(format!("unknown opcode {}", w)),
    }
}

fn lower_ins(lo: &Lower, t: &str, mk_edge: &mut dyn FnMut(&str) -> Result<EdgeId, String>) -> Result<Option<I>, String> {
    let m = lo.m();
    let mut l = Lex::new(t);
    let mut dst = 0u32;
    let mut dty = Ty::Void;
    if let Tok::Local(n) = l.cur {
        l.adv();
        l.expect_p(b'=')?;
        let r = &lo.regs[n];
        dst = r.0;
        dty = r.1.clone();
    }
    let w = match l.adv() {
        Tok::Word(w) => w,
        t => return Err(format!("opcode {:?}", t)),
    };
    let lane = |t: &Ty| -> (u16, u16) {
        match m.resolve(t) {
            Ty::Vec(n, e) => (m.bits(e) as u16, *n as u16),
            t => (m.bits(t) as u16, 1),
        }
    };
    if let Some(op) = binop(w) {
        skip_words(&mut l, FLAGS);
        let t = l.ty()?;
        let a = lo.val(&mut l, &t)?;
        l.expect_p(b',')?;
        let b = lo.val(&mut l, &t)?;
        let (bw, n) = lane(&t);
        if n == 1 {
            return Ok(Some(I::Bin1 { op, w: bw, dst, a: a[0], b: b[0] }));
        }
        return Ok(Some(I::Bin { op, neg: false, w: bw, dst, a: a.into_iter().zip(b).collect() }));
    }
    Ok(Some(match w {
        "icmp" => {
            skip_words(&mut l, FLAGS);
            let p = match l.adv() {
                Tok::Word(p) => p,
                _ => return Err("icmp".into()),
            };
            skip_words(&mut l, FLAGS);
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let b = lo.val(&mut l, &t)?;
            let (bw, n) = lane(&t);
            let (op, neg, swap) = match p {
                "eq" => (EOp::Eq, false, false),
                "ne" => (EOp::Eq, true, false),
                "ult" => (EOp::Ult, false, false),
                "ule" => (EOp::Ule, false, false),
                "ugt" => (EOp::Ult, false, true),
                "uge" => (EOp::Ule, false, true),
                "slt" => (EOp::Slt, false, false),
                "sle" => (EOp::Sle, false, false),
                "sgt" => (EOp::Slt, false, true),
                "sge" => (EOp::Sle, false, true),
                _ => return Err("icmp pred".into()),
            };
            let (a, b) = if swap { (b, a) } else { (a, b) };
            if n == 1 {
                I::Icmp { op, neg, w: bw, dst, a: a[0], b: b[0] }
            } else {
                I::Bin { op, neg, w: bw, dst, a: a.into_iter().zip(b).collect() }
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
            skip_words(&mut l, FLAGS);
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.adv();
            let t2 = l.ty()?;
            let (fw, n) = lane(&t);
            let (tw, _) = lane(&t2);
            let k = match w {
                "sext" => CastK::SExt,
                _ => {
                    if fw == tw {
                        CastK::Copy
                    } else if fw < tw {
                        CastK::ZExt
                    } else {
                        CastK::Trunc
                    }
                }
            };
            if n != 1 {
                return lower_vec_cast(k, fw, tw, dst, a).map(Some);
            }
            I::Cast { k, fw, tw, dst, a: a[0] }
        }
        "bitcast" => {
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.adv();
            let t2 = l.ty()?;
            let (fw, _) = lane(&t);
            let (tw, tn) = lane(&t2);
            I::Bitcast { dst, a: a.into(), fw, tw, tn }
        }
        "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            skip_words(&mut l, FLAGS);
            let t = l.ty()?;
            let a = lo.val1(&mut l, &t)?;
            l.adv();
            let t2 = l.ty()?;
            I::Fp { op: w.to_string(), w: lane(&t2).0, fw: lane(&t).0, dst, a, b: Opd::C(0) }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_words(&mut l, FLAGS);
            let t = l.ty()?;
            let a = lo.val1(&mut l, &t)?;
            l.expect_p(b',')?;
            let b = lo.val1(&mut l, &t)?;
            let x = lane(&t).0;
            I::Fp { op: w.to_string(), w: x, fw: x, dst, a, b }
        }
        "fneg" => {
            skip_words(&mut l, FLAGS);
            let t = l.ty()?;
            let a = lo.val1(&mut l, &t)?;
            let x = lane(&t).0;
            I::Fp { op: w.to_string(), w: x, fw: x, dst, a, b: Opd::C(0) }
        }
        "fcmp" => {
            skip_words(&mut l, FLAGS);
            let p = match l.adv() {
                Tok::Word(p) => p,
                _ => return Err("fcmp".into()),
            };
            let t = l.ty()?;
            let a = lo.val1(&mut l, &t)?;
            l.expect_p(b',')?;
            let b = lo.val1(&mut l, &t)?;
            I::Fp { op: format!("fcmp.{}", p), w: 1, fw: lane(&t).0, dst, a, b }
        }
        "freeze" => {
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            I::Copy { dst, src: a.into() }
        }
        "load" => {
            let atomic = l.is_w("atomic");
            skip_words(&mut l, &["atomic", "volatile"]);
            let t = l.ty()?;
            l.expect_p(b',')?;
            let pt = l.ty()?;
            let p = lo.val1(&mut l, &pt)?;
            let mut lv = vec![];
            m.leaves(&t, 0, &mut lv);
            if matches!(m.resolve(&t), Ty::Vec(..)) && lv.iter().any(|x| x.1 % 8 != 0) {
                let (fw, n) = (lv[0].1, lv.len() as u16);
                let tot = fw * n;
                if tot % 8 != 0 || tot > 128 {
                    return Err("sub-byte vector load".into());
                }
                let t = lo.nregs + lo.extra.get();
                lo.extra.set(lo.extra.get() + 1);
                lo.pre.borrow_mut().push(I::Load { dst: t, ptr: p, leaves: vec![(0, tot, false)].into(), atomic });
                return Ok(Some(I::Bitcast { dst, a: vec![Opd::R(t)].into(), fw: tot, tw: fw, tn: n }));
            }
            I::Load { dst, ptr: p, leaves: lv.into(), atomic }
        }
        "store" => {
            let atomic = l.is_w("atomic");
            skip_words(&mut l, &["atomic", "volatile"]);
            let t = l.ty()?;
            let v = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let pt = l.ty()?;
            let p = lo.val1(&mut l, &pt)?;
            let mut lv = vec![];
            m.leaves(&t, 0, &mut lv);
            if matches!(m.resolve(&t), Ty::Vec(..)) && lv.iter().any(|x| x.1 % 8 != 0) {
                let (fw, n) = (lv[0].1, lv.len() as u16);
                let tot = fw * n;
                if tot % 8 != 0 || tot > 128 {
                    return Err("sub-byte vector store".into());
                }
                let t = lo.nregs + lo.extra.get();
                lo.extra.set(lo.extra.get() + 1);
                lo.pre.borrow_mut().push(I::Bitcast { dst: t, a: v.into(), fw, tw: tot, tn: 1 });
                return Ok(Some(I::Store { src: vec![Opd::R(t)].into(), ptr: p, leaves: vec![(0, tot, false)].into(), atomic }));
            }
            I::Store { src: v.into(), ptr: p, leaves: lv.into(), atomic }
        }
        "getelementptr" => {
            skip_words(&mut l, FLAGS);
            if l.is_w("inrange") {
                l.adv();
                l.skip_group();
                skip_words(&mut l, FLAGS);
            }
            let t = l.ty()?;
            l.expect_p(b',')?;
            let pt = l.ty()?;
            let base = lo.val1(&mut l, &pt)?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            while l.is_p(b',') {
                l.adv();
                if !l.at_type() {
                    break;
                }
                let it = l.ty()?;
                let v = lo.val1(&mut l, &it)?;
                let w = m.bits(&it);
                if first {
                    first = false;
                    let s = m.size_align(&cur).0 as i64;
                    match v {
                        Opd::C(c) => off += crate::expr::sext(c, w) as i64 * s,
                        v => idx.push((v, w as u16, s)),
                    }
                } else {
                    match m.resolve(&cur).clone() {
                        Ty::Struct(f, p) => {
                            let i = match v {
                                Opd::C(c) => c as usize,
                                _ => return Err("gep struct idx".into()),
                            };
                            off += m.field_offset(&f, p, i) as i64;
                            cur = f[i].clone();
                        }
                        Ty::Array(_, e) | Ty::Vec(_, e) => {
                            let s = m.size_align(&e).0 as i64;
                            match v {
                                Opd::C(c) => off += crate::expr::sext(c, w) as i64 * s,
                                v => idx.push((v, w as u16, s)),
                            }
                            cur = *e;
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            I::Gep { dst, base, off, idx: idx.into() }
        }
        "alloca" => {
            let t = l.ty()?;
            let (s, mut al) = m.size_align(&t);
            let mut count = Opd::C(1);
            while l.eat_p(b',') {
                if l.eat_w("align") {
                    al = l.num()?;
                } else if l.at_type() {
                    let ct = l.ty()?;
                    count = lo.val1(&mut l, &ct)?;
                } else {
                    break;
                }
            }
            I::Alloca { dst, size: s, count, align: al }
        }
        "phi" => return Ok(None),
        "br" => {
            let t = l.ty()?;
            if t == Ty::Void {
                let lab = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("br".into()),
                };
                I::Br(mk_edge(lab)?)
            } else {
                let c = lo.val1(&mut l, &t)?;
                l.expect_p(b',')?;
                l.ty()?;
                let a = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("br".into()),
                };
                l.expect_p(b',')?;
                l.ty()?;
                let b = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("br".into()),
                };
                I::CondBr(c, mk_edge(a)?, mk_edge(b)?)
            }
        }
        "switch" => {
            let t = l.ty()?;
            let v = lo.val1(&mut l, &t)?;
            l.expect_p(b',')?;
            l.ty()?;
            let d = match l.adv() {
                Tok::Local(x) => x,
                _ => return Err("switch".into()),
            };
            let def = mk_edge(d)?;
            l.expect_p(b'[')?;
            let mut cases = vec![];
            while !l.is_p(b']') {
                let ct = l.ty()?;
                let c = l.konst(&ct)?;
                let k = const_scalar(lo.env, &c)? & crate::expr::mask(m.bits(&ct));
                l.expect_p(b',')?;
                l.ty()?;
                let x = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("switch".into()),
                };
                cases.push((k, mk_edge(x)?));
            }
            I::Switch { w: m.bits(&t) as u16, v, def, cases: cases.into() }
        }
        "ret" => {
            let t = l.ty()?;
            if t == Ty::Void {
                I::Ret(Box::new([]))
            } else {
                I::Ret(lo.val(&mut l, &t)?.into())
            }
        }
        "unreachable" => I::Unreachable,
        "fence" => I::Fence,
        "select" => {
            skip_words(&mut l, FLAGS);
            let ct = l.ty()?;
            let c = lo.val(&mut l, &ct)?;
            l.expect_p(b',')?;
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let t2 = l.ty()?;
            let b = lo.val(&mut l, &t2)?;
            let mut lv = vec![];
            m.leaves(&t, 0, &mut lv);
            I::Select { c: c.into(), a: a.into(), b: b.into(), w: lv.iter().map(|x| (x.1, x.2)).collect(), dst }
        }
        "extractvalue" => {
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            let (o, n) = agg_path(m, &mut l, &t)?;
            I::Copy { dst, src: a[o..o + n].into() }
        }
        "insertvalue" => {
            let t = l.ty()?;
            let mut a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let vt = l.ty()?;
            let v = lo.val(&mut l, &vt)?;
            let (o, n) = agg_path(m, &mut l, &t)?;
            if n != v.len() {
                return Err("insertvalue".into());
            }
            a[o..o + n].copy_from_slice(&v);
            I::Copy { dst, src: a.into() }
        }
        "extractelement" => {
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let it = l.ty()?;
            let i = lo.val1(&mut l, &it)?;
            match i {
                Opd::C(k) => I::Copy { dst, src: vec![a[k as usize]].into() },
                i => I::ExtElt { dst, vec: a.into(), idx: i },
            }
        }
        "insertelement" => {
            let t = l.ty()?;
            let mut a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let vt = l.ty()?;
            let v = lo.val1(&mut l, &vt)?;
            l.expect_p(b',')?;
            let it = l.ty()?;
            let i = lo.val1(&mut l, &it)?;
            match i {
                Opd::C(k) => {
                    a[k as usize] = v;
                    I::Copy { dst, src: a.into() }
                }
                i => I::InsElt { dst, vec: a.into(), val: v, idx: i },
            }
        }
        "shufflevector" => {
            let t = l.ty()?;
            let a = lo.val(&mut l, &t)?;
            l.expect_p(b',')?;
            let t2 = l.ty()?;
            let b = lo.val(&mut l, &t2)?;
            l.expect_p(b',')?;
            let mt = l.ty()?;
            let mv = lo.val(&mut l, &mt)?;
            let all: Vec<Opd> = a.into_iter().chain(b).collect();
            let mut src = vec![];
            for x in mv {
                match x {
                    Opd::C(k) => src.push(*all.get(k as u32 as usize).unwrap_or(&Opd::C(0))),
                    _ => return Err("shuffle mask".into()),
                }
            }
            I::Copy { dst, src: src.into() }
        }
        "atomicrmw" => {
            skip_words(&mut l, FLAGS);
            let op = match l.adv() {
                Tok::Word(x) => x.to_string(),
                _ => return Err("rmw".into()),
            };
            let pt = l.ty()?;
            let p = lo.val1(&mut l, &pt)?;
            l.expect_p(b',')?;
            let t = l.ty()?;
            let v = lo.val1(&mut l, &t)?;
            I::Rmw { op, w: m.bits(&t) as u16, dst, ptr: p, v }
        }
        "cmpxchg" => {
            let weak = l.is_w("weak");
            skip_words(&mut l, &["weak", "volatile"]);
            let pt = l.ty()?;
            let p = lo.val1(&mut l, &pt)?;
            l.expect_p(b',')?;
            let t = l.ty()?;
            let c = lo.val1(&mut l, &t)?;
            l.expect_p(b',')?;
            let t = l.ty()?;
            let n = lo.val1(&mut l, &t)?;
            I::CmpXchg { w: m.bits(&t) as u16, dst, ptr: p, cmp: c, new: n, weak }
        }
        "landingpad" => {
            let rest = t;
            let catch_all = rest.contains("catch ptr");
            let cleanup = rest.contains("cleanup");
            I::LandingPad { dst, catch_all, cleanup }
        }
        "resume" => {
            let t = l.ty()?;
            let v = lo.val(&mut l, &t)?;
            I::Resume(v[0])
        }
        "call" | "invoke" | "tail" | "musttail" | "notail" => {
            let invoke = w == "invoke";
            if matches!(w, "tail" | "musttail" | "notail") {
                l.adv();
            }
            let rt = call_head(&mut l)?;
            // callee
            let mut callee = None;
            let mut asm = false;
            match l.cur.clone() {
                Tok::Word("asm") => {
                    while !l.is_p(b'(') {
                        l.adv();
                    }
                    asm = true;
                }
                Tok::Global(g) => {
                    l.adv();
                    callee = Some(g.to_string());
                }
                _ => {}
            }
            let mut reg = None;
            if callee.is_none() && !asm {
                reg = Some(lo.val1(&mut l, &Ty::Ptr)?);
            }
            l.expect_p(b'(')?;
            let mut args = vec![];
            let mut argt = vec![];
            let mut argw = vec![];
            let mut byval = vec![];
            if !l.eat_p(b')') {
                loop {
                    let t = l.ty()?;
                    // look for byval
                    let before = l.pos();
                    l.skip_attrs_to_value();
                    let after = l.pos();
                    if before < after && l_text(t_of(&l), before, after).contains("byval(") {
                        return Err("byval".into());
                    }
                    let v = lo.val(&mut l, &t)?;
                    let mut lv = vec![];
                    m.leaves(&t, 0, &mut lv);
                    for x in lv {
                        argw.push(x.1);
                    }
                    args.extend(v);
                    argt.push(t);
                    if l.eat_p(b',') {
                        continue;
                    }
                    l.expect_p(b')')?;
                    break;
                }
            }
            let _ = &mut byval as &mut Vec<(u32, u32)>;
            let mut normal = None;
            let mut unwind = None;
            if invoke {
                while !l.is_w("to") {
                    l.adv();
                    if l.cur == Tok::End {
                        return Err("invoke".into());
                    }
                }
                l.adv();
                l.adv(); // label
                let a = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("invoke".into()),
                };
                l.adv(); // unwind
                l.adv(); // label
                let b = match l.adv() {
                    Tok::Local(x) => x,
                    _ => return Err("invoke".into()),
                };
                normal = Some(mk_edge(a)?);
                unwind = Some(mk_edge(b)?);
            }
            let lanes = match m.resolve(&rt) {
                Ty::Vec(n, _) => *n as u32,
                _ => match argt.first().map(|t| m.resolve(t)) {
                    Some(Ty::Vec(n, _)) => *n as u32,
                    _ => 1,
                },
            };
            let c = if asm {
                if rt == Ty::Void {
                    Callee::Nop
                } else if m.nslots(&rt) == 4 && t.contains("cpuid") {
                    Callee::Intr(Intr::Cpuid)
                } else {
                    return Err("asm with result".into());
                }
            } else if let Some(r) = reg {
                Callee::Reg(r)
            } else {
                let name = callee.unwrap();
                if let Some(i) = intrinsic(&name, m, &argt) {
                    if i == Intr::Nop {
                        Callee::Nop
                    } else {
                        Callee::Intr(i)
                    }
                } else if name.starts_with("llvm.") {
                    Callee::Unknown(name)
                } else if let Some(&i) = m.fidx.get(&name) {
                    Callee::Func(i)
                } else if let Some(Const::Global(g)) = m.aliases.get(&name) {
                    Callee::Func(m.fidx[g])
                } else {
                    Callee::Unknown(name)
                }
            };
            let mut rl = vec![];
            m.leaves(&rt, 0, &mut rl);
            I::Call(Box::new(CallI {
                callee: c,
                args: args.into(),
                argw: argw.into(),
                dst,
                nret: m.nslots(&rt) as u32,
                retw: rl.first().map_or(0, |x| x.1),
                lanes,
                normal,
                unwind,
                byval: byval.into(),
            }))
        }
        w => {
            let _ = dty;
            return Err(format!("opcode {}", w));
        }
    }))
}

fn t_of<'a>(l: &Lex<'a>) -> &'a str {
    l.full()
}
fn l_text(s: &str, a: usize, b: usize) -> &str {
    &s[a.min(s.len())..b.min(s.len())]
}

fn lower_vec_cast(k: CastK, fw: u16, tw: u16, dst: u32, a: Vec<Opd>) -> Result<I, String> {
    if k == CastK::Copy {
        return Ok(I::Copy { dst, src: a.into() });
    }
    Ok(I::VCast { k, fw, tw, dst, a: a.into() })
}

fn agg_path(m: &Module, l: &mut Lex, t: &Ty) -> Result<(usize, usize), String> {
    let mut cur = t.clone();
    let mut off = 0;
    while l.is_p(b',') {
        l.adv();
        if let Tok::Num(_) = l.cur {
            let i = l.num()? as usize;
            match m.resolve(&cur).clone() {
                Ty::Struct(f, _) => {
                    for x in &f[..i] {
                        off += m.nslots(x);
                    }
                    cur = f[i].clone();
                }
                Ty::Array(_, e) => {
                    off += i * m.nslots(&e);
                    cur = *e;
                }
                _ => return Err("agg path".into()),
            }
        } else {
            break;
        }
    }
    Ok((off, m.nslots(&cur)))
}
