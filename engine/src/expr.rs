//! Hash-consed bit-vector expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u8(*x)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32; // 0 = none

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not, // bitwise not (also logical for width 1)
    Ite,
    ZExt,
    SExt,
    Extract, // k = lo
    Concat,  // a = hi, b = lo
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of one binary operator (result masked to `w`).
pub fn ev_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
    /// unsigned interval of every node
    rng: Vec<(u128, u128)>,
    /// signed interval of every node
    srng: Vec<(i128, i128)>,
    /// contains a multiplication or division of a variable
    hard: Vec<bool>,
    /// derived from a function given as a table
    tabd: Vec<bool>,
    /// values of functions of one byte
    tabs: FxMap<E, Rc<Vec<u128>>>,
    busy: bool,
}

impl Arena {
    pub fn new() -> Self {
        let dummy = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Arena { nodes: vec![dummy], map: Default::default(), vars: vec![None], rng: vec![(0, 0)], srng: vec![(0, 0)], hard: vec![false], tabd: vec![false], tabs: Default::default(), busy: false }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        if !self.busy {
            if let Some(e) = self.tabulate(&n) {
                self.map.insert(n, e);
                return e;
            }
        }
        let mut r = self.range_of(&n);
        let mut sr = self.srange_of(&n);
        // each interval bounds the other
        let w = n.w as u32;
        if w < 127 {
            let h = 1u128 << (w - 1);
            if r.1 < h {
                sr = (sr.0.max(r.0 as i128), sr.1.min(r.1 as i128));
            } else if r.0 >= h {
                sr = (sr.0.max(sext(r.0, w)), sr.1.min(sext(r.1, w)));
            }
            if sr.0 >= 0 {
                r = (r.0.max(sr.0 as u128), r.1.min(sr.1 as u128));
            } else if sr.1 < 0 {
                r = (r.0.max(sr.0 as u128 & mask(w)), r.1.min(sr.1 as u128 & mask(w)));
            }
        }
        if r.0 == r.1 && n.op != Op::Const {
            let kc = self.konst(r.0, n.w as u32);
            self.map.insert(n, kc);
            return kc;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(None);
        self.rng.push(r);
        self.srng.push(sr);
        let h = |e: E| self.hard[e as usize];
        let hard = matches!(n.op, Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem) || h(n.a) || h(n.b) || h(n.c);
        self.hard.push(hard);
        let t = |e: E| self.tabd[e as usize];
        let tabd = (self.busy && n.op == Op::Ite) || t(n.a) || t(n.b) || t(n.c);
        self.tabd.push(tabd);
        self.map.insert(n, e);
        e
    }
    /// Values of `e`, which depends on one byte only, for each value of it.
    fn table(&mut self, e: E) -> Rc<Vec<u128>> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let n = self.n(e);
        let t = self.table_of(&n);
        self.tabs.insert(e, t.clone());
        t
    }
    fn table_of(&mut self, n: &Node) -> Rc<Vec<u128>> {
        let m = mask(n.w as u32);
        match n.op {
            Op::Const => Rc::new(vec![n.k; 256]),
            Op::Var => Rc::new((0..256).collect()),
            op => {
                let a = self.table(n.a);
                let b = if n.b != 0 { self.table(n.b) } else { a.clone() };
                let c = if n.c != 0 { self.table(n.c) } else { a.clone() };
                let wa = self.w(n.a);
                let wb = if n.b != 0 { self.w(n.b) } else { 0 };
                Rc::new(
                    (0..256)
                        .map(|i| match op {
                            Op::Not => !a[i] & m,
                            Op::Ite => {
                                if a[i] != 0 {
                                    b[i]
                                } else {
                                    c[i]
                                }
                            }
                            Op::ZExt => a[i],
                            Op::SExt => (sext(a[i], wa) as u128) & m,
                            Op::Extract => (a[i] >> n.k) & m,
                            Op::Concat => (a[i] << wb) | b[i],
                            op => ev_bin(op, wa, a[i], b[i]),
                        })
                        .collect(),
                )
            }
        }
    }
    /// A function of one byte with divisions in it, rewritten as the pieces on which it
    /// is constant or linear.
    fn tabulate(&mut self, n: &Node) -> Option<E> {
        if matches!(n.op, Op::Const | Op::Var) {
            return None;
        }
        let div = matches!(n.op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem);
        let ch = [n.a, n.b, n.c];
        if !div && !ch.iter().any(|&e| self.tabd[e as usize]) {
            return None;
        }
        let mut var = None;
        for e in ch {
            if e == 0 {
                continue;
            }
            let v = self.vars_of(e);
            match (&v[..], var) {
                ([], _) => {}
                ([x], None) => var = Some(*x),
                ([x], Some(y)) if *x == y => {}
                _ => return None,
            }
        }
        let var = var?;
        let t = self.table_of(n);
        let w = n.w as u32;
        let m = mask(w);
        // (first, last, slope)
        let mut runs: Vec<(usize, usize, u128)> = vec![];
        let mut i = 0;
        while i < 256 {
            let mut j = i;
            let mut s = 0;
            if i < 255 && (w > 1 || t[i] == t[i + 1]) {
                s = t[i + 1].wrapping_sub(t[i]) & m;
                while j < 255 && t[j + 1].wrapping_sub(t[j]) & m == s {
                    j += 1;
                }
                if s != 0 && j == i + 1 {
                    s = 0;
                    j = i;
                }
            }
            runs.push((i, j, s));
            if runs.len() > 128 {
                return None;
            }
            i = j + 1;
        }
        self.busy = true;
        let v = self.var(var);
        let r = self.pieces(&runs, &t, v, w);
        self.busy = false;
        self.tabs.insert(r, t);
        Some(r)
    }
    fn pieces(&mut self, r: &[(usize, usize, u128)], t: &[u128], v: E, w: u32) -> E {
        if r.len() == 1 {
            let (i, _, s) = r[0];
            let k = t[i].wrapping_sub(s.wrapping_mul(i as u128));
            let k = self.konst(k, w);
            if s == 0 {
                return k;
            }
            let x = if w < 8 { self.extract(v, 0, w) } else { self.zext(v, w) };
            let s = self.konst(s, w);
            let x = self.bin(Op::Mul, x, s);
            return self.bin(Op::Add, x, k);
        }
        let h = r.len() / 2;
        let a = self.pieces(&r[..h], t, v, w);
        let b = self.pieces(&r[h..], t, v, w);
        let k = self.konst(r[h].0 as u128, 8);
        let c = self.bin(Op::Ult, v, k);
        self.ite(c, a, b)
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        self.rng[e as usize]
    }
    pub fn srange(&self, e: E) -> (i128, i128) {
        self.srng[e as usize]
    }
    fn srange_of(&self, n: &Node) -> (i128, i128) {
        let w = n.w as u32;
        if w >= 127 {
            return (i128::MIN, i128::MAX);
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let r = |e: E| self.srng[e as usize];
        let fit = |l: Option<i128>, h: Option<i128>| match (l, h) {
            (Some(l), Some(h)) if l >= full.0 && h <= full.1 => (l, h),
            _ => full,
        };
        match n.op {
            Op::Const => (sext(n.k, w), sext(n.k, w)),
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                fit(a.0.checked_add(b.0), a.1.checked_add(b.1))
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                fit(a.0.checked_sub(b.1), a.1.checked_sub(b.0))
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                let p = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)];
                if p.iter().any(|x| x.is_none()) {
                    return full;
                }
                fit(p.iter().cloned().flatten().min(), p.iter().cloned().flatten().max())
            }
            Op::Not => {
                let a = r(n.a);
                (!a.1, !a.0)
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::SExt => r(n.a),
            Op::Extract if n.k == 0 => {
                let a = r(n.a);
                fit(Some(a.0), Some(a.1))
            }
            Op::SDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    fit(Some((a.0 / b.0).min(a.0 / b.1)), Some((a.1 / b.0).max(a.1 / b.1)))
                } else {
                    full
                }
            }
            Op::SRem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (if a.0 < 0 { a.0.max(1 - b.1) } else { 0 }, if a.1 > 0 { a.1.min(b.1 - 1) } else { 0 })
                } else {
                    full
                }
            }
            Op::AShr => match self.as_const(n.b) {
                Some(k) if k < w as u128 => {
                    let a = r(n.a);
                    (a.0 >> k, a.1 >> k)
                }
                _ => full,
            },
            _ => full,
        }
    }
    /// a signed operation that stays in range for every value
    pub fn never_overflows(&self, op: Op, a: E, b: E) -> bool {
        let w = self.w(a);
        if w >= 127 {
            return false;
        }
        let (a, b) = (self.srange(a), self.srange(b));
        let p = match op {
            Op::Add => [a.0.checked_add(b.0), a.1.checked_add(b.1), Some(0), Some(0)],
            Op::Sub => [a.0.checked_sub(b.1), a.1.checked_sub(b.0), Some(0), Some(0)],
            _ => [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)],
        };
        let m = 1i128 << (w - 1);
        p.iter().all(|x| x.map_or(false, |x| x >= -m && x < m))
    }
    /// both numbers need fewer bits than they have: that many
    fn sbits(&self, a: E, b: E) -> u32 {
        let (a, b) = (self.srange(a), self.srange(b));
        let bits = |x: i128| 129 - (if x < 0 { !x } else { x }).leading_zeros();
        bits(a.0).max(bits(a.1)).max(bits(b.0)).max(bits(b.1))
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let full = (0, mask(w));
        let r = |e: E| self.rng[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => (0, 255),
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) {
                    Some(h) if h <= mask(w) => (a.0 + b.0, h),
                    _ => {
                        // both ends wrap (addition of a "negative" constant)
                        if w < 128 && a.0 + b.0 > mask(w) {
                            ((a.0 + b.0) & mask(w), (a.1 + b.1) & mask(w))
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mask(w) => (a.0 * b.0, h),
                    _ => {
                        // a negative number times a positive constant
                        let (p, q) = (a.0.wrapping_neg() & mask(w), a.1.wrapping_neg() & mask(w));
                        match p.checked_mul(b.1) {
                            Some(h) if q > 0 && b.0 == b.1 && h > 0 && h <= mask(w) => {
                                (h.wrapping_neg() & mask(w), (q * b.1).wrapping_neg() & mask(w))
                            }
                            _ => full,
                        }
                    }
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    (0, a.1)
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or | Op::Xor => {
                let h = r(n.a).1 | r(n.b).1;
                let bits = 128 - h.leading_zeros();
                let lo = if n.op == Op::Or { r(n.a).0.max(r(n.b).0) } else { 0 };
                (lo, mask(bits).min(mask(w)))
            }
            Op::LShr => (0, r(n.a).1),
            Op::Eq => {
                let (a, b) = (r(n.a), r(n.b));
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Ult => {
                let (a, b) = (r(n.a), r(n.b));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Ule => {
                let (a, b) = (r(n.a), r(n.b));
                if a.1 <= b.0 {
                    (1, 1)
                } else if a.0 > b.1 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Slt if self.srange(n.a).1 < self.srange(n.b).0 => (1, 1),
            Op::Slt if self.srange(n.a).0 >= self.srange(n.b).1 => (0, 0),
            Op::Sle if self.srange(n.a).1 <= self.srange(n.b).0 => (1, 1),
            Op::Sle if self.srange(n.a).0 > self.srange(n.b).1 => (0, 0),
            Op::Slt | Op::Sle => {
                let (a, b) = (r(n.a), r(n.b));
                let aw = self.w(n.a);
                let h = 1u128 << (aw - 1);
                // both non-negative, or both negative: unsigned order applies
                if (a.1 < h && b.1 < h) || (a.0 >= h && b.0 >= h) {
                    if n.op == Op::Slt {
                        if a.1 < b.0 {
                            (1, 1)
                        } else if a.0 >= b.1 {
                            (0, 0)
                        } else {
                            full
                        }
                    } else if a.1 <= b.0 {
                        (1, 1)
                    } else if a.0 > b.1 {
                        (0, 0)
                    } else {
                        full
                    }
                } else if a.1 < h && b.0 >= h {
                    (0, 0)
                } else if a.0 >= h && b.1 < h {
                    (1, 1)
                } else {
                    full
                }
            }
            Op::Not => (mask(w) - r(n.a).1, mask(w) - r(n.a).0),
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::ZExt => r(n.a),
            Op::Extract => {
                let a = r(n.a);
                if n.k == 0 {
                    if a.1 <= mask(w) {
                        a
                    } else {
                        full
                    }
                } else {
                    let k = n.k as u32;
                    if (a.1 >> k) <= mask(w) {
                        (a.0 >> k, a.1 >> k)
                    } else {
                        full
                    }
                }
            }
            Op::Concat => {
                let (a, b) = (r(n.a), r(n.b));
                let lw = self.w(n.b);
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Op::SExt => {
                let a = r(n.a);
                let aw = self.w(n.a);
                let h = 1u128 << (aw - 1);
                if a.1 < h {
                    a
                } else if a.0 >= h {
                    (sext(a.0, aw) as u128 & mask(w), sext(a.1, aw) as u128 & mask(w))
                } else {
                    full
                }
            }
            Op::Shl | Op::SDiv | Op::SRem | Op::AShr => full,
        }
    }
    /// `a` is below the sign bit for every value
    fn nonneg(&self, a: E) -> bool {
        self.range(a).1 >> (self.w(a) - 1) == 0
    }
    /// `a` as a constant plus multiples of other nodes, modulo 2^w (coefficients never 0)
    fn lin(&mut self, a: E, c: u128, w: u32, depth: u32, k: &mut u128, t: &mut Vec<(E, u128)>) {
        let m = mask(w);
        let n = self.n(a);
        let add = |t: &mut Vec<(E, u128)>, e: E, c: u128| match t.iter_mut().find(|x| x.0 == e) {
            Some(x) => x.1 = x.1.wrapping_add(c) & m,
            None => t.push((e, c & m)),
        };
        if depth > 0 {
            match n.op {
                Op::Const => {
                    *k = k.wrapping_add(c.wrapping_mul(n.k)) & m;
                    return;
                }
                Op::Add => {
                    self.lin(n.a, c, w, depth - 1, k, t);
                    self.lin(n.b, c, w, depth - 1, k, t);
                    return;
                }
                Op::Sub => {
                    self.lin(n.a, c, w, depth - 1, k, t);
                    self.lin(n.b, c.wrapping_neg() & m, w, depth - 1, k, t);
                    return;
                }
                Op::Not => {
                    *k = k.wrapping_sub(c) & m;
                    self.lin(n.a, c.wrapping_neg() & m, w, depth - 1, k, t);
                    return;
                }
                Op::Mul => {
                    if let Some(x) = self.as_const(n.b) {
                        self.lin(n.a, c.wrapping_mul(x) & m, w, depth - 1, k, t);
                        return;
                    }
                }
                Op::Concat => {
                    // hi:0 is a multiple
                    if self.as_const(n.b) == Some(0) {
                        let lw = self.w(n.b);
                        let x = self.zext(n.a, w);
                        if self.n(x).op != Op::Concat {
                            self.lin(x, c.wrapping_shl(lw) & m, w, depth - 1, k, t);
                            return;
                        }
                    }
                }
                Op::SExt | Op::ZExt => {
                    let i = self.n(n.a);
                    if (n.op == Op::SExt || self.nonneg(n.a))
                        && matches!(i.op, Op::Add | Op::Sub | Op::Mul)
                        && self.never_overflows(i.op, i.a, i.b)
                    {
                        let x = self.sext(i.a, w);
                        let y = self.sext(i.b, w);
                        let z = self.bin(i.op, x, y);
                        if self.n(z).op != Op::ZExt {
                            self.lin(z, c, w, depth - 1, k, t);
                            return;
                        }
                    }
                    if n.op == Op::ZExt {
                        if let Some(x) = self.widen(n.a, w) {
                            self.lin(x, c, w, depth - 1, k, t);
                            return;
                        }
                    }
                }
                _ => {}
            }
        }
        add(t, a, c);
    }
    /// the zero extension of a sum that does not overflow, as a sum of extensions
    fn widen(&mut self, a: E, w: u32) -> Option<E> {
        let n = self.n(a);
        let iw = n.w as u32;
        match n.op {
            Op::Add | Op::Mul => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                let h = if n.op == Op::Add { x.1.checked_add(y.1) } else { x.1.checked_mul(y.1) };
                if h.map_or(false, |h| h <= mask(iw)) {
                    let p = self.zext(n.a, w);
                    let q = self.zext(n.b, w);
                    return Some(self.bin(n.op, p, q));
                }
                // addition of a negative constant that always wraps
                if n.op == Op::Add {
                    if let Some(k) = self.as_const(n.b) {
                        let d = (!k).wrapping_add(1) & mask(iw);
                        if x.0 >= d {
                            let p = self.zext(n.a, w);
                            let kk = self.konst(d.wrapping_neg(), w);
                            return Some(self.bin(Op::Add, p, kk));
                        }
                    }
                }
            }
            Op::Sub => {
                if self.range(n.a).0 >= self.range(n.b).1 {
                    let p = self.zext(n.a, w);
                    let q = self.zext(n.b, w);
                    return Some(self.bin(Op::Sub, p, q));
                }
            }
            _ => {}
        }
        None
    }
    /// a sum from its parts
    fn unlin(&mut self, k: u128, t: &[(E, u128)], w: u32) -> E {
        let m = mask(w);
        let mut r: Option<E> = None;
        let mut t: Vec<(E, u128)> = t.iter().cloned().filter(|x| x.1 != 0).collect();
        t.sort();
        for (e, c) in t {
            let neg = c >> (w - 1) != 0;
            let ck = self.konst(if neg && r.is_some() { c.wrapping_neg() & m } else { c }, w);
            let x = self.mul_raw(e, ck);
            r = Some(match r {
                None => x,
                Some(y) if neg => self.mk(Node { op: Op::Sub, w: w as u16, a: y, b: x, c: 0, k: 0 }),
                Some(y) => {
                    let (y, x) = if y > x { (x, y) } else { (y, x) };
                    self.mk(Node { op: Op::Add, w: w as u16, a: y, b: x, c: 0, k: 0 })
                }
            });
        }
        let kk = self.konst(k, w);
        match r {
            None => kk,
            Some(r) if k == 0 => r,
            Some(r) => self.mk(Node { op: Op::Add, w: w as u16, a: r, b: kk, c: 0, k: 0 }),
        }
    }
    fn mul_raw(&mut self, e: E, c: E) -> E {
        if self.as_const(c) == Some(1) {
            return e;
        }
        let w = self.w(e);
        self.mk(Node { op: Op::Mul, w: w as u16, a: e, b: c, c: 0, k: 0 })
    }
    /// the division behind a node: (divided node, divisor) of a (widened) URem
    fn rem_parts(&self, e: E) -> Option<(E, u128, u32)> {
        let mut n = self.n(e);
        if n.op == Op::ZExt {
            n = self.n(n.a);
        }
        if n.op == Op::URem {
            return self.as_const(n.b).map(|k| (n.a, k, n.w as u32));
        }
        None
    }
    fn has_rem(&self, e: E, depth: u32) -> bool {
        let n = self.n(e);
        match n.op {
            Op::URem => true,
            Op::ZExt | Op::Not => depth > 0 && self.has_rem(n.a, depth - 1),
            Op::Add | Op::Sub | Op::Mul => depth > 0 && (self.has_rem(n.a, depth - 1) || self.has_rem(n.b, depth - 1)),
            _ => false,
        }
    }
    /// x % K together with K * (x / K) is x
    fn recombine(&mut self, k: u128, mut t: Vec<(E, u128)>, w: u32) -> Option<E> {
        let m = mask(w);
        let mut changed = false;
        'again: loop {
            for i in 0..t.len() {
                let (e, c) = t[i];
                if c == 0 {
                    continue;
                }
                if let Some((x, d, iw)) = self.rem_parts(e) {
                    if iw > w {
                        continue;
                    }
                    let dk = self.konst(d, iw);
                    let q = self.bin(Op::UDiv, x, dk);
                    let q = self.zext(q, w);
                    let want = c.wrapping_mul(d) & m;
                    // the quotient may itself be a multiple of a node
                    let (mut qk, mut qt) = (0, vec![]);
                    self.lin(q, 1, w, 24, &mut qk, &mut qt);
                    if qk != 0 || qt.len() != 1 {
                        continue;
                    }
                    let (qe, qc) = qt[0];
                    let want = want.wrapping_mul(qc) & m;
                    if let Some(j) = t.iter().position(|y| y.0 == qe && y.1 == want && want != 0) {
                        t[i].1 = 0;
                        t[j].1 = 0;
                        let xx = self.zext(x, w);
                        let mut k2 = 0;
                        self.lin(xx, c, w, 24, &mut k2, &mut t);
                        if k2 != 0 {
                            // keep it simple: constants inside are rare
                            let r = self.unlin(k.wrapping_add(k2) & m, &t, w);
                            return Some(r);
                        }
                        changed = true;
                        continue 'again;
                    }
                }
            }
            break;
        }
        if changed {
            Some(self.unlin(k, &t, w))
        } else {
            None
        }
    }
    /// division and remainder by a constant
    fn divide(&mut self, op: Op, a: E, d: u128) -> Option<E> {
        let w = self.w(a);
        let signed = matches!(op, Op::SDiv | Op::SRem);
        let quot = matches!(op, Op::SDiv | Op::UDiv);
        if d == 0 || (signed && d >> (w - 1) != 0) {
            return None;
        }
        if signed {
            let dk = self.konst(d, w);
            let u = if quot { Op::UDiv } else { Op::URem };
            if self.nonneg(a) {
                return Some(self.bin(u, a, dk));
            }
            let z = self.konst(0, w);
            if w < 127 && self.srange(a).1 <= 0 && self.srange(a).0 > -(1i128 << (w - 1)) {
                let p = self.neg(a);
                let r = self.bin(u, p, dk);
                return Some(self.bin(Op::Sub, z, r));
            }
            return None;
        }
        let r = self.range(a);
        if r.1 < d {
            return Some(if quot { self.konst(0, w) } else { a });
        }
        if d == 1 {
            return Some(if quot { a } else { self.konst(0, w) });
        }
        if d.is_power_of_two() {
            let s = d.trailing_zeros();
            return Some(if quot {
                let s = self.konst(s as u128, w);
                self.bin(Op::LShr, a, s)
            } else {
                let m = self.konst(d - 1, w);
                self.bin(Op::And, a, m)
            });
        }
        // at the width the values need
        let bits = 128 - r.1.max(d).leading_zeros();
        if bits < w {
            let x = self.extract(a, 0, bits);
            // the extraction may lose the interval
            let dk = self.konst(d, bits);
            let q = self.bin(if quot { Op::UDiv } else { Op::URem }, x, dk);
            return Some(self.zext(q, w));
        }
        let n = self.n(a);
        if quot && n.op == Op::UDiv {
            if let Some(e) = self.as_const(n.b).filter(|e| *e != 0) {
                if let Some(p) = d.checked_mul(e) {
                    if p <= mask(w) {
                        let pk = self.konst(p, w);
                        return Some(self.bin(Op::UDiv, n.a, pk));
                    }
                    return Some(self.konst(0, w));
                }
            }
        }
        // multiples of the divisor come out of a sum that does not overflow
        if matches!(n.op, Op::Add | Op::Mul) {
            let (mut k, mut t) = (0u128, vec![]);
            self.lin(a, 1, w, 24, &mut k, &mut t);
            let mut hi = Some(k);
            // a common factor
            let mut g = gcd(d, k);
            for x in &t {
                g = gcd(g, x.1);
            }
            let mut whole = false;
            for (e, c) in &t {
                let x = self.range(*e).1.checked_mul(*c);
                hi = hi.and_then(|h| x.and_then(|x| h.checked_add(x)));
                whole |= *c != 0 && c % d == 0;
            }
            if g > 1 && hi.map_or(false, |h| h <= mask(w)) {
                for x in t.iter_mut() {
                    x.1 /= g;
                }
                let x = self.unlin(k / g, &t, w);
                let dk = self.konst(d / g, w);
                let r = self.bin(op, x, dk);
                if quot {
                    return Some(r);
                }
                let gk = self.konst(g, w);
                return Some(self.bin(Op::Mul, r, gk));
            }
            if (whole || k >= d) && hi.map_or(false, |h| h <= mask(w)) {
                let tq: Vec<(E, u128)> = t.iter().filter(|x| x.1 % d == 0).map(|x| (x.0, x.1 / d)).collect();
                let tr: Vec<(E, u128)> = t.iter().filter(|x| x.1 % d != 0).cloned().collect();
                let q = self.unlin(k / d, &tq, w);
                let rest = self.unlin(k % d, &tr, w);
                let dk = self.konst(d, w);
                let r = self.bin(op, rest, dk);
                return Some(if quot { self.bin(Op::Add, q, r) } else { r });
            }
        }
        None
    }
    /// the negation of `a`
    fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        if n.op == Op::Not {
            let one = self.konst(1, w);
            return self.bin(Op::Add, n.a, one);
        }
        if n.op == Op::Sub && self.as_const(n.a) == Some(0) {
            return n.b;
        }
        let (mut k, mut t) = (0u128, vec![]);
        self.lin(a, mask(w), w, 24, &mut k, &mut t);
        if t.iter().all(|x| x.1 >> (w - 1) == 0) {
            return self.unlin(k, &t, w);
        }
        let z = self.konst(0, w);
        self.bin(Op::Sub, z, a)
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, k: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32) -> E {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.k as u32]),
            _ => {
                let mut out: Option<Rc<Vec<u32>>> = None;
                for ch in [n.a, n.b, n.c] {
                    if ch == 0 {
                        continue;
                    }
                    let v = self.vars_of(ch);
                    out = Some(match out {
                        None => v,
                        Some(o) => {
                            if Rc::ptr_eq(&o, &v) || v.is_empty() {
                                o
                            } else if o.is_empty() {
                                v
                            } else {
                                let mut m: Vec<u32> = o.iter().chain(v.iter()).cloned().collect();
                                m.sort();
                                m.dedup();
                                if m.len() == o.len() {
                                    o
                                } else {
                                    Rc::new(m)
                                }
                            }
                        }
                    });
                }
                out.unwrap()
            }
        };
        self.vars[e as usize] = Some(r.clone());
        r
    }

    /// Evaluate under a model (used for sanity checks and witness building).
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u8, memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => model(n.k as u32) as u128,
            Op::Not => !self.eval(n.a, model, memo) & mask(n.w as u32),
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => (sext(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(n.w as u32),
            Op::Extract => (self.eval(n.a, model, memo) >> n.k) & mask(n.w as u32),
            Op::Concat => (self.eval(n.a, model, memo) << self.w(n.b)) | self.eval(n.b, model, memo),
            op => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                ev_bin(op, self.w(n.a), a, b)
            }
        };
        memo.insert(e, r);
        r
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => return self.konst(!n.k, n.w as u32),
            Op::Not => return n.a,
            Op::Ult if n.w == 1 => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule if n.w == 1 => return self.bin(Op::Ult, n.b, n.a),
            _ => {}
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(n.k, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(sext(n.k, n.w as u32) as u128, w);
        }
        if n.op == Op::ZExt || self.nonneg(a) {
            return self.zext(a, w);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && n.w as u32 == w {
            return a;
        }
        if lo > 0 && self.range(a).1 >> lo == 0 {
            return self.konst(0, w);
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let p = self.extract(n.a, lo, iw - lo);
                return self.zext(p, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w == 1 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            // a multiple of 2^lo
            Op::Add | Op::Sub | Op::Mul if self.hard[a as usize] => {
                let (mut k, mut t) = (0u128, vec![]);
                let aw = n.w as u32;
                self.lin(a, 1, aw, 24, &mut k, &mut t);
                if k & mask(lo) == 0 && t.iter().all(|x| x.1 & mask(lo) == 0) {
                    for x in t.iter_mut() {
                        x.1 >>= lo;
                        // keep small negative factors small
                        if x.1 >> (aw - lo - 1) & 1 != 0 {
                            x.1 |= mask(lo) << (aw - lo);
                        }
                    }
                    k >>= lo;
                    if k >> (aw - lo - 1) & 1 != 0 {
                        k |= mask(lo) << (aw - lo);
                    }
                    let y = self.unlin(k, &t, aw);
                    return self.extract(y, 0, w);
                }
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if lo + k + w <= n.w as u32 {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
    }
    /// byte `i` of a stored number, kept as a part of that number
    pub fn byte_raw(&mut self, a: E, i: u32) -> E {
        if self.as_const(a).is_some() || self.w(a) == 8 || self.n(a).op == Op::Extract {
            return self.extract(a, i * 8, 8);
        }
        self.mk(Node { op: Op::Extract, w: 8, a, b: 0, c: 0, k: i as u128 * 8 })
    }
    /// such a byte on its own
    pub fn settle(&mut self, b: E) -> E {
        let n = self.n(b);
        if n.op == Op::Extract && self.is_sum(n.a) {
            return self.extract(n.a, n.k as u32, n.w as u32);
        }
        b
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let h = self.n(hi);
        let l = self.n(lo);
        let w = (h.w + l.w) as u32;
        if h.op == Op::Const && l.op == Op::Const {
            return self.konst((h.k << l.w) | l.k, w);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, l.k as u32, w);
        }
        if h.op == Op::Extract && h.a == lo && h.k == l.w as u128 {
            // cannot happen (extract beyond), keep generic
        }
        // low part is the truncation of a wider value whose high part follows
        if h.op == Op::Extract && l.op == Op::Concat {
            let ll = self.n(l.a);
            if ll.op == Op::Extract && ll.a == h.a && h.k == ll.k + ll.w as u128 {
                let nh = self.extract(h.a, ll.k as u32, (h.w + ll.w) as u32);
                return self.concat(nh, l.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(ev_bin(op, w, x, y), rw);
        }
        // canonical: constant on the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ka.is_some() || (kb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
        }
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        if matches!(op, Op::Add | Op::Sub) && kb.is_none() && (self.has_rem(a, 5) || self.has_rem(b, 5)) {
            let (mut k, mut t) = (0u128, vec![]);
            self.lin(a, 1, w, 24, &mut k, &mut t);
            self.lin(b, if op == Op::Add { 1 } else { m }, w, 24, &mut k, &mut t);
            if let Some(r) = self.recombine(k, t, w) {
                return r;
            }
        }
        if matches!(op, Op::Eq | Op::Slt | Op::Sle) && w > 8 && w < 127 && (self.hard[a as usize] || self.hard[b as usize]) {
            if op == Op::Eq {
                let (mut k, mut t) = (0u128, vec![]);
                self.lin(a, 1, w, 24, &mut k, &mut t);
                self.lin(b, m, w, 24, &mut k, &mut t);
                if let Some(r) = self.recombine(k, t.clone(), w) {
                    k = 0;
                    t.clear();
                    self.lin(r, 1, w, 24, &mut k, &mut t);
                }
                t.retain(|x| x.1 != 0);
                if t.is_empty() {
                    return self.konst((k == 0) as u128, 1);
                }
                if t.len() == 1 && (t[0].1 == 1 || t[0].1 == m) {
                    let v = if t[0].1 == 1 { k.wrapping_neg() } else { k };
                    let (nb, v) = (t[0].0, self.konst(v, w));
                    if nb != a && nb != b {
                        return self.bin(Op::Eq, nb, v);
                    }
                }
            }
            let n = self.sbits(a, b);
            if n < w && !(kb.is_some() && matches!(self.n(a).op, Op::UDiv | Op::URem)) {
                let x = self.extract(a, 0, n);
                let y = self.extract(b, 0, n);
                return self.bin(op, x, y);
            }
        }
        match op {
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                if let Some(d) = kb {
                    if let Some(r) = self.divide(op, a, d) {
                        return r;
                    }
                }
            }
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.as_const(n.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    let kk = self.konst((!k).wrapping_add(1), w);
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if a == b || kb == Some(m) {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            let kk = self.konst(k, iw);
                            let i = self.bin(Op::And, n.a, kk);
                            return self.zext(i, w);
                        }
                        Op::And => {
                            if let Some(k2) = self.as_const(n.b) {
                                let kk = self.konst(k & k2, w);
                                return self.bin(Op::And, n.a, kk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.konst(k, lw);
                            let kh = self.konst(k >> lw, hw);
                            let l = self.bin(Op::And, n.b, kl);
                            let h = self.bin(Op::And, n.a, kh);
                            return self.concat(h, l);
                        }
                        _ => {}
                    }
                    // low-bit mask -> zext(extract)
                    let t = k.count_ones();
                    if t < w && k == mask(t) {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let (na, nb) = (self.n(a), self.n(b));
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if let Some(k) = kb {
                    // no common bits
                    if self.hard[a as usize] && self.range(a).1 < 1 << k.trailing_zeros() {
                        return self.bin(Op::Add, a, b);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if op == Op::AShr && self.nonneg(a) {
                    return self.bin(Op::LShr, a, b);
                }
                if op == Op::AShr && kb == Some(w as u128 - 1) && self.hard[a as usize] {
                    // the sign
                    let z = self.konst(0, w);
                    let c = self.bin(Op::Slt, a, z);
                    let m1 = self.konst(m, w);
                    return self.ite(c, m1, z);
                }
                if let Some(k) = kb {
                    if op != Op::AShr && k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let x = self.extract(a, 0, w - k);
                        let z = self.konst(0, k);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Extract if n.k == 0 && matches!(self.n(n.a).op, Op::UDiv | Op::URem) && self.range(n.a).1 <= m => {
                            let iw = self.w(n.a);
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(n.b), self.as_const(n.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(n.b) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(n.b) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Not => {
                            let kk = self.konst(!k, w);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if sext(k & mask(iw), iw) as u128 & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.konst(k, lw);
                            let kh = self.konst(k >> lw, hw);
                            let p = self.bin(Op::Eq, n.a, kh);
                            if self.as_const(p) == Some(0) {
                                return p;
                            }
                            let q = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, p, q);
                        }
                        _ => {}
                    }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let p = self.bin(Op::Eq, na.a, nb.a);
                    let q = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, p, q);
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) {
                    return self.konst(0, 1);
                }
                if ka == Some(m) {
                    return self.konst(0, 1);
                }
                if kb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(k) = kb {
                        if k > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw {
                        return self.bin(Op::Ult, na.a, nb.a);
                    }
                }
                if nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if let Some(k) = ka {
                        if k >= mask(iw) {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                if na.op == Op::Ite && kb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                    let p = self.bin(Op::Ult, na.b, b);
                    let q = self.bin(Op::Ult, na.c, b);
                    return self.ite(na.a, p, q);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                if a == b || ka == Some(0) || kb == Some(m) {
                    return self.konst(1, 1);
                }
                if let Some(k) = kb {
                    let kk = self.konst(k + 1, w);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ka {
                    let kk = self.konst(k - 1, w);
                    return self.bin(Op::Ult, kk, b);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                let (na, nb) = (self.n(a), self.n(b));
                if op == Op::Slt && kb == Some(0) && na.op == Op::Sub && self.as_const(na.a) == Some(0) && self.nonneg(na.b) {
                    let x = self.bin(Op::Eq, na.b, b);
                    return self.not(x);
                }
                // comparisons of zero-extended values are unsigned
                let za = na.op == Op::ZExt || self.nonneg(a);
                let zb = nb.op == Op::ZExt || self.nonneg(b);
                if za && zb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test of a sign-extended value
                if na.op == Op::SExt && kb.is_some() {
                    let iw = self.w(na.a);
                    let k = sext(kb.unwrap(), w);
                    let lo = -(1i128 << (iw - 1));
                    let hi = (1i128 << (iw - 1)) - 1;
                    if k >= lo && k <= hi {
                        let kk = self.konst(k as u128, iw);
                        return self.bin(op, na.a, kk);
                    }
                    return self.konst((k > hi) as u128, 1);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0, k: 0 })
    }

    /// its bytes are better kept together
    pub fn is_sum(&self, e: E) -> bool {
        self.hard[e as usize] || matches!(self.nodes[e as usize].op, Op::Add | Op::Sub)
    }
    pub fn is_hard(&self, e: E) -> bool {
        self.hard[e as usize]
    }
    /// `e` where the conditions in `known` hold
    pub fn given(&mut self, e: E, known: &FxMap<E, ()>, eqs: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
        if !self.hard[e as usize] {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let mut r = eqs.get(&e).cloned().unwrap_or(0);
        if r == 0 && n.w == 1 {
            if known.contains_key(&e) {
                r = self.konst(1, 1);
            } else {
                let ne = self.not(e);
                if known.contains_key(&ne) {
                    r = self.konst(0, 1);
                }
            }
        }
        if r == 0 {
            let w = n.w as u32;
            let a = if n.a != 0 { self.given(n.a, known, eqs, memo) } else { 0 };
            if n.op == Op::Ite && self.as_const(a).is_some() {
                let x = if self.as_const(a) == Some(1) { n.b } else { n.c };
                r = self.given(x, known, eqs, memo);
            } else {
                let b = if n.b != 0 { self.given(n.b, known, eqs, memo) } else { 0 };
                let c = if n.c != 0 { self.given(n.c, known, eqs, memo) } else { 0 };
                r = if (a, b, c) == (n.a, n.b, n.c) {
                    e
                } else {
                    match n.op {
                        Op::Const | Op::Var => e,
                        Op::Not => self.not(a),
                        Op::ZExt => self.zext(a, w),
                        Op::SExt => self.sext(a, w),
                        Op::Extract => self.extract(a, n.k as u32, w),
                        Op::Concat => self.concat(a, b),
                        Op::Ite => self.ite(a, b, c),
                        op => self.bin(op, a, b),
                    }
                };
                if r != e && n.w == 1 && self.as_const(r).is_none() {
                    // the simpler form may be decided
                    if known.contains_key(&r) {
                        r = self.konst(1, 1);
                    } else {
                        let nr = self.not(r);
                        if known.contains_key(&nr) {
                            r = self.konst(0, 1);
                        }
                    }
                }
            }
        }
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => "...".into(),
            Op::Extract => format!("(extract[{}+{}] {})", n.k, n.w, self.show(n.a, depth - 1)),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                for ch in [n.a, n.b, n.c] {
                    if ch != 0 {
                        s.push(' ');
                        s += &self.show(ch, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct R(u64);
    impl R {
        fn n(&mut self, k: u64) -> u64 {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.0 >> 33) % k
        }
    }
    /// random terms: the value of the simplified node is the value of the operations
    #[test]
    fn simplifier() {
        let ks = [1u128, 2, 3, 7, 10, 60, 100, 1000, 3600, 86400, 1_000_000_000, 0xffff_ffff, u64::MAX as u128, (1u128 << 63), 0, 0x80, 0xff, (-3600i64) as u64 as u128];
        for seed in 0..SEEDS {
            let mut r = R(seed * 7919 + 1);
            let mut ar = Arena::new();
            let vals: Vec<[u8; 4]> = (0..6).map(|_| [r.n(256) as u8, r.n(256) as u8, r.n(10) as u8, [0, 255, 128, 127][r.n(4) as usize]]).collect();
            // (node, width, values)
            let mut pool: Vec<(E, u32, Vec<u128>)> = vec![];
            for i in 0..if seed % 3 == 0 { 1 } else { 4u32 } {
                let e = ar.var(i);
                pool.push((e, 8, vals.iter().map(|v| v[i as usize] as u128).collect()));
                let z = ar.zext(e, 64);
                let p = pool.last().unwrap().2.clone();
                pool.push((z, 64, p));
            }
            for _ in 0..40 {
                let (a, w, va) = pool[r.n(pool.len() as u64) as usize].clone();
                let (e, w2, v) = match r.n(14) {
                    0 => {
                        let t = [16, 32, 64, 128][r.n(4) as usize];
                        if t <= w {
                            continue;
                        }
                        (ar.zext(a, t), t, va)
                    }
                    1 => {
                        let t = [16, 32, 64, 128][r.n(4) as usize];
                        if t <= w {
                            continue;
                        }
                        (ar.sext(a, t), t, va.iter().map(|x| sext(*x, w) as u128 & mask(t)).collect())
                    }
                    2 => {
                        let t = 1 + r.n(w as u64) as u32;
                        let lo = r.n((w - t + 1) as u64) as u32;
                        (ar.extract(a, lo, t), t, va.iter().map(|x| (x >> lo) & mask(t)).collect())
                    }
                    3 => (ar.not(a), w, va.iter().map(|x| !x & mask(w)).collect()),
                    4 => {
                        let (b, w3, vb) = pool[r.n(pool.len() as u64) as usize].clone();
                        if w + w3 > 128 {
                            continue;
                        }
                        (ar.concat(a, b), w + w3, va.iter().zip(&vb).map(|(x, y)| (x << w3) | y).collect())
                    }
                    n => {
                        let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Add, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                        let op = ops[r.n(ops.len() as u64) as usize];
                        let cand: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == w).collect();
                        let (b, vb) = if n < 10 {
                            let k = ks[r.n(ks.len() as u64) as usize] & mask(w);
                            (ar.konst(k, w), vec![k; 6])
                        } else {
                            let c = &pool[cand[r.n(cand.len() as u64) as usize]];
                            (c.0, c.2.clone())
                        };
                        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
                        (ar.bin(op, a, b), if cmp { 1 } else { w }, va.iter().zip(&vb).map(|(x, y)| ev_bin(op, w, *x, *y)).collect())
                    }
                };
                for (i, v) in v.iter().enumerate() {
                    let m = |k: u32| vals[i][k as usize];
                    let got = ar.eval(e, &m, &mut Default::default());
                    let (lo, hi) = ar.range(e);
                    assert!(got == *v, "seed {} value {:#x} for {:#x}: {}", seed, got, v, ar.show(e, 9));
                    let (sl, sh) = ar.srange(e);
                    let sg = sext(got, w2);
                    assert!(sl <= sg && sg <= sh, "seed {} signed range {:#x} {:#x} {:#x}: {}", seed, sl, sg, sh, ar.show(e, 9));
                    assert!(lo <= got && got <= hi, "seed {} range {:#x} {:#x} {:#x}: {}", seed, lo, got, hi, ar.show(e, 9));
                }
                assert_eq!(ar.w(e), w2);
                pool.push((e, w2, v));
            }
        }
    }
    #[test]
    fn linear() {
        let mut ar = Arena::new();
        let (a, b) = (ar.var(0), ar.var(1));
        let c = ar.concat(a, b);
        let x = ar.zext(c, 17);
        let one = ar.konst(1, 17);
        let x1 = ar.bin(Op::Add, x, one);
        let th = ar.konst(1000, 17);
        let u = ar.bin(Op::URem, x1, th);
        let z = ar.konst(0, 32);
        let th = ar.konst(1000, 32);
        let mi = ar.konst(1_000_000, 32);
        let bi = ar.konst(1_000_000_000, 32);
        let u = ar.zext(u, 32);
        let m = ar.bin(Op::Sub, z, u);
        let m = ar.bin(Op::Add, m, th);
        let m = ar.bin(Op::Mul, m, mi);
        let m = ar.bin(Op::Sub, z, m);
        let m = ar.bin(Op::Add, m, bi);
        let m = ar.zext(m, 64);
        let (mut k, mut t) = (0, vec![]);
        ar.lin(m, 1, 64, 24, &mut k, &mut t);
        for x in &t {
            println!("{:#x} * {}", x.1, ar.show(x.0, 9));
        }
        assert!(k == 0 && t.len() == 1);
    }
    const SEEDS: u64 = 30000;
}
