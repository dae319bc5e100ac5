//! Reader for LLVM textual IR (LLVM 22/23 flavour emitted by rustc).
use crate::expr::FxMap;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Named(String),
    Opaque,
    Meta,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str), // raw, with escapes
    CStr(&'a str),
    Meta(&'a str), // !foo or !12
    Attr(&'a str), // #12
    P(u8),         // punctuation
    Dots,
    End,
}

fn is_id(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-'
}

pub struct Lex<'a> {
    s: &'a str,
    i: usize,
    pub cur: Tok<'a>,
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s, i: 0, cur: Tok::End };
        l.adv();
        l
    }
    pub fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    pub fn full(&self) -> &'a str {
        self.s
    }
    pub fn pos(&self) -> usize {
        self.i
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let b = self.s.as_bytes();
        let st = self.i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn ident(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < b.len() && is_id(b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn adv(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.cur, Tok::End);
        let b = self.s.as_bytes();
        loop {
            while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t' || b[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < b.len() && b[self.i] == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= b.len() {
            self.cur = Tok::End;
            return old;
        }
        let ch = b[self.i];
        self.cur = match ch {
            b'%' | b'@' => {
                self.i += 1;
                let n = if b[self.i] == b'"' { self.quoted() } else { self.ident() };
                if ch == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'!' => {
                self.i += 1;
                if self.i < b.len() && (is_id(b[self.i])) {
                    Tok::Meta(self.ident())
                } else {
                    Tok::P(b'!')
                }
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(self.ident())
            }
            b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'.' || b[self.i] == b'+' || b[self.i] == b'-') {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            _ if is_id(ch) => Tok::Word(self.ident()),
            _ => {
                self.i += 1;
                Tok::P(ch)
            }
        };
        old
    }
    pub fn is_p(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Word(x) if *x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn expect_p(&mut self, c: u8) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?} near {:?}", c as char, self.cur, &self.rest()[..self.rest().len().min(60)]))
        }
    }
    /// skip a balanced group starting at the current '(' '[' '{' or '<'
    pub fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.cur {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => d -= 1,
                Tok::End => return,
                _ => {}
            }
            self.adv();
            if d == 0 {
                return;
            }
        }
    }
    pub fn ty(&mut self) -> Result<Ty, String> {
        let t = self.adv();
        Ok(match t {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if self.is_w("addrspace") {
                    self.adv();
                    self.skip_group();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::F32,
            Tok::Word("double") => Ty::F64,
            Tok::Word("label") => Ty::Void,
            Tok::Word("metadata") => Ty::Meta,
            Tok::Word("opaque") => Ty::Opaque,
            Tok::Word("token") => Ty::Opaque,
            Tok::Word("half") | Tok::Word("bfloat") => Ty::Int(16),
            Tok::Word("fp128") => Ty::Int(128),
            Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tok::Local(n) => Ty::Named(n.to_string()),
            Tok::P(b'{') => Ty::Struct(self.ty_list(b'}')?, false),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let l = self.ty_list(b'}')?;
                    self.expect_p(b'>')?;
                    Ty::Struct(l, true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.expect_p(b'>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P(b'[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.expect_p(b']')?;
                Ty::Array(n, Box::new(t))
            }
            t => return Err(format!("bad type {:?} near {:?}", t, &self.rest()[..self.rest().len().min(80)])),
        })
    }
    fn ty_list(&mut self, end: u8) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(b',') {
                continue;
            }
            self.expect_p(end)?;
            return Ok(v);
        }
    }
    pub fn num(&mut self) -> Result<u64, String> {
        match self.adv() {
            Tok::Num(n) => n.parse().map_err(|_| format!("num {}", n)),
            t => Err(format!("expected number got {:?}", t)),
        }
    }
    pub fn at_type(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::Local(_) | Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            _ => false,
        }
    }
    fn at_value(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => matches!(
                *w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "blockaddress" | "asm" | "sub" | "add" | "trunc" | "xor" | "ptrtoaddr"
            ),
            Tok::Local(_) | Tok::Global(_) | Tok::Num(_) | Tok::CStr(_) | Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            Tok::P(b',') | Tok::P(b')') | Tok::End => true,
            Tok::Meta(_) | Tok::P(b'!') => true,
            _ => false,
        }
    }
    fn skip_one_attr(&mut self) {
        let t = self.adv();
        if let Tok::Word("align") = t {
            if let Tok::Num(_) = self.cur {
                self.adv();
            }
        }
        if let Tok::Str(_) = t {
            if self.eat_p(b'=') {
                self.adv();
            }
        }
        if self.is_p(b'(') {
            self.skip_group();
        }
    }
    pub fn skip_attrs_to_type(&mut self) {
        while !self.at_type() && self.cur != Tok::End {
            self.skip_one_attr();
        }
    }
    pub fn skip_attrs_to_value(&mut self) {
        while !self.at_value() {
            self.skip_one_attr();
        }
    }
}

#[derive(Debug, Clone)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Cast(Box<Const>), // inttoptr / ptrtoint / bitcast: value preserving
    Bin(&'static str, Ty, Box<Const>, Box<Const>),
    Trunc(u32, Box<Const>),
}

#[derive(Debug, Clone)]
pub enum Val {
    Local(String),
    C(Const),
    Meta,
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn parse_int(n: &str) -> Result<u128, String> {
    if let Some(x) = n.strip_prefix('-') {
        let v: u128 = x.parse().map_err(|_| format!("int {}", n))?;
        Ok((!v).wrapping_add(1))
    } else {
        n.parse().map_err(|_| format!("int {}", n))
    }
}

impl<'a> Lex<'a> {
    /// parse a value of the given type
    pub fn value(&mut self, ty: &Ty) -> Result<Val, String> {
        if let Tok::Local(n) = &self.cur {
            let n = n.to_string();
            self.adv();
            return Ok(Val::Local(n));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip to ',' or ')'
            let mut d = 0i32;
            loop {
                match self.cur {
                    Tok::P(b',') | Tok::P(b')') if d == 0 => break,
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b')') | Tok::P(b'}') => d -= 1,
                    Tok::End => break,
                    _ => {}
                }
                self.adv();
            }
            return Ok(Val::Meta);
        }
        Ok(Val::C(self.konst(ty)?))
    }
    pub fn konst(&mut self, ty: &Ty) -> Result<Const, String> {
        match self.adv() {
            Tok::Num(n) => match ty {
                Ty::F64 | Ty::F32 => {
                    let v = if let Some(h) = n.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        n.parse::<f64>().map_err(|e| format!("{} {}", n, e))?
                    };
                    Ok(Const::Int(if *ty == Ty::F64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 }))
                }
                _ => Ok(Const::Int(parse_int(n)?)),
            },
            Tok::Word("true") => Ok(Const::Int(1)),
            Tok::Word("false") => Ok(Const::Int(0)),
            Tok::Word("null") | Tok::Word("none") => Ok(Const::Int(0)),
            Tok::Word("undef") | Tok::Word("poison") => Ok(Const::Undef),
            Tok::Word("zeroinitializer") => Ok(Const::Zero),
            Tok::Global(g) => Ok(Const::Global(g.to_string())),
            Tok::CStr(s) => Ok(Const::Bytes(unescape(s))),
            Tok::Word("splat") => {
                self.expect_p(b'(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.expect_p(b')')?;
                Ok(Const::Splat(Box::new((t, c))))
            }
            Tok::P(b'{') => Ok(Const::Agg(self.konst_list(b'}')?)),
            Tok::P(b'[') => Ok(Const::Agg(self.konst_list(b']')?)),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let l = self.konst_list(b'}')?;
                    self.expect_p(b'>')?;
                    Ok(Const::Agg(l))
                } else {
                    Ok(Const::Agg(self.konst_list(b'>')?))
                }
            }
            Tok::Word("getelementptr") => {
                while !self.is_p(b'(') {
                    self.adv();
                    if self.is_p(b'(') && matches!(self.rest().trim_start().as_bytes().first(), Some(b'-') | Some(b'0'..=b'9')) {
                        // inrange(a, b)
                        self.skip_group();
                    }
                }
                self.expect_p(b'(')?;
                let t = self.ty()?;
                self.expect_p(b',')?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut idx = vec![];
                while self.eat_p(b',') {
                    let it = self.ty()?;
                    let c = self.konst(&it)?;
                    idx.push((it, c));
                }
                self.expect_p(b')')?;
                Ok(Const::Gep(t, Box::new(base), idx))
            }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast") | Tok::Word("ptrtoaddr") => {
                self.expect_p(b'(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                if !self.eat_w("to") {
                    return Err("const cast".into());
                }
                self.ty()?;
                self.expect_p(b')')?;
                Ok(Const::Cast(Box::new(c)))
            }
            Tok::Word("trunc") => {
                self.expect_p(b'(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                if !self.eat_w("to") {
                    return Err("const cast".into());
                }
                let t2 = self.ty()?;
                self.expect_p(b')')?;
                if let Ty::Int(w) = t2 {
                    Ok(Const::Trunc(w, Box::new(c)))
                } else {
                    Err("trunc".into())
                }
            }
            Tok::Word(op @ ("sub" | "add" | "xor")) => {
                let op = match op {
                    "sub" => "sub",
                    "add" => "add",
                    _ => "xor",
                };
                while !self.is_p(b'(') {
                    self.adv();
                }
                self.expect_p(b'(')?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.expect_p(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.expect_p(b')')?;
                Ok(Const::Bin(op, t, Box::new(a), Box::new(b)))
            }
            t => Err(format!("bad constant {:?} near {:?}", t, &self.rest()[..self.rest().len().min(80)])),
        }
    }
    fn konst_list(&mut self, end: u8) -> Result<Vec<(Ty, Const)>, String> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.konst(&t)?;
            v.push((t, c));
            if self.eat_p(b',') {
                continue;
            }
            self.expect_p(end)?;
            return Ok(v);
        }
    }
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}

pub struct FuncDef {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, String)>,
    /// (start, end) byte range of the body in the text; None for declarations
    pub body: Option<(usize, usize)>,
    pub dbg: Option<u32>,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub gidx: FxMap<String, usize>,
    pub funcs: Vec<FuncDef>,
    pub fidx: FxMap<String, usize>,
    pub aliases: HashMap<String, Const>,
    /// metadata lines: id -> byte range
    pub meta: FxMap<u32, (usize, usize)>,
}

impl Module {
    pub fn parse(text: String) -> Result<Module, String> {
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            globals: vec![],
            gidx: Default::default(),
            funcs: vec![],
            fidx: Default::default(),
            aliases: HashMap::new(),
            meta: Default::default(),
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let n = text.len();
        let line_end = |p: usize| -> usize { memchr(bytes, p, b'\n').unwrap_or(n) };
        while pos < n {
            let e = line_end(pos);
            let line = &text[pos..e];
            let start = pos;
            pos = e + 1;
            if line.is_empty() {
                continue;
            }
            match line.as_bytes()[0] {
                b'%' => {
                    let mut l = Lex::new(line);
                    if let Tok::Local(name) = l.adv() {
                        l.expect_p(b'=')?;
                        l.adv(); // type
                        let t = l.ty()?;
                        m.types.insert(name.to_string(), t);
                    }
                }
                b'@' => {
                    m.global(line).map_err(|x| format!("{}: {}", x, &line[..line.len().min(200)]))?;
                }
                b'd' if line.starts_with("define ") => {
                    // body up to a line "}"
                    let mut p = pos;
                    loop {
                        let e2 = line_end(p);
                        if &text[p..e2] == "}" {
                            break;
                        }
                        p = e2 + 1;
                        if p >= n {
                            return Err("unterminated function".into());
                        }
                    }
                    let body = (pos, p);
                    pos = line_end(p) + 1;
                    m.header(line, Some(body)).map_err(|x| format!("{}: {}", x, &line[..line.len().min(300)]))?;
                    let _ = start;
                }
                b'd' if line.starts_with("declare ") => {
                    m.header(line, None).map_err(|x| format!("{}: {}", x, &line[..line.len().min(300)]))?;
                }
                b'!' => {
                    if let Some(sp) = line.find(' ') {
                        if let Ok(id) = line[1..sp].parse::<u32>() {
                            m.meta.insert(id, (start, e));
                        }
                    }
                }
                _ => {}
            }
        }
        m.text = text;
        Ok(m)
    }

    fn header(&mut self, line: &str, body: Option<(usize, usize)>) -> Result<(), String> {
        let mut l = Lex::new(line);
        l.adv(); // define
        let mut dbg0 = None;
        // linkage etc, until type
        loop {
            if l.at_type() {
                break;
            }
            match &l.cur {
                Tok::Meta("dbg") => {
                    l.adv();
                    if let Tok::Meta(x) = l.cur {
                        dbg0 = x.parse().ok();
                    }
                    l.adv();
                }
                Tok::Meta(_) => {
                    l.adv();
                }
                Tok::End => return Err("header".into()),
                _ => l.skip_one_attr(),
            }
        }
        let ret = l.ty()?;
        let name = match l.adv() {
            Tok::Global(g) => g.to_string(),
            t => return Err(format!("function name {:?}", t)),
        };
        l.expect_p(b'(')?;
        let mut params = vec![];
        let mut un = 0;
        if !l.eat_p(b')') {
            loop {
                if l.cur == Tok::Dots {
                    l.adv();
                } else {
                    let t = l.ty()?;
                    while !matches!(l.cur, Tok::Local(_) | Tok::P(b',') | Tok::P(b')')) {
                        l.skip_one_attr();
                    }
                    let nm = if let Tok::Local(x) = l.cur {
                        l.adv();
                        if x.bytes().all(|c| c.is_ascii_digit()) {
                            un += 1;
                        }
                        x.to_string()
                    } else {
                        let s = un.to_string();
                        un += 1;
                        s
                    };
                    params.push((t, nm));
                }
                if l.eat_p(b',') {
                    continue;
                }
                l.expect_p(b')')?;
                break;
            }
        }
        let mut dbg = dbg0;
        if let Some(i) = line.rfind("!dbg !") {
            let t: String = line[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            dbg = t.parse().ok();
        }
        let i = self.funcs.len();
        if let Some(&j) = self.fidx.get(&name) {
            if self.funcs[j].body.is_none() {
                self.funcs[j] = FuncDef { name, ret, params, body, dbg };
            }
            return Ok(());
        }
        self.fidx.insert(name.clone(), i);
        self.funcs.push(FuncDef { name, ret, params, body, dbg });
        Ok(())
    }

    fn global(&mut self, line: &str) -> Result<(), String> {
        let mut l = Lex::new(line);
        let name = match l.adv() {
            Tok::Global(g) => g.to_string(),
            _ => return Err("global".into()),
        };
        l.expect_p(b'=')?;
        let mut tls = false;
        let mut external = false;
        loop {
            match &l.cur {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::Word("alias") => {
                    l.adv();
                    l.ty()?;
                    l.expect_p(b',')?;
                    let t = l.ty()?;
                    let c = l.konst(&t)?;
                    self.aliases.insert(name, c);
                    return Ok(());
                }
                Tok::Word("thread_local") => tls = true,
                Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                Tok::End => return Err("global header".into()),
                _ => {}
            }
            l.adv();
            if l.is_p(b'(') {
                l.skip_group();
            }
        }
        let constant = l.is_w("constant");
        l.adv();
        let ty = l.ty()?;
        let init = if external || l.is_p(b',') || l.cur == Tok::End { None } else { Some(l.konst(&ty)?) };
        let mut align = 1;
        while l.eat_p(b',') {
            if l.eat_w("align") {
                align = l.num()?;
            } else {
                while !l.is_p(b',') && l.cur != Tok::End {
                    l.adv();
                }
            }
        }
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(GlobalDef { name, ty, init, constant, tls, align });
        Ok(())
    }

    pub fn resolve<'b>(&'b self, t: &'b Ty) -> &'b Ty {
        let mut t = t;
        while let Ty::Named(n) = t {
            t = self.types.get(n).unwrap_or(&Ty::Opaque);
        }
        t
    }
    pub fn size_align(&self, t: &Ty) -> (u64, u64) {
        match self.resolve(t) {
            Ty::Void | Ty::Opaque | Ty::Meta => (0, 1),
            Ty::Int(w) => {
                let bytes = ((*w as u64) + 7) / 8;
                let mut al = 1;
                while al < bytes {
                    al *= 2;
                }
                let al = al.min(16);
                ((bytes + al - 1) / al * al, al)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
            Ty::Array(n, e) => {
                let (s, a) = self.size_align(e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let w = self.bits(e);
                let bytes = (n * w as u64 + 7) / 8;
                let mut al = 1;
                while al < bytes {
                    al *= 2;
                }
                ((bytes + al - 1) / al * al, al)
            }
            Ty::Named(_) => unreachable!(),
        }
    }
    pub fn bits(&self, t: &Ty) -> u32 {
        match self.resolve(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, e) => *n as u32 * self.bits(e),
            _ => (self.size_align(t).0 * 8) as u32,
        }
    }
    pub fn field_offset(&self, f: &[Ty], packed: bool, i: usize) -> u64 {
        let mut off = 0;
        for (j, x) in f.iter().enumerate() {
            let (s, a) = self.size_align(x);
            let a = if packed { 1 } else { a };
            off = (off + a - 1) / a * a;
            if j == i {
                return off;
            }
            off += s;
        }
        off
    }
    /// scalar leaves of a type: (byte offset, bit width, is_ptr)
    pub fn leaves(&self, t: &Ty, off: u64, out: &mut Vec<(u32, u16, bool)>) {
        match self.resolve(t) {
            Ty::Void | Ty::Opaque | Ty::Meta => {}
            Ty::Int(w) => out.push((off as u32, *w as u16, false)),
            Ty::Ptr => out.push((off as u32, 64, true)),
            Ty::F64 => out.push((off as u32, 64, false)),
            Ty::F32 => out.push((off as u32, 32, false)),
            Ty::Struct(f, p) => {
                for (i, x) in f.iter().enumerate() {
                    let o = self.field_offset(f, *p, i);
                    self.leaves(x, off + o, out);
                }
            }
            Ty::Array(n, e) => {
                let s = self.size_align(e).0;
                for i in 0..*n {
                    self.leaves(e, off + i * s, out);
                }
            }
            Ty::Vec(n, e) => {
                let w = self.bits(e);
                for i in 0..*n {
                    // sub-byte vectors in memory are not supported byte-wise; see interp
                    let o = i * w as u64 / 8;
                    out.push((off as u32 + o as u32, w as u16, matches!(**e, Ty::Ptr)));
                }
            }
            Ty::Named(_) => unreachable!(),
        }
    }
    pub fn nslots(&self, t: &Ty) -> usize {
        match self.resolve(t) {
            Ty::Void | Ty::Opaque | Ty::Meta => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Struct(f, _) => f.iter().map(|x| self.nslots(x)).sum(),
            Ty::Array(n, e) | Ty::Vec(n, e) => *n as usize * self.nslots(e),
            Ty::Named(_) => unreachable!(),
        }
    }
}

pub fn memchr(b: &[u8], from: usize, c: u8) -> Option<usize> {
    b[from..].iter().position(|x| *x == c).map(|i| i + from)
}

