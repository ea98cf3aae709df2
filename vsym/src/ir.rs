//! Parser for the textual LLVM IR rustc emits, lowered to a pre-resolved form.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn field_ty(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty on {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => V::I(konst(0, self.bits())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = t.zero();
                V::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into())
            }
            Ty::Struct(f, _) => V::A(f.iter().map(|t| t.zero()).collect::<Vec<_>>().into()),
            _ => V::I(E::C(0, 1)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    I(E),
    A(Rc<[V]>),
}
impl V {
    pub fn i(&self) -> E {
        match self {
            V::I(e) => *e,
            V::A(_) => panic!("scalar expected"),
        }
    }
    pub fn a(&self) -> &Rc<[V]> {
        match self {
            V::A(a) => a,
            _ => panic!("aggregate expected"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Op, Opd, Opd),
    FBin(String, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Icmp(Pred, Opd, Opd),
    Select(Opd, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Gep(Opd, u64, Vec<(Opd, u64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, u64, Option<Opd>),
    Phi(Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Call(Callee, Vec<Opd>, Ty, Option<u32>), // invoke: normal destination
    ExtractValue(Opd, Vec<u64>),
    InsertValue(Opd, Opd, Vec<u64>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i64>),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Nop,
    Resume,
}
#[derive(Debug)]
pub struct Block {
    pub insts: Vec<(u32, Inst)>, // (dest reg or NONE)
}
pub const NONE: u32 = u32::MAX;
#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub defined: bool,
    pub lines: (usize, usize),
    pub header: usize,
    pub body: std::cell::OnceCell<Rc<Body>>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub addr: u64,
    pub size: u64,
    pub init: Option<String>,
}

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 0x0010_0000;

pub struct Lx<'a> {
    pub s: &'a [u8],
    pub p: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),   // bare word
    Loc(String), // %x
    Glo(String), // @x
    Num(String),
    Str(Vec<u8>), // c"..." or "..."
    P(char),
    Meta, // !...
    End,
}
impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] as char).is_whitespace() {
            self.p += 1;
        }
        if self.p < self.s.len() && self.s[self.p] == b';' {
            while self.p < self.s.len() && self.s[self.p] != b'\n' {
                self.p += 1;
            }
            if self.p < self.s.len() {
                self.ws();
            }
        }
    }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let b = self.quoted();
            return String::from_utf8_lossy(&b).into_owned();
        }
        let st = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') {
                self.p += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            let c = self.s[self.p];
            if c == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(c);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    pub fn next(&mut self) -> T {
        self.ws();
        if self.p >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Glo(self.name())
            }
            b'!' => {
                self.p += 1;
                let _ = self.name();
                T::Meta
            }
            b'"' => T::Str(self.quoted()),
            b'#' => {
                self.p += 1;
                let n = self.name();
                T::W(format!("#{}", n))
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                T::Str(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len()
                    && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'.' | b'+' | b'-'))
                {
                    self.p += 1;
                }
                T::Num(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            b'.' => {
                // "..." varargs
                self.p += 1;
                T::P('.')
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => T::W(self.name()),
            _ => {
                self.p += 1;
                T::P(c as char)
            }
        }
    }
    pub fn peek(&mut self) -> T {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn eat(&mut self, c: char) -> bool {
        let p = self.p;
        if self.next() == T::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        let p = self.p;
        if let T::W(x) = self.next() {
            if x == w {
                return true;
            }
        }
        self.p = p;
        false
    }
    pub fn expect(&mut self, c: char) {
        let t = self.next();
        if t != T::P(c) {
            panic!(
                "expected {:?} got {:?} near {:?}",
                c,
                t,
                String::from_utf8_lossy(&self.s[self.p.saturating_sub(80)..(self.p + 40).min(self.s.len())])
            );
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "opaque"
    ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

impl Module {
    pub fn parse(text: String) -> Module {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        drop(text);
        let mut m = Module {
            lines: vec![],
            types: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
        };
        let mut i = 0;
        let mut glines = vec![];
        let mut headers = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('%') {
                let mut lx = Lx::new(l);
                if let T::Loc(n) = lx.next() {
                    lx.expect('=');
                    lx.eatw("type");
                    let t = if lx.eatw("opaque") { Ty::Other } else { m.ty(&mut lx) };
                    m.types.insert(n, t);
                }
            } else if l.starts_with('@') {
                glines.push(i);
            } else if l.starts_with("define") {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                headers.push((st, true, (st + 1, i)));
            } else if l.starts_with("declare") {
                headers.push((i, false, (0, 0)));
            }
            i += 1;
        }
        for (h, def, r) in headers {
            let (name, ret) = {
                let mut lx = Lx::new(&lines[h]);
                lx.next();
                m.skip_attrs(&mut lx);
                let ret = m.ty(&mut lx);
                let name = match lx.next() {
                    T::Glo(n) => n,
                    t => panic!("fn header {:?} {}", t, lines[h]),
                };
                (name, ret)
            };
            m.fidx.insert(name.clone(), m.funcs.len() as u32);
            m.funcs.push(Func { name, ret, defined: def, lines: r, header: h, body: Default::default() });
        }
        let mut addr = GLOB_BASE;
        for gi in glines {
            let l = &lines[gi];
            let mut lx = Lx::new(l);
            let name = match lx.next() {
                T::Glo(n) => n,
                _ => continue,
            };
            lx.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    T::W(w) => match w.as_str() {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        _ => {}
                    },
                    T::P('(') => {
                        lx.p -= 1;
                        lx.skip_parens();
                    }
                    T::End => break,
                    _ => {}
                }
            }
            if alias {
                let _ = m.ty(&mut lx);
                lx.expect(',');
                let _ = m.ty(&mut lx);
                if let T::Glo(t) = lx.next() {
                    if let Some(&f) = m.fidx.get(&t) {
                        m.fidx.insert(name, f);
                    } else if let Some(&g) = m.gidx.get(&t) {
                        m.gidx.insert(name, g);
                    }
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let init = if external { None } else { Some(l[lx.p..].to_string()) };
            let size = ty.size().max(if external { 64 } else { 0 });
            let mut al = ty.align().max(16);
            if let Some(p) = l.rfind(", align ") {
                let d: String = l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(x) = d.parse::<u64>() {
                    al = al.max(x);
                }
            }
            addr = (addr + al - 1) / al * al;
            m.gidx.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, ty, constant, addr, size, init });
            addr += size + 16;
        }
        assert!(addr < FUNC_BASE);
        m.lines = lines;
        m
    }

    pub fn func_addr(i: u32) -> u64 {
        FUNC_BASE + 16 * i as u64
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&f) = self.fidx.get(n) {
            Self::func_addr(f)
        } else if let Some(&g) = self.gidx.get(n) {
            self.globals[g as usize].addr
        } else {
            panic!("unknown symbol @{}", n)
        }
    }

    pub fn skip_attrs(&self, lx: &mut Lx) {
        loop {
            let save = lx.p;
            match lx.next() {
                T::W(w) => {
                    if is_type_word(&w) {
                        lx.p = save;
                        return;
                    }
                    if w == "align" || w == "cc" || w == "alignstack" {
                        if let T::Num(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if lx.peek() == T::P('(') {
                        lx.skip_parens();
                    }
                }
                T::Str(_) => {
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                _ => {
                    lx.p = save;
                    return;
                }
            }
        }
    }

    pub fn ty(&self, lx: &mut Lx) -> Ty {
        let t = lx.next();
        let base = match t {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.eatw("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                w if w.starts_with('i') && is_type_word(w) => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            T::Loc(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            T::P('[') => {
                let n = match lx.next() {
                    T::Num(n) => n.parse::<u64>().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                assert!(lx.eatw("x"));
                let e = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            T::P('{') => {
                let mut f = vec![];
                if !lx.eat('}') {
                    loop {
                        f.push(self.ty(lx));
                        if lx.eat('}') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                Ty::Struct(f, false)
            }
            T::P('<') => {
                if lx.eat('{') {
                    let mut f = vec![];
                    if !lx.eat('}') {
                        loop {
                            f.push(self.ty(lx));
                            if lx.eat('}') {
                                break;
                            }
                            lx.expect(',');
                        }
                    }
                    lx.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = match lx.next() {
                        T::Num(n) => n.parse::<u64>().unwrap(),
                        t => panic!("vec {:?}", t),
                    };
                    assert!(lx.eatw("x"));
                    let e = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            t => panic!("type? {:?} near {:?}", t, String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(60)..(lx.p + 60).min(lx.s.len())])),
        };
        base
    }

    pub fn konst(&self, lx: &mut Lx, ty: &Ty) -> V {
        let save = lx.p;
        match lx.next() {
            T::Num(n) => match ty {
                Ty::Double | Ty::Float => {
                    let f = if let Some(h) = n.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        n.parse::<f64>().unwrap_or(0.0)
                    };
                    if *ty == Ty::Double {
                        V::I(E::C(f.to_bits(), 64))
                    } else {
                        V::I(E::C((f as f32).to_bits() as u64, 32))
                    }
                }
                _ => {
                    let w = ty.bits();
                    let v = if let Some(m) = n.strip_prefix('-') {
                        (m.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        n.parse::<u128>().unwrap()
                    };
                    V::I(konst(v, w))
                }
            },
            T::Glo(n) => V::I(c64(self.sym_addr(&n))),
            T::Str(b) => V::A(b.iter().map(|&x| V::I(E::C(x as u64, 8))).collect::<Vec<_>>().into()),
            T::P('[') => {
                let mut v = vec![];
                if !lx.eat(']') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.konst(lx, &t));
                        if lx.eat(']') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                V::A(v.into())
            }
            T::P('{') => {
                let mut v = vec![];
                if !lx.eat('}') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.konst(lx, &t));
                        if lx.eat('}') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                V::A(v.into())
            }
            T::P('<') => {
                let packed = lx.eat('{');
                let mut v = vec![];
                loop {
                    if packed && lx.eat('}') {
                        break;
                    }
                    if !packed && lx.peek() == T::P('>') {
                        break;
                    }
                    let t = self.ty(lx);
                    v.push(self.konst(lx, &t));
                    lx.eat(',');
                }
                lx.expect('>');
                V::A(v.into())
            }
            T::W(w) => match w.as_str() {
                "true" => V::I(cbool(true)),
                "false" => V::I(cbool(false)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => ty.zero(),
                "splat" => {
                    lx.expect('(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.expect(')');
                    match ty {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => {
                            V::A((0..*n).map(|_| v.clone()).collect::<Vec<_>>().into())
                        }
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while let T::W(_) = lx.peek() {
                        lx.next();
                    }
                    // optional inrange(...)
                    if lx.peek() == T::P('(') {
                        let p = lx.p;
                        lx.next();
                        if let T::Num(_) = lx.peek() {
                            lx.p = p;
                            lx.skip_parens();
                            lx.expect('(');
                        }
                    }
                    let st = self.ty(lx);
                    lx.expect(',');
                    let bt = self.ty(lx);
                    let base = self.konst(lx, &bt).i();
                    let mut off = c64(0);
                    let mut cur = st.clone();
                    let mut first = true;
                    while lx.eat(',') {
                        let it = self.ty(lx);
                        let iv = self.konst(lx, &it).i();
                        let idx = sext128(as_const(iv).unwrap(), width(iv)) as i64;
                        if first {
                            off = bin(Op::Add, off, c64((idx as u64).wrapping_mul(st.size())));
                            first = false;
                        } else {
                            off = bin(Op::Add, off, c64(cur.field_off(idx as u64)));
                            cur = cur.field_ty(idx as u64);
                        }
                    }
                    lx.expect(')');
                    V::I(bin(Op::Add, base, off))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "ptrtoaddr" => {
                    while let T::W(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t).i();
                    assert!(lx.eatw("to"));
                    let d = self.ty(lx);
                    lx.expect(')');
                    let dw = d.bits();
                    let sw = width(v);
                    V::I(if dw < sw {
                        extract(v, 0, dw)
                    } else if w == "sext" {
                        sext(v, dw)
                    } else {
                        zext(v, dw)
                    })
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while let T::W(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let a = self.konst(lx, &t).i();
                    lx.expect(',');
                    let t2 = self.ty(lx);
                    let b = self.konst(lx, &t2).i();
                    lx.expect(')');
                    let op = match w.as_str() {
                        "sub" => Op::Sub,
                        "add" => Op::Add,
                        "xor" => Op::Xor,
                        "and" => Op::And,
                        "or" => Op::Or,
                        "mul" => Op::Mul,
                        "shl" => Op::Shl,
                        _ => Op::LShr,
                    };
                    V::I(bin(op, a, b))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, ty),
                _ => panic!("const? {} near {:?}", w, String::from_utf8_lossy(&lx.s[save..(save + 80).min(lx.s.len())])),
            },
            t => panic!("const? {:?} near {:?}", t, String::from_utf8_lossy(&lx.s[save..(save + 80).min(lx.s.len())])),
        }
    }

    pub fn body(&self, f: u32) -> Rc<Body> {
        let fu = &self.funcs[f as usize];
        fu.body.get_or_init(|| Rc::new(FB::new(self).build(fu))).clone()
    }
}

struct FB<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nb: u32,
}
impl<'m> FB<'m> {
    fn new(m: &'m Module) -> Self {
        FB { m, regs: HashMap::new(), blocks: HashMap::new(), nb: 0 }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let k = self.nb;
        self.nb += 1;
        self.blocks.insert(n.to_string(), k);
        k
    }
    fn opd(&mut self, lx: &mut Lx, ty: &Ty) -> Opd {
        if let T::Loc(n) = lx.peek() {
            lx.next();
            return Opd::R(self.reg(&n));
        }
        Opd::K(self.m.konst(lx, ty))
    }
    fn tyopd(&mut self, lx: &mut Lx) -> (Ty, Opd) {
        let t = self.m.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        assert!(lx.eatw("label"));
        match lx.next() {
            T::Loc(n) => self.blk(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn build(mut self, f: &Func) -> Body {
        // header params
        let m = self.m;
        let mut lx = Lx::new(&m.lines[f.header]);
        lx.next();
        m.skip_attrs(&mut lx);
        m.ty(&mut lx);
        lx.next();
        lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.eat(')') {
            loop {
                if lx.eat('.') {
                    lx.eat('.');
                    lx.eat('.');
                    lx.expect(')');
                    break;
                }
                m.ty(&mut lx);
                m.skip_attrs(&mut lx);
                let n = match lx.peek() {
                    T::Loc(n) => {
                        lx.next();
                        n
                    }
                    _ => {
                        let n = unnamed.to_string();
                        n
                    }
                };
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = self.reg(&n);
                params.push(r);
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        // join lines
        let mut stm: Vec<String> = vec![];
        let (a, b) = f.lines;
        for l in &m.lines[a..b] {
            if l.trim().is_empty() {
                continue;
            }
            if l.starts_with("    ") || l.starts_with("  ]") {
                if let Some(x) = stm.last_mut() {
                    if !x.starts_with("  #dbg") {
                        x.push(' ');
                        x.push_str(l.trim());
                        continue;
                    }
                }
            }
            stm.push(l.clone());
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur = Block { insts: vec![] };
        let mut curid;
        let first_is_label = stm.first().map_or(false, |l| !l.starts_with(' '));
        let mut it = stm.iter();
        if first_is_label {
            let l = it.next().unwrap();
            let n = lab(l);
            curid = self.blk(&n);
        } else {
            curid = self.blk(&unnamed.to_string());
        }
        for l in it {
            if !l.starts_with(' ') {
                if l.starts_with(';') {
                    continue;
                }
                let n = lab(l);
                let id = self.blk(&n);
                blocks.push((curid, std::mem::replace(&mut cur, Block { insts: vec![] })));
                curid = id;
                continue;
            }
            if l.starts_with("  #dbg") {
                continue;
            }
            if let Some((d, i)) = self.inst(l) {
                cur.insts.push((d, i));
            }
        }
        blocks.push((curid, cur));
        blocks.sort_by_key(|b| b.0);
        for (k, b) in blocks.iter().enumerate() {
            assert_eq!(k as u32, b.0, "block numbering in {}", f.name);
        }
        Body { nregs: self.regs.len() as u32, params, blocks: blocks.into_iter().map(|b| b.1).collect() }
    }
    fn inst(&mut self, l: &str) -> Option<(u32, Inst)> {
        let m = self.m;
        let mut lx = Lx::new(l);
        let mut dest = NONE;
        let mut t = lx.next();
        if let T::Loc(n) = &t {
            dest = self.reg(n);
            lx.expect('=');
            t = lx.next();
        }
        let mut w = match t {
            T::W(w) => w,
            t => panic!("inst {:?}: {}", t, l),
        };
        if matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match lx.next() {
                T::W(w) => w,
                _ => panic!(),
            };
        }
        let i = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                m.skip_attrs(&mut lx); // nuw nsw exact disjoint
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let b = self.opd(&mut lx, &t);
                let op = match w.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                Inst::Bin(op, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                m.skip_attrs(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let b = self.opd(&mut lx, &t);
                Inst::FBin(w.clone(), t, a, b)
            }
            "fneg" => {
                m.skip_attrs(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                Inst::FNeg(t, a)
            }
            "fcmp" => {
                let mut p = String::new();
                loop {
                    match lx.peek() {
                        T::W(x) if !is_type_word(&x) => {
                            lx.next();
                            p = x;
                        }
                        _ => break,
                    }
                }
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let b = self.opd(&mut lx, &t);
                Inst::FCmp(p, t, a, b)
            }
            "icmp" => {
                lx.eatw("samesign");
                let p = match lx.next() {
                    T::W(p) => p,
                    _ => panic!(),
                };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("pred {}", p),
                };
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let b = self.opd(&mut lx, &t);
                Inst::Icmp(p, a, b)
            }
            "select" => {
                m.skip_attrs(&mut lx);
                let (_, c) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                Inst::Select(c, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                m.skip_attrs(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                assert!(lx.eatw("to"));
                let d = m.ty(&mut lx);
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                Inst::Cast(c, t, a, d)
            }
            "getelementptr" => {
                m.skip_attrs(&mut lx);
                let st = m.ty(&mut lx);
                lx.expect(',');
                let (_, base) = self.tyopd(&mut lx);
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while lx.eat(',') {
                    if lx.peek() == T::Meta {
                        break;
                    }
                    let (_, o) = self.tyopd(&mut lx);
                    let scale;
                    if first {
                        scale = st.size();
                        first = false;
                        if let Opd::K(V::I(e)) = &o {
                            let idx = sext128(as_const(*e).unwrap(), width(*e)) as i64;
                            off = off.wrapping_add((idx as u64).wrapping_mul(scale));
                        } else {
                            dynv.push((o, scale));
                        }
                    } else {
                        if let Opd::K(V::I(e)) = &o {
                            let idx = sext128(as_const(*e).unwrap(), width(*e)) as i64;
                            match &cur {
                                Ty::Struct(..) => off = off.wrapping_add(cur.field_off(idx as u64)),
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    off = off.wrapping_add((idx as u64).wrapping_mul(t.size()))
                                }
                                _ => panic!("gep {:?}", cur),
                            }
                            cur = cur.field_ty(idx as u64);
                        } else {
                            let et = match &cur {
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                _ => panic!("gep dyn"),
                            };
                            dynv.push((o, et.size()));
                            cur = et;
                        }
                    }
                }
                Inst::Gep(base, off, dynv)
            }
            "load" => {
                lx.eatw("atomic");
                lx.eatw("volatile");
                let t = m.ty(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyopd(&mut lx);
                Inst::Load(t, p)
            }
            "store" => {
                lx.eatw("atomic");
                lx.eatw("volatile");
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyopd(&mut lx);
                Inst::Store(t, v, p)
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = m.ty(&mut lx);
                let mut cnt = None;
                let mut al = t.align();
                while lx.eat(',') {
                    if lx.eatw("align") {
                        if let T::Num(n) = lx.next() {
                            al = n.parse().unwrap();
                        }
                    } else if lx.peek() == T::Meta {
                        break;
                    } else {
                        let (_, o) = self.tyopd(&mut lx);
                        cnt = Some(o);
                    }
                }
                Inst::Alloca(t.size(), al, cnt)
            }
            "phi" => {
                m.skip_attrs(&mut lx);
                let t = m.ty(&mut lx);
                let mut v = vec![];
                loop {
                    if !lx.eat('[') {
                        break;
                    }
                    let o = self.opd(&mut lx, &t);
                    lx.expect(',');
                    let b = match lx.next() {
                        T::Loc(n) => self.blk(&n),
                        t => panic!("phi {:?}", t),
                    };
                    lx.expect(']');
                    v.push((o, b));
                    if !lx.eat(',') {
                        break;
                    }
                }
                Inst::Phi(v)
            }
            "br" => {
                if lx.peek() == T::W("label".into()) {
                    Inst::Br(self.label(&mut lx))
                } else {
                    let (_, c) = self.tyopd(&mut lx);
                    lx.expect(',');
                    let a = self.label(&mut lx);
                    lx.expect(',');
                    let b = self.label(&mut lx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(',');
                let d = self.label(&mut lx);
                lx.expect('[');
                let mut cs = vec![];
                while !lx.eat(']') {
                    let (_, c) = self.tyopd(&mut lx);
                    lx.expect(',');
                    let b = self.label(&mut lx);
                    if let Opd::K(V::I(e)) = c {
                        cs.push((as_const(e).unwrap(), b));
                    }
                }
                Inst::Switch(t.bits(), v, cs, d)
            }
            "ret" => {
                let t = m.ty(&mut lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&mut lx, &t)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "call" | "invoke" => {
                m.skip_attrs(&mut lx);
                let rt = m.ty(&mut lx);
                // function type?
                if lx.peek() == T::P('(') {
                    lx.skip_parens();
                }
                let mut callee = match lx.next() {
                    T::Glo(n) => {
                        if n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.invariant")
                            || n.starts_with("llvm.prefetch")
                            || n.starts_with("llvm.fake.use")
                        {
                            return None;
                        }
                        match self.m.fidx.get(&n) {
                            Some(&f) => Callee::Fn(f),
                            None => panic!("unknown callee {}", n),
                        }
                    }
                    T::Loc(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    T::W(w) if w == "asm" => {
                        let mut s = String::new();
                        loop {
                            match lx.next() {
                                T::W(_) => {}
                                T::Str(b) => {
                                    s = String::from_utf8_lossy(&b).into_owned();
                                    lx.eat(',');
                                    lx.next();
                                    break;
                                }
                                _ => break,
                            }
                        }
                        Callee::Asm(s)
                    }
                    T::W(w) => {
                        // constant expression callee
                        let p = lx.p - w.len();
                        lx.p = p;
                        let v = m.konst(&mut lx, &Ty::Ptr);
                        Callee::Ind(Opd::K(v))
                    }
                    t => panic!("callee {:?}: {}", t, l),
                };
                if let Callee::Ind(Opd::K(V::I(E::C(a, _)))) = &callee {
                    if *a >= FUNC_BASE && (*a - FUNC_BASE) / 16 < m.funcs.len() as u64 {
                        callee = Callee::Fn(((*a - FUNC_BASE) / 16) as u32);
                    }
                }
                lx.expect('(');
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        let t = m.ty(&mut lx);
                        if t == Ty::Other {
                            // metadata operand
                            let mut d = 0;
                            loop {
                                let p = lx.p;
                                match lx.next() {
                                    T::P('(') => d += 1,
                                    T::P(')') => {
                                        if d == 0 {
                                            lx.p = p;
                                            break;
                                        }
                                        d -= 1
                                    }
                                    T::P(',') if d == 0 => {
                                        lx.p = p;
                                        break;
                                    }
                                    T::End => break,
                                    _ => {}
                                }
                            }
                            args.push(Opd::K(V::I(E::C(0, 1))));
                        } else {
                            self.pattrs(&mut lx);
                            args.push(self.opd(&mut lx, &t));
                        }
                        if lx.eat(')') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    loop {
                        match lx.next() {
                            T::W(x) if x == "to" => break,
                            T::End => panic!("invoke: {}", l),
                            _ => {}
                        }
                    }
                    normal = Some(self.label(&mut lx));
                }
                Inst::Call(callee, args, rt, normal)
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut lx);
                let mut ix = vec![];
                while lx.eat(',') {
                    match lx.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                let mut ix = vec![];
                while lx.eat(',') {
                    match lx.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertValue(a, b, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                Inst::ExtractElement(a, b)
            }
            "insertelement" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, c) = self.tyopd(&mut lx);
                Inst::InsertElement(a, b, c)
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, c) = self.tyopd(&mut lx);
                let mask = match c {
                    Opd::K(v) => v
                        .a()
                        .iter()
                        .map(|x| as_const(x.i()).unwrap() as i64)
                        .collect::<Vec<_>>(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(a, b, mask)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let op = match lx.next() {
                    T::W(o) => o,
                    _ => panic!(),
                };
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(',');
                let (t, v) = self.tyopd(&mut lx);
                Inst::AtomicRmw(op, t, p, v)
            }
            "cmpxchg" => {
                lx.eatw("weak");
                lx.eatw("volatile");
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(',');
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyopd(&mut lx);
                Inst::CmpXchg(t, p, a, b)
            }
            "freeze" => {
                let (_, a) = self.tyopd(&mut lx);
                Inst::Freeze(a)
            }
            "fence" => return None,
            "landingpad" => Inst::Nop,
            "resume" => Inst::Resume,
            _ => panic!("unsupported instruction: {}", l),
        };
        Some((dest, i))
    }
    /// Parameter attributes between a type and its operand in a call.
    fn pattrs(&mut self, lx: &mut Lx) {
        loop {
            let save = lx.p;
            match lx.next() {
                T::W(w) => {
                    let isattr = matches!(
                        w.as_str(),
                        "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "signext" | "zeroext"
                            | "align" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures"
                            | "range" | "returned" | "nocapture" | "inreg" | "immarg" | "nofree" | "initializes"
                            | "allocptr" | "allocalign" | "dead_on_unwind" | "dead_on_return" | "writable" | "nest"
                            | "swiftself" | "nofpclass" | "noext" | "byref" | "elementtype" | "inalloca" | "preallocated" | "swifterror"
                    );
                    if !isattr {
                        lx.p = save;
                        return;
                    }
                    if w == "align" {
                        if let T::Num(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if lx.peek() == T::P('(') {
                        lx.skip_parens();
                    }
                }
                _ => {
                    lx.p = save;
                    return;
                }
            }
        }
    }
}

fn lab(l: &str) -> String {
    let mut lx = Lx::new(l);
    match lx.next() {
        T::Str(b) => String::from_utf8_lossy(&b).into_owned(),
        _ => {
            let e = l.find(':').unwrap_or_else(|| panic!("label line {:?}", l));
            l[..e].to_string()
        }
    }
}
