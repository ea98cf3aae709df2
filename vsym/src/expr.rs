//! Hash-consed bit-vector expressions with a light simplifier.
use std::collections::HashMap;

pub type Id = u32;

/// A bit-vector value: either a constant of width <= 64 or an arena node.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    C(u64, u8),
    S(Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

/// Floating point over IEEE bit patterns (width 32 or 64 of the operands or the result).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    /// Unsigned/signed integer to float (round to nearest even).
    FromU,
    FromS,
    /// Float to integer, saturating, NaN to 0.
    ToU,
    ToS,
    /// Between the two float widths.
    Cvt,
    Eq,
    Lt,
    Le,
    Nan,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    F(FOp, E, E),
    Var(u32),
    Wide(u128),
    Bin(Op, E, E),
    Cmp(Cmp, E, E),
    Not(E),
    Ite(E, E, E),
    Ext(E, u16),
    Cat(E, E),
    ZExt(E),
    SExt(E),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    pub vset: Vec<u32>,
    pub fp: Vec<bool>,
    map: HashMap<(Node, u16), Id, Fx>,
    pub sets: Vec<Vec<u64>>,
    setmap: HashMap<Vec<u64>, u32, Fx>,
    unioncache: HashMap<(u32, u32), u32, Fx>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}

static mut AR: *mut Arena = std::ptr::null_mut();
pub fn ar() -> &'static mut Arena {
    unsafe {
        if AR.is_null() {
            AR = Box::into_raw(Box::new(Arena {
                nodes: vec![],
                width: vec![],
                vset: vec![],
                fp: vec![],
                map: HashMap::with_hasher(Fx),
                sets: vec![vec![]],
                setmap: {
                    let mut m = HashMap::with_hasher(Fx);
                    m.insert(vec![], 0);
                    m
                },
                unioncache: HashMap::with_hasher(Fx),
                memo: vec![],
                epoch: 0,
            }));
        }
        &mut *AR
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

impl Arena {
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unioncache.get(&k) {
            return r;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let n = x.len().max(y.len());
        let mut v = vec![0u64; n];
        for i in 0..n {
            v[i] = x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0);
        }
        let r = self.intern_set(v);
        self.unioncache.insert(k, r);
        r
    }
    pub fn intern_set(&mut self, v: Vec<u64>) -> u32 {
        if let Some(&r) = self.setmap.get(&v) {
            return r;
        }
        let r = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.setmap.insert(v, r);
        r
    }
    fn vs(&self, e: E) -> u32 {
        match e {
            E::C(..) => 0,
            E::S(i) => self.vset[i as usize],
        }
    }
    pub fn mk(&mut self, n: Node, w: u32) -> E {
        let key = (n, w as u16);
        if let Some(&id) = self.map.get(&key) {
            return E::S(id);
        }
        let vs = match &key.0 {
            Node::Var(i) => {
                let mut v = vec![0u64; (*i as usize) / 64 + 1];
                v[(*i as usize) / 64] |= 1 << (i % 64);
                self.intern_set(v)
            }
            Node::Wide(_) => 0,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Cat(a, b) | Node::F(_, a, b) => {
                let (x, y) = (self.vs(*a), self.vs(*b));
                self.union(x, y)
            }
            Node::Not(a) | Node::Ext(a, _) | Node::ZExt(a) | Node::SExt(a) => self.vs(*a),
            Node::Ite(c, a, b) => {
                let (x, y, z) = (self.vs(*c), self.vs(*a), self.vs(*b));
                let u = self.union(x, y);
                self.union(u, z)
            }
        };
        let fq = |e: &E| match e {
            E::C(..) => false,
            E::S(i) => self.fp[*i as usize],
        };
        let fp = match &key.0 {
            Node::F(..) => true,
            Node::Var(_) | Node::Wide(_) => false,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Cat(a, b) => fq(a) || fq(b),
            Node::Not(a) | Node::Ext(a, _) | Node::ZExt(a) | Node::SExt(a) => fq(a),
            Node::Ite(c, a, b) => fq(c) || fq(a) || fq(b),
        };
        self.fp.push(fp);
        let id = self.nodes.len() as u32;
        self.nodes.push(key.0.clone());
        self.width.push(w as u16);
        self.vset.push(vs);
        self.memo.push((0, 0));
        self.map.insert(key, id);
        E::S(id)
    }
    /// Evaluate an expression under a model (bytes per variable; absent = 0).
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.epoch += 1;
        self.ev(e, model)
    }
    pub fn new_epoch(&mut self) -> u32 {
        self.epoch += 1;
        self.epoch
    }
    /// Evaluate under the model with identity `mid` (memoised across calls).
    pub fn eval_m(&mut self, e: E, model: &[u8], mid: u32) -> u128 {
        let save = self.epoch;
        self.epoch = mid;
        let r = self.ev(e, model);
        self.epoch = save;
        r
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let id = match e {
            E::C(v, _) => return v as u128,
            E::S(i) => i as usize,
        };
        if self.memo[id].0 == self.epoch {
            return self.memo[id].1;
        }
        let w = self.width[id] as u32;
        let n = self.nodes[id].clone();
        let r = match n {
            Node::Var(i) => m.get(i as usize).copied().unwrap_or(0) as u128,
            Node::Wide(v) => v,
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                bin_const(op, x, y, w)
            }
            Node::F(op, a, b) => {
                let (aw, x, y) = (width(a), self.ev(a, m), self.ev(b, m));
                fconst(op, x, y, aw, w)
            }
            Node::Cmp(op, a, b) => {
                let aw = width(a);
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                cmp_const(op, x, y, aw) as u128
            }
            Node::Not(a) => !self.ev(a, m) & mask(w),
            Node::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            Node::Ext(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            Node::Cat(a, b) => {
                let bw = width(b);
                (self.ev(a, m) << bw) | self.ev(b, m)
            }
            Node::ZExt(a) => self.ev(a, m),
            Node::SExt(a) => {
                let aw = width(a);
                (sext128(self.ev(a, m), aw) as u128) & mask(w)
            }
        };
        self.memo[id] = (self.epoch, r);
        r
    }
}

#[inline]
pub fn width(e: E) -> u32 {
    match e {
        E::C(_, w) => w as u32,
        E::S(i) => ar().width[i as usize] as u32,
    }
}
pub fn konst(v: u128, w: u32) -> E {
    let v = v & mask(w);
    if w <= 64 {
        E::C(v as u64, w as u8)
    } else {
        ar().mk(Node::Wide(v), w)
    }
}
pub fn c64(v: u64) -> E {
    E::C(v, 64)
}
pub fn cbool(b: bool) -> E {
    E::C(b as u64, 1)
}
pub fn var(i: u32) -> E {
    ar().mk(Node::Var(i), 8)
}
pub fn as_const(e: E) -> Option<u128> {
    match e {
        E::C(v, _) => Some(v as u128),
        E::S(i) => match ar().nodes[i as usize] {
            Node::Wide(v) => Some(v),
            _ => None,
        },
    }
}
pub fn node(e: E) -> Option<Node> {
    match e {
        E::C(..) => None,
        E::S(i) => Some(ar().nodes[i as usize].clone()),
    }
}

pub fn bin_const(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext128(x, w);
            (if y >= w as u128 { a >> (w - 1) } else { a >> y }) as u128
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
    };
    r & m
}
pub fn cmp_const(op: Cmp, x: u128, y: u128, w: u32) -> bool {
    match op {
        Cmp::Eq => x == y,
        Cmp::Ult => x < y,
        Cmp::Ule => x <= y,
        Cmp::Slt => sext128(x, w) < sext128(y, w),
        Cmp::Sle => sext128(x, w) <= sext128(y, w),
    }
}

pub fn not(a: E) -> E {
    let w = width(a);
    if let Some(v) = as_const(a) {
        return konst(!v, w);
    }
    match node(a) {
        Some(Node::Not(x)) => return x,
        Some(Node::Cmp(Cmp::Ult, x, y)) => return cmp(Cmp::Ule, y, x),
        Some(Node::Cmp(Cmp::Ule, x, y)) => return cmp(Cmp::Ult, y, x),
        Some(Node::Cmp(Cmp::Slt, x, y)) => return cmp(Cmp::Sle, y, x),
        Some(Node::Cmp(Cmp::Sle, x, y)) => return cmp(Cmp::Slt, y, x),
        _ => {}
    }
    ar().mk(Node::Not(a), w)
}

/// Upper bound on the unsigned value of an expression (cheap).
pub fn umax(e: E) -> u128 {
    umaxd(e, 6)
}
fn umaxd(e: E, d: u32) -> u128 {
    let w = width(e);
    if d == 0 && as_const(e).is_none() {
        return mask(w);
    }
    let umax = |x: E| umaxd(x, d - 1);
    if let Some(v) = as_const(e) {
        return v;
    }
    match node(e).unwrap() {
        Node::ZExt(a) => umax(a),
        Node::Cat(h, l) => {
            let lw = width(l);
            (umax(h) << lw) | mask(lw)
        }
        Node::Bin(Op::And, a, b) => umax(a).min(umax(b)),
        Node::Bin(Op::LShr, a, b) => {
            if let Some(k) = as_const(b) {
                if k < 128 {
                    return umax(a) >> k;
                }
            }
            mask(w)
        }
        Node::Bin(Op::Add, a, b) => {
            let (x, y) = (umax(a), umax(b));
            match x.checked_add(y) {
                Some(s) if s <= mask(w) => s,
                _ => mask(w),
            }
        }
        Node::Bin(Op::URem, _, b) => {
            if let Some(k) = as_const(b) {
                if k > 0 {
                    return k - 1;
                }
            }
            mask(w)
        }
        Node::Ite(_, a, b) => umax(a).max(umax(b)),
        _ => mask(w),
    }
}

/// Splits sums and differences into terms and a constant; false when there are too many.
fn terms(e: E, sign: i64, out: &mut Vec<(E, i64)>, k: &mut u128) -> bool {
    if let Some(v) = as_const(e) {
        *k = if sign > 0 { k.wrapping_add(v) } else { k.wrapping_sub(v) };
        return true;
    }
    match node(e) {
        Some(Node::Bin(Op::Add, x, y)) => terms(x, sign, out, k) && terms(y, sign, out, k),
        Some(Node::Bin(Op::Sub, x, y)) => terms(x, sign, out, k) && terms(y, -sign, out, k),
        _ => {
            if out.len() >= 16 {
                return false;
            }
            out.push((e, sign));
            true
        }
    }
}
/// `x` plus or minus `y`, if terms cancel out.
fn cancel(x: E, y: E, sub: bool, w: u32) -> Option<E> {
    if w < 32 {
        return None;
    }
    let sum = |e: E| matches!(node(e), Some(Node::Bin(Op::Add | Op::Sub, _, _)));
    if !sum(x) && !sum(y) {
        return None;
    }
    let (mut t, mut k) = (Vec::new(), 0u128);
    if !terms(x, 1, &mut t, &mut k) || !terms(y, if sub { -1 } else { 1 }, &mut t, &mut k) {
        return None;
    }
    let n = t.len();
    let mut r: Vec<(E, i64)> = Vec::new();
    for (e, c) in t {
        match r.iter().position(|q| q.0 == e && q.1 == -c) {
            Some(i) => {
                r.remove(i);
            }
            None => r.push((e, c)),
        }
    }
    if r.len() == n {
        return None;
    }
    let zero = konst(0, w);
    let mut acc: Option<E> = None;
    for (e, _) in r.iter().filter(|q| q.1 > 0) {
        acc = Some(match acc {
            None => *e,
            Some(a) => bin(Op::Add, a, *e),
        });
    }
    for (e, _) in r.iter().filter(|q| q.1 < 0) {
        acc = Some(bin(Op::Sub, acc.unwrap_or(zero), *e));
    }
    Some(bin(Op::Add, acc.unwrap_or(zero), konst(k & mask(w), w)))
}

/// `a` and `b`, or `a` or `b`, where one compares the same two values as the other.
fn two_cmps(op: Op, a: E, b: E) -> Option<E> {
    let strict = |c: Cmp| matches!(c, Cmp::Ult | Cmp::Slt);
    let same = |p: (E, E), q: (E, E)| p == q || p == (q.1, q.0);
    match (op, node(a), node(b)) {
        // x < y and x != y
        (Op::And, Some(Node::Cmp(c, x, y)), Some(Node::Not(e))) | (Op::And, Some(Node::Not(e)), Some(Node::Cmp(c, x, y))) if c != Cmp::Eq => {
            if let Some(Node::Cmp(Cmp::Eq, p, q)) = node(e) {
                if same((x, y), (p, q)) {
                    let c = match c {
                        Cmp::Ule => Cmp::Ult,
                        Cmp::Sle => Cmp::Slt,
                        c => c,
                    };
                    return Some(cmp(c, x, y));
                }
            }
            None
        }
        (_, Some(Node::Cmp(Cmp::Eq, p, q)), Some(Node::Cmp(c, x, y))) | (_, Some(Node::Cmp(c, x, y)), Some(Node::Cmp(Cmp::Eq, p, q)))
            if c != Cmp::Eq && same((x, y), (p, q)) =>
        {
            if op == Op::Or {
                return Some(if strict(c) { cmp(if c == Cmp::Ult { Cmp::Ule } else { Cmp::Sle }, x, y) } else { cmp(c, x, y) });
            }
            if op == Op::And {
                return Some(if strict(c) { cbool(false) } else { cmp(Cmp::Eq, p, q) });
            }
            None
        }
        _ => None,
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(bin_const(op, x, y, w), w);
    }
    let m = mask(w);
    // canonical: constant on the right for commutative ops
    let (a, b, ca, cb) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if ca.is_some() => (b, a, cb, ca),
        _ => (a, b, ca, cb),
    };
    if matches!(op, Op::Add | Op::Sub) && ca.is_none() && cb.is_none() {
        if let Some(e) = cancel(a, b, op == Op::Sub, w) {
            return e;
        }
    }
    if w == 1 && matches!(op, Op::And | Op::Or) {
        if let Some(e) = two_cmps(op, a, b) {
            return e;
        }
    }
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                if let Some(Node::Bin(Op::Add, x, k)) = node(a) {
                    if let Some(kv) = as_const(k) {
                        return bin(Op::Add, x, konst(kv.wrapping_add(y), w));
                    }
                }
            } else {
                // float constants outward
                if let Some(Node::Bin(Op::Add, x, k)) = node(a) {
                    if as_const(k).is_some() {
                        return bin(Op::Add, bin(Op::Add, x, b), k);
                    }
                }
                if let Some(Node::Bin(Op::Add, x, k)) = node(b) {
                    if as_const(k).is_some() {
                        return bin(Op::Add, bin(Op::Add, a, x), k);
                    }
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, w);
            }
            if let Some(y) = cb {
                return bin(Op::Add, a, konst(0u128.wrapping_sub(y), w));
            }
            if let Some(Node::Bin(Op::Add, x, k)) = node(a) {
                if as_const(k).is_some() {
                    return bin(Op::Add, bin(Op::Sub, x, b), k);
                }
                if x == b {
                    return k;
                }
                if k == b {
                    return x;
                }
            }
            if let Some(Node::Bin(Op::Add, x, k)) = node(b) {
                if let Some(kv) = as_const(k) {
                    return bin(Op::Add, bin(Op::Sub, a, x), konst(0u128.wrapping_sub(kv), w));
                }
                if x == a {
                    return bin(Op::Sub, konst(0, w), k);
                }
                if k == a {
                    return bin(Op::Sub, konst(0, w), x);
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, konst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, konst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, konst(k - 1, w));
                }
                if umax(a) < k {
                    return a;
                }
            }
        }
        Op::SDiv | Op::SRem => {}
        Op::And => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(m) {
                return a;
            }
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                // low mask -> zext(extract)
                if (k & (k + 1)) == 0 {
                    let n = 128 - k.leading_zeros();
                    return zext(extract(a, 0, n), w);
                }
                if let Some(Node::Bin(Op::And, x, k2)) = node(a) {
                    if let Some(k2v) = as_const(k2) {
                        return bin(Op::And, x, konst(k & k2v, w));
                    }
                }
                if let Some(Node::ZExt(x)) = node(a) {
                    let xw = width(x);
                    return zext(bin(Op::And, x, konst(k & mask(xw), xw)), w);
                }
                if let Some(Node::Cat(h, l)) = node(a) {
                    let lw = width(l);
                    let hw = width(h);
                    return concat(
                        bin(Op::And, h, konst(k >> lw, hw)),
                        bin(Op::And, l, konst(k & mask(lw), lw)),
                    );
                }
            }
            if w == 1 {
                if not(a) == b {
                    return cbool(false);
                }
            }
            if let (Some(Node::ZExt(x)), Some(Node::ZExt(y))) = (node(a), node(b)) {
                if width(x) == width(y) {
                    return zext(bin(Op::And, x, y), w);
                }
            }
        }
        Op::Or => {
            if cb == Some(0) {
                return a;
            }
            if cb == Some(m) {
                return b;
            }
            if a == b {
                return a;
            }
            if w == 1 && not(a) == b {
                return cbool(true);
            }
            // or of disjoint halves: cat(x, 0) | zext(y)
            if let Some(r) = or_cat(a, b, w).or_else(|| or_cat(b, a, w)) {
                return r;
            }
            if let (Some(Node::ZExt(x)), Some(Node::ZExt(y))) = (node(a), node(b)) {
                if width(x) == width(y) {
                    return zext(bin(Op::Or, x, y), w);
                }
            }
        }
        Op::Xor => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, w);
            }
            if cb == Some(m) {
                return not(a);
            }
            if let Some(k) = cb {
                if let Some(Node::Bin(Op::Xor, x, k2)) = node(a) {
                    if let Some(k2v) = as_const(k2) {
                        return bin(Op::Xor, x, konst(k ^ k2v, w));
                    }
                }
                if let Some(Node::ZExt(x)) = node(a) {
                    let xw = width(x);
                    if k & !mask(xw) == 0 {
                        return zext(bin(Op::Xor, x, konst(k, xw)), w);
                    }
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= w as u128 {
                    return konst(0, w);
                }
                return concat(extract(a, 0, w - k as u32), konst(0, k as u32));
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::LShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= w as u128 {
                    return konst(0, w);
                }
                return zext(extract(a, k as u32, w - k as u32), w);
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                let k = (k).min(w as u128 - 1) as u32;
                return sext(extract(a, k, w - k), w);
            }
        }
    }
    // push through ite with constant branches
    if let Some(y) = cb {
        if let Some(Node::Ite(c, t, f)) = node(a) {
            if let (Some(tv), Some(fv)) = (as_const(t), as_const(f)) {
                return ite(c, konst(bin_const(op, tv, y, w), w), konst(bin_const(op, fv, y, w), w));
            }
        }
    }
    let (a, b) = match op {
        Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul => {
            if let (E::S(i), E::S(j)) = (a, b) {
                if i > j {
                    (b, a)
                } else {
                    (a, b)
                }
            } else {
                (a, b)
            }
        }
        _ => (a, b),
    };
    ar().mk(Node::Bin(op, a, b), w)
}

/// a = cat(h, 0..0) and b fits the low part.
fn or_cat(a: E, b: E, w: u32) -> Option<E> {
    if let Some(Node::Cat(h, l)) = node(a) {
        let lw = width(l);
        if as_const(l) == Some(0) {
            if let Some(Node::ZExt(x)) = node(b) {
                if width(x) <= lw {
                    return Some(concat(h, zext(x, lw)));
                }
            }
            if let Some(v) = as_const(b) {
                if v & !mask(lw) == 0 {
                    return Some(concat(h, konst(v, lw)));
                }
            }
            // b = cat(h2, l2) with h2's top part zero
            if umax(b) <= mask(lw) {
                return Some(concat(h, extract(b, 0, lw)));
            }
        }
        // h constant zero: handled by concat -> zext
        let _ = w;
    }
    None
}

pub fn cmp(op: Cmp, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cbool(cmp_const(op, x, y, w));
    }
    let m = mask(w);
    match op {
        Cmp::Eq => {
            if a == b {
                return cbool(true);
            }
            let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                match node(a).unwrap() {
                    Node::ZExt(x) => {
                        let xw = width(x);
                        if k & !mask(xw) != 0 {
                            return cbool(false);
                        }
                        return cmp(Cmp::Eq, x, konst(k, xw));
                    }
                    Node::SExt(x) => {
                        let xw = width(x);
                        let low = k & mask(xw);
                        if (sext128(low, xw) as u128) & m != k {
                            return cbool(false);
                        }
                        return cmp(Cmp::Eq, x, konst(low, xw));
                    }
                    Node::Cat(h, l) => {
                        let lw = width(l);
                        let hw = width(h);
                        return bin(
                            Op::And,
                            cmp(Cmp::Eq, h, konst(k >> lw, hw)),
                            cmp(Cmp::Eq, l, konst(k & mask(lw), lw)),
                        );
                    }
                    Node::Ite(c, t, f) => {
                        let (te, fe) = (cmp(Cmp::Eq, t, b), cmp(Cmp::Eq, f, b));
                        if as_const(te).is_some() || as_const(fe).is_some() {
                            return ite(c, te, fe);
                        }
                    }
                    Node::Bin(Op::Add, x, y) => {
                        if let Some(yv) = as_const(y) {
                            return cmp(Cmp::Eq, x, konst(k.wrapping_sub(yv), w));
                        }
                    }
                    Node::Bin(Op::Xor, x, y) => {
                        if let Some(yv) = as_const(y) {
                            return cmp(Cmp::Eq, x, konst(k ^ yv, w));
                        }
                        if k == 0 {
                            return cmp(Cmp::Eq, x, y);
                        }
                    }
                    Node::Bin(Op::Sub, x, y) => {
                        if k == 0 {
                            return cmp(Cmp::Eq, x, y);
                        }
                    }
                    Node::Bin(Op::Or, x, y) => {
                        if k == 0 {
                            return bin(Op::And, cmp(Cmp::Eq, x, konst(0, w)), cmp(Cmp::Eq, y, konst(0, w)));
                        }
                    }
                    Node::Not(x) => return cmp(Cmp::Eq, x, konst(!k, w)),
                    _ => {}
                }
            } else {
                if let (Some(Node::ZExt(x)), Some(Node::ZExt(y))) = (node(a), node(b)) {
                    let (xw, yw) = (width(x), width(y));
                    let n = xw.max(yw);
                    if n < w {
                        return cmp(Cmp::Eq, zext(x, n), zext(y, n));
                    }
                }
                if let Some(e) = cancel(a, b, true, w) {
                    return cmp(Cmp::Eq, e, konst(0, w));
                }
                // a constant on either side
                let c = |e: E| match node(e) {
                    Some(Node::Bin(Op::Add, x, k)) => as_const(k).map(|k| (x, k)),
                    _ => None,
                };
                if let (Some((x, i)), Some((y, j))) = (c(a), c(b)) {
                    return cmp(Cmp::Eq, x, bin(Op::Add, y, konst(j.wrapping_sub(i) & m, w)));
                }
            }
            let (a, b) = if let (E::S(i), E::S(j)) = (a, b) {
                if i > j {
                    (b, a)
                } else {
                    (a, b)
                }
            } else {
                (a, b)
            };
            return ar().mk(Node::Cmp(Cmp::Eq, a, b), 1);
        }
        Cmp::Ult => {
            if a == b {
                return cbool(false);
            }
            if let Some(k) = cb {
                if k == 0 {
                    return cbool(false);
                }
                if umax(a) < k {
                    return cbool(true);
                }
                if k == 1 {
                    return cmp(Cmp::Eq, a, konst(0, w));
                }
                if let Some(Node::ZExt(x)) = node(a) {
                    let xw = width(x);
                    return cmp(Cmp::Ult, x, konst(k, xw));
                }
            }
            if let Some(k) = ca {
                if k == m {
                    return cbool(false);
                }
                if umax(b) <= k {
                    return cbool(false);
                }
                if let Some(Node::ZExt(x)) = node(b) {
                    let xw = width(x);
                    return cmp(Cmp::Ult, konst(k, xw), x);
                }
                if k == 0 {
                    return not(cmp(Cmp::Eq, b, konst(0, w)));
                }
            }
            if w == 1 {
                return bin(Op::And, not(a), b);
            }
        }
        Cmp::Ule => {
            if a == b {
                return cbool(true);
            }
            if let Some(k) = cb {
                if k == m || umax(a) <= k {
                    return cbool(true);
                }
                if k == 0 {
                    return cmp(Cmp::Eq, a, b);
                }
                if let Some(Node::ZExt(x)) = node(a) {
                    let xw = width(x);
                    return cmp(Cmp::Ule, x, konst(k, xw));
                }
            }
            if let Some(k) = ca {
                if k == 0 {
                    return cbool(true);
                }
                if umax(b) < k {
                    return cbool(false);
                }
                if let Some(Node::ZExt(x)) = node(b) {
                    let xw = width(x);
                    return cmp(Cmp::Ule, konst(k, xw), x);
                }
            }
            if w == 1 {
                return bin(Op::Or, not(a), b);
            }
        }
        Cmp::Slt | Cmp::Sle => {
            if a == b {
                return cbool(op == Cmp::Sle);
            }
            let half = mask(w) >> 1;
            if w > 1 && umax(a) <= half && umax(b) <= half {
                return cmp(if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b);
            }
        }
    }
    if let (Cmp::Ult | Cmp::Ule, Some(Node::ZExt(x)), Some(Node::ZExt(y))) = (op, node(a), node(b)) {
        let n = width(x).max(width(y));
        if n < w {
            return cmp(op, zext(x, n), zext(y, n));
        }
    }
    // sums that do not overflow
    if matches!(op, Cmp::Ult | Cmp::Ule) {
        let c = |e: E| match node(e) {
            Some(Node::Bin(Op::Add, x, k)) => match as_const(k) {
                Some(k) if umax(x).checked_add(k).is_some_and(|s| s <= m) => Some((x, k)),
                _ => None,
            },
            _ => None,
        };
        if let (Some((x, i)), Some((y, j))) = (c(a), c(b)) {
            return if i <= j {
                cmp(op, x, bin(Op::Add, y, konst(j - i, w)))
            } else {
                cmp(op, bin(Op::Add, x, konst(i - j, w)), y)
            };
        }
    }
    // ite with constants on one side
    if cb.is_some() {
        if let Some(Node::Ite(c, t, f)) = node(a) {
            if as_const(t).is_some() && as_const(f).is_some() {
                return ite(c, cmp(op, t, b), cmp(op, f, b));
            }
        }
    }
    if ca.is_some() {
        if let Some(Node::Ite(c, t, f)) = node(b) {
            if as_const(t).is_some() && as_const(f).is_some() {
                return ite(c, cmp(op, a, t), cmp(op, a, f));
            }
        }
    }
    ar().mk(Node::Cmp(op, a, b), 1)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = as_const(c) {
        return if v != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            (None, Some(0)) => return bin(Op::And, c, a),
            _ => {}
        }
    }
    if let Some(Node::Not(x)) = node(c) {
        return ite(x, b, a);
    }
    if let Some(Node::Ite(c2, x, _)) = node(a) {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let Some(Node::Ite(c2, _, y)) = node(b) {
        if c2 == c {
            return ite(c, a, y);
        }
    }
    ar().mk(Node::Ite(c, a, b), w)
}

pub fn extract(a: E, lo: u32, w: u32) -> E {
    let aw = width(a);
    if lo == 0 && w == aw {
        return a;
    }
    if let Some(v) = as_const(a) {
        return konst(v >> lo, w);
    }
    match node(a).unwrap() {
        Node::Ext(x, l2) => return extract(x, lo + l2 as u32, w),
        Node::Cat(h, l) => {
            let lw = width(l);
            if lo >= lw {
                return extract(h, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(l, lo, w);
            }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        Node::ZExt(x) => {
            let xw = width(x);
            if lo >= xw {
                return konst(0, w);
            }
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, xw - lo), w);
        }
        Node::SExt(x) => {
            let xw = width(x);
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            if lo < xw {
                return sext(extract(x, lo, xw - lo), w);
            }
        }
        Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            return bin(op, extract(x, lo, w), extract(y, lo, w));
        }
        Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
            return bin(op, extract(x, 0, w), extract(y, 0, w));
        }
        Node::Not(x) => return not(extract(x, lo, w)),
        Node::Ite(c, t, f) => {
            return ite(c, extract(t, lo, w), extract(f, lo, w));
        }
        _ => {}
    }
    ar().mk(Node::Ext(a, lo as u16), w)
}

pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) {
        return konst((x << lw) | y, w);
    }
    if as_const(h) == Some(0) {
        return zext(l, w);
    }
    // cat(ext(x,a..), ext(x,b..)) adjacent
    if let (Some(Node::Ext(x, lo1)), Some(Node::Ext(y, lo2))) = (node(h), node(l)) {
        if x == y && lo1 as u32 == lo2 as u32 + lw {
            return extract(x, lo2 as u32, w);
        }
    }
    if let Some(Node::Ext(x, lo1)) = node(h) {
        // the lower part may have been narrowed (an addition, an ite): is it the rest of x all the same?
        let lo1 = lo1 as u32;
        if lo1 >= lw && extract(x, lo1 - lw, lw) == l {
            return extract(x, lo1 - lw, w);
        }
        // l could be cat(ext(x, lo1-k), rest)
        if let Some(Node::Cat(lh, ll)) = node(l) {
            if let Some(Node::Ext(y, lo2)) = node(lh) {
                if x == y && lo1 as u32 == lo2 as u32 + width(lh) {
                    return concat(extract(x, lo2 as u32, hw + width(lh)), ll);
                }
            }
        }
    }
    // sign-extension pieces: leave. ite fusion
    if let (Some(Node::Ite(c1, t1, f1)), Some(Node::Ite(c2, t2, f2))) = (node(h), node(l)) {
        if c1 == c2 {
            return ite(c1, concat(t1, t2), concat(f1, f2));
        }
    }
    if let Some(Node::Ite(c, t, f)) = node(l) {
        if as_const(h).is_some() && as_const(t).is_some() && as_const(f).is_some() {
            return ite(c, concat(h, t), concat(h, f));
        }
    }
    if let Some(Node::Ite(c, t, f)) = node(h) {
        if as_const(l).is_some() && as_const(t).is_some() && as_const(f).is_some() {
            return ite(c, concat(t, l), concat(f, l));
        }
    }
    // normalise to right-assoc: cat(cat(a,b),c) -> cat(a,cat(b,c))
    if let Some(Node::Cat(a, b)) = node(h) {
        return concat(a, concat(b, l));
    }
    if let Some(Node::ZExt(x)) = node(h) {
        return zext(concat(x, l), w);
    }
    ar().mk(Node::Cat(h, l), w)
}

pub fn zext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    debug_assert!(aw < w);
    if let Some(v) = as_const(a) {
        return konst(v, w);
    }
    match node(a).unwrap() {
        Node::ZExt(x) => return zext(x, w),
        Node::Ite(c, t, f) if as_const(t).is_some() && as_const(f).is_some() => {
            return ite(c, zext(t, w), zext(f, w))
        }
        _ => {}
    }
    ar().mk(Node::ZExt(a), w)
}
pub fn sext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(v) = as_const(a) {
        return konst(sext128(v, aw) as u128, w);
    }
    match node(a).unwrap() {
        Node::ZExt(x) => return zext(x, w),
        Node::SExt(x) => return sext(x, w),
        Node::Ite(c, t, f) if as_const(t).is_some() && as_const(f).is_some() => {
            return ite(c, sext(t, w), sext(f, w))
        }
        _ => {}
    }
    if aw == 1 {
        return ite(a, konst(u128::MAX, w), konst(0, w));
    }
    ar().mk(Node::SExt(a), w)
}
pub fn and1(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or1(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    cmp(Cmp::Eq, a, b)
}

fn fv(v: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
/// Concrete meaning of a floating point operation; `aw` is the operand width, `w` the result width.
fn fconst(op: FOp, x: u128, y: u128, aw: u32, w: u32) -> u128 {
    let (p, q) = (fv(x, aw), fv(y, aw));
    // f32 arithmetic in f64 followed by one rounding is exact for + - * / (53 >= 2*24+2)
    let back = |v: f64| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
    match op {
        FOp::Add => back(p + q),
        FOp::Sub => back(p - q),
        FOp::Mul => back(p * q),
        FOp::Div => back(p / q),
        FOp::FromU => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        FOp::FromS => {
            let v = sext128(x, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        FOp::ToU => {
            let v = p as u128;
            v.min(mask(w))
        }
        FOp::ToS => {
            let v = p as i128;
            let hi = (mask(w) >> 1) as i128;
            let v = v.max(-hi - 1).min(hi);
            (v as u128) & mask(w)
        }
        FOp::Cvt => back(p),
        FOp::Eq => (p == q) as u128,
        FOp::Lt => (p < q) as u128,
        FOp::Le => (p <= q) as u128,
        FOp::Nan => (p.is_nan() || q.is_nan()) as u128,
    }
}
pub fn fop(op: FOp, a: E, b: E, w: u32) -> E {
    if let (E::C(x, _), E::C(y, _)) = (a, b) {
        return konst(fconst(op, x as u128, y as u128, width(a), w), w);
    }
    ar().mk(Node::F(op, a, b), w)
}
