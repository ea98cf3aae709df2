//! Symbolic executor over the LLVM IR of the real code.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
    pub kind: u8, // 0 heap 1 stack 2 global-mutable 3 global-const
}
impl Obj {
    fn new(size: u64, kind: u8) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), kind }
    }
    #[inline]
    fn byte(&self, o: u64) -> E {
        if !self.sym.is_empty() {
            if let Some(e) = self.sym.get(&(o as u32)) {
                return *e;
            }
        }
        E::C(self.data[o as usize] as u64, 8)
    }
    #[inline]
    fn set_byte(&mut self, o: u64, e: E) {
        match e {
            E::C(v, _) => {
                self.data[o as usize] = v as u8;
                if !self.sym.is_empty() {
                    self.sym.remove(&(o as u32));
                }
            }
            E::S(_) => {
                self.sym.insert(o as u32, e);
            }
        }
    }
    fn read(&self, o: u64, n: u64) -> E {
        let conc = self.sym.is_empty() || self.sym.range(o as u32..(o + n) as u32).next().is_none();
        if conc && n <= 16 {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | self.data[(o + i) as usize] as u128;
            }
            return konst(v, (n * 8) as u32);
        }
        let mut e = self.byte(o + n - 1);
        for i in (0..n - 1).rev() {
            e = concat(e, self.byte(o + i));
        }
        e
    }
    fn write(&mut self, o: u64, n: u64, e: E) {
        if let Some(v) = as_const(e) {
            if !self.sym.is_empty() {
                self.clear_sym(o, n);
            }
            for i in 0..n {
                self.data[(o + i) as usize] = (v >> (8 * i)) as u8;
            }
            return;
        }
        for i in 0..n {
            let b = extract(e, (8 * i) as u32, 8);
            self.set_byte(o + i, b);
        }
    }
    fn clear_sym(&mut self, o: u64, n: u64) {
        if self.sym.is_empty() {
            return;
        }
        let ks: Vec<u32> = self.sym.range(o as u32..(o + n) as u32).map(|x| *x.0).collect();
        for k in ks {
            self.sym.remove(&k);
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub dest: u32,
    pub normal: Option<u32>,
}

pub struct Model {
    pub id: u32,
    pub bytes: Vec<u8>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<(u64, Rc<Obj>)>,
    pub glob: BTreeMap<u32, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<Id>,
    pub model: Rc<Model>,
    pub nvars: u32,
    pub tape: Vec<u32>,
    pub steps: u64,
    pub forks: u32,
    pub reach: BTreeSet<String>,
    pub notes: Vec<(String, E)>,
    pub clock: u64,
}

pub enum Stop {
    Done,              // path finished
    Infeasible,        // assumption unsatisfiable
    Viol(Viol),        // property violated on this path
    Limit(String),     // bound hit / unsupported: result inconclusive
}
pub struct Viol {
    pub code: String,
    pub loc: String,
    pub stack: Vec<String>,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq)]
enum FK {
    Unknown,
    Ir,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    IsConst,
    Trap,
    LoadRel,
    Tls,
    Ident,
    Nop,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    VecReduceMax,
    Panic,
    FromUtf8,
    HashOne,
    FormatInner,
    VsBytes,
    VsAssume,
    VsFail,
    VsReach,
    VsConcrete,
    VsChoice,
    VsCheck,
    VsNote,
    VsNative,
    RetZero,
    GetRandom,
    Write,
    Abort,
    Errno,
    ClockGettime,
    FpToUiSat,
    FpToSiSat,
    Fmul,
    ObjSize,
    FloorF,
    VsEnd,
    VsLoadN,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_pc: usize,
    pub reach: BTreeMap<String, u64>,
    pub viols: Vec<(Viol, Vec<u8>, u64, Vec<(String, u128)>)>,
    pub limits: BTreeMap<String, u64>,
    pub checks: u64,
    pub merged: u64,
    /// (reach marks, tape) of completed paths, for native replay
    pub samples: Vec<(Vec<String>, Vec<u8>)>,
    pub limit_tapes: Vec<(String, Vec<u8>)>,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_time: f64,
    pub max_viols: usize,
    pub shard: (usize, usize),
    pub verbose: bool,
}

pub struct Eng {
    pub m: Rc<Module>,
    pub smt: Smt,
    kinds: Vec<FK>,
    ginit: Vec<Option<Rc<Obj>>>,
    pub covered: Vec<bool>,
    pub rep: Report,
    pub opts: Opts,
    pub pending: Vec<State>,
    vkeys: HashMap<String, usize>,
    fmt_stub: Option<u32>,
    errno: u64,
    pub prof: Vec<u64>,
    recent: std::collections::VecDeque<Rc<Model>>,
}

const HEAP_BASE: u64 = 0x1_0000_0000;

impl Eng {
    pub fn new(m: Module, opts: Opts, smt_timeout: u32) -> Eng {
        let n = m.funcs.len();
        let g = m.globals.len();
        let fmt_stub = m.fidx.get("vs_format_stub").copied();
        Eng {
            m: Rc::new(m),
            smt: Smt::new(smt_timeout),
            kinds: vec![FK::Unknown; n],
            ginit: vec![None; g],
            covered: vec![false; n],
            rep: Report::default(),
            opts,
            pending: vec![],
            vkeys: HashMap::new(),
            fmt_stub,
            errno: 0,
            prof: vec![0; n],
            recent: Default::default(),
        }
    }

    fn kind(&mut self, f: u32) -> FK {
        let k = self.kinds[f as usize];
        if k != FK::Unknown {
            return k;
        }
        let fu = &self.m.funcs[f as usize];
        let n = fu.name.as_str();
        let k = classify(n, fu.defined, self.fmt_stub.is_some());
        self.kinds[f as usize] = k;
        k
    }

    pub fn run(&mut self, entry: &str, args: &[u64]) {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let body = self.m.body(f);
        let mut regs = vec![V::I(E::C(0, 1)); body.nregs as usize];
        for (i, p) in body.params.iter().enumerate() {
            regs[*p as usize] = V::I(c64(args.get(i).copied().unwrap_or(0)));
        }
        self.covered[f as usize] = true;
        let fr = Frame { f, body, blk: 0, ip: 0, regs, allocas: vec![], dest: NONE, normal: None };
        let st = State {
            frames: vec![Rc::new(fr)],
            mem: vec![],
            glob: BTreeMap::new(),
            next: HEAP_BASE,
            pc: vec![],
            model: Rc::new(Model { id: ar().new_epoch(), bytes: vec![] }),
            nvars: 0,
            tape: vec![],
            steps: 0,
            forks: 0,
            reach: BTreeSet::new(),
            notes: vec![],
            clock: 1_000_000_000,
        };
        let t0 = Instant::now();
        self.pending.push(st);
        let (shard, nsh) = self.opts.shard;
        if nsh > 1 {
            // Breadth-first until there is enough to split, identically in every shard.
            let want = nsh * 24;
            let mut rounds = 0;
            let mut queue: std::collections::VecDeque<State> = self.pending.drain(..).collect();
            while queue.len() < want && rounds < 4000 {
                rounds += 1;
                let Some(mut s) = queue.pop_front() else { break };
                // run until it forks
                loop {
                    match self.step(&mut s) {
                        Ok(()) => {
                            if !self.pending.is_empty() {
                                queue.extend(self.pending.drain(..));
                                queue.push_back(s);
                                break;
                            }
                        }
                        Err(stop) => {
                            queue.extend(self.pending.drain(..));
                            if shard == 0 {
                                self.finish(s, stop);
                            }
                            break;
                        }
                    }
                }
            }
            // interleave so that neighbouring states spread over the shards
            self.pending = queue.into_iter().enumerate().filter(|(i, _)| i % nsh == shard).map(|x| x.1).collect();
        }
        while let Some(mut s) = self.pending.pop() {
            if t0.elapsed().as_secs_f64() > self.opts.max_time {
                *self.rep.limits.entry("time limit".into()).or_default() += 1 + self.pending.len() as u64;
                break;
            }
            let mut k = 0u32;
            let stop = loop {
                if let Err(stop) = self.step(&mut s) {
                    break stop;
                }
                k += 1;
                if k & 0xfff == 0 && t0.elapsed().as_secs_f64() > self.opts.max_time + 5.0 {
                    break Stop::Limit("time limit".into());
                }
            };
            self.finish(s, stop);
            if self.rep.viols.len() >= self.opts.max_viols {
                if !self.pending.is_empty() {
                    *self.rep.limits.entry("violation cap".into()).or_default() += 1;
                }
                break;
            }
        }
    }

    fn finish(&mut self, s: State, stop: Stop) {
        self.rep.steps += s.steps;
        self.rep.max_steps = self.rep.max_steps.max(s.steps);
        self.rep.max_pc = self.rep.max_pc.max(s.pc.len());
        match stop {
            Stop::Infeasible => {
                self.rep.infeasible += 1;
                return;
            }
            Stop::Done => {
                self.rep.paths += 1;
                let sig: Vec<String> = s.reach.iter().cloned().collect();
                let n = self.rep.samples.len();
                let seen = self.rep.samples.iter().filter(|x| x.0 == sig).count();
                if n < 16 && seen < 1 || n < 24 && seen < 3 && self.rep.paths.is_power_of_two() {
                    let t = Self::tape_of(&s, &s.model.bytes);
                    self.rep.samples.push((sig, t));
                }
            }
            Stop::Viol(v) => {
                self.rep.paths += 1;
                self.violation(&s, v, None);
            }
            Stop::Limit(l) => {
                if self.opts.verbose {
                    eprintln!("LIMIT {} at {:?}", l, self.stack(&s));
                }
                if self.rep.limit_tapes.len() < 4 {
                    let t = Self::tape_of(&s, &s.model.bytes);
                    self.rep.limit_tapes.push((l.clone(), t));
                }
                *self.rep.limits.entry(l).or_default() += 1
            }
        }
        for r in s.reach {
            *self.rep.reach.entry(r).or_default() += 1;
        }
    }

    fn tape_of(s: &State, mb: &[u8]) -> Vec<u8> {
        s.tape.iter().map(|&i| mb.get(i as usize).copied().unwrap_or(0)).collect()
    }
    fn violation(&mut self, s: &State, v: Viol, model: Option<&[u8]>) {
        let top = v.stack.iter().find(|f| f.contains("vaux_") || f.starts_with("h_")).cloned().unwrap_or_default();
        let key = format!("{}|{}|{}", v.code, v.loc, top);
        if let Some(&i) = self.vkeys.get(&key) {
            self.rep.viols[i].2 += 1;
            return;
        }
        let mb = model.unwrap_or(&s.model.bytes);
        let tape = Self::tape_of(s, mb);
        let notes = s.notes.iter().map(|(n, e)| (n.clone(), ar().eval(*e, mb))).collect();
        if self.opts.verbose {
            eprintln!("VIOL {} {} tape={:02x?}", v.code, v.loc, tape);
            for f in &v.stack {
                eprintln!("    {}", f);
            }
        }
        self.vkeys.insert(key, self.rep.viols.len());
        self.rep.viols.push((v, tape, 1, notes));
    }

    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| self.m.funcs[f.f as usize].name.clone()).collect()
    }
    fn viol(&self, s: &State, code: impl Into<String>, loc: impl Into<String>) -> Stop {
        Stop::Viol(Viol { code: code.into(), loc: loc.into(), stack: self.stack(s) })
    }

    // ---- solver interaction -------------------------------------------------
    fn evalm(&self, s: &State, e: E) -> u128 {
        ar().eval_m(e, &s.model.bytes, s.model.id)
    }
    fn query(&mut self, s: &State, q: E) -> R<Option<Vec<u8>>> {
        if as_const(q).is_none() {
            // a model found earlier (on another path) may already be a witness
            for k in (0..self.recent.len()).rev() {
                let m = self.recent[k].clone();
                let a = ar();
                if a.eval_m(q, &m.bytes, m.id) != 0 && s.pc.iter().rev().all(|c| a.eval_m(E::S(*c), &m.bytes, m.id) != 0) {
                    self.smt.cached += 1;
                    return Ok(Some(m.bytes.clone()));
                }
            }
        }
        match self.smt.check(&s.pc, q, &s.model.bytes) {
            Res::Sat(m) => {
                if self.recent.len() >= 24 {
                    self.recent.pop_front();
                }
                self.recent.push_back(Self::newmodel(m.clone()));
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Limit("solver unknown".into())),
        }
    }
    fn newmodel(bytes: Vec<u8>) -> Rc<Model> {
        Rc::new(Model { id: ar().new_epoch(), bytes })
    }
    fn addpc(s: &mut State, e: E) {
        // split conjunctions so that slicing stays fine-grained
        if let Some(Node::Bin(Op::And, a, b)) = node(e) {
            if width(e) == 1 {
                Self::addpc(s, a);
                Self::addpc(s, b);
                return;
            }
        }
        if let E::S(i) = e {
            if !s.pc.contains(&i) {
                s.pc.push(i);
            }
        }
    }
    /// Decide a condition under the current path; forks an alternative when both are feasible.
    /// The alternative restarts the current instruction with the negation assumed.
    fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(v) = as_const(c) {
            return Ok(v != 0);
        }
        let v = self.evalm(s, c) != 0;
        let other = if v { not(c) } else { c };
        if let E::S(i) = not(other) {
            if s.pc.contains(&i) {
                return Ok(v);
            }
        }
        if let Some(m) = self.query(s, other)? {
            let mut alt = s.clone();
            alt.model = Self::newmodel(m);
            Self::addpc(&mut alt, other);
            alt.forks += 1;
            s.forks += 1;
            self.rep.forks += 1;
            self.pending.push(alt);
            Self::addpc(s, not(other));
        }
        Ok(v)
    }
    /// Concretise an expression, forking over every other feasible value.
    fn force(&mut self, s: &mut State, e: E) -> R<u128> {
        if let Some(v) = as_const(e) {
            return Ok(v);
        }
        let v = self.evalm(s, e);
        let c = eq(e, konst(v, width(e)));
        // decide() must come out true under the current model
        let r = self.decide(s, c)?;
        debug_assert!(r);
        let _ = r;
        Ok(v)
    }

    // ---- memory -------------------------------------------------------------
    fn gobj(&mut self, s: &State, gi: u32) -> Rc<Obj> {
        if let Some(o) = s.glob.get(&gi) {
            return o.clone();
        }
        if let Some(o) = &self.ginit[gi as usize] {
            return o.clone();
        }
        let m = self.m.clone();
        let g = &m.globals[gi as usize];
        let mut o = Obj::new(g.size, if g.constant { 3 } else { 2 });
        if let Some(t) = &g.init {
            let mut lx = Lx::new(t);
            let v = m.konst(&mut lx, &g.ty);
            Self::put(&mut o, 0, &g.ty, &v);
        }
        let r = Rc::new(o);
        self.ginit[gi as usize] = Some(r.clone());
        r
    }
    fn put(o: &mut Obj, off: u64, t: &Ty, v: &V) {
        match (t, v) {
            (_, V::I(e)) => {
                let n = match t {
                    Ty::Int(w) => (*w as u64 + 7) / 8,
                    _ => t.size(),
                };
                let e = if width(*e) < n as u32 * 8 { zext(*e, n as u32 * 8) } else { *e };
                o.write(off, n, e);
            }
            (Ty::Arr(_, et), V::A(a)) | (Ty::Vec(_, et), V::A(a)) => {
                let sz = et.size();
                for (i, x) in a.iter().enumerate() {
                    Self::put(o, off + i as u64 * sz, et, x);
                }
            }
            (Ty::Struct(f, _), V::A(a)) => {
                for (i, x) in a.iter().enumerate() {
                    Self::put(o, off + t.field_off(i as u64), &f[i], x);
                }
            }
            _ => panic!("put {:?}", t),
        }
    }
    /// (base, object) containing [a, a+n)
    fn find(&mut self, s: &State, a: u64, n: u64) -> R<(u64, Rc<Obj>)> {
        if a >= HEAP_BASE {
            let i = s.mem.partition_point(|x| x.0 <= a);
            if i > 0 {
                let (b, o) = &s.mem[i - 1];
                if a - b + n <= o.size {
                    return Ok((*b, o.clone()));
                }
            }
        } else if a >= GLOB_BASE && a < FUNC_BASE {
            let m = self.m.clone();
            let i = m.globals.partition_point(|g| g.addr <= a);
            if i > 0 {
                let g = &m.globals[i - 1];
                if a - g.addr + n <= g.size {
                    return Ok((g.addr, self.gobj(s, i as u32 - 1)));
                }
            }
        }
        Err(self.viol(s, "memory", format!("invalid access of {} byte(s) at {:#x}", n, a)))
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, a: u64, n: u64) -> R<(u64, &'a mut Obj)> {
        if a >= HEAP_BASE {
            let i = s.mem.partition_point(|x| x.0 <= a);
            if i > 0 && a - s.mem[i - 1].0 + n <= s.mem[i - 1].1.size {
                let e = &mut s.mem[i - 1];
                return Ok((e.0, Rc::make_mut(&mut e.1)));
            }
        } else if a >= GLOB_BASE && a < FUNC_BASE {
            let m = self.m.clone();
            let i = m.globals.partition_point(|g| g.addr <= a);
            if i > 0 && a - m.globals[i - 1].addr + n <= m.globals[i - 1].size {
                let gi = i as u32 - 1;
                if !s.glob.contains_key(&gi) {
                    let o = self.gobj(s, gi);
                    s.glob.insert(gi, o);
                }
                return Ok((m.globals[i - 1].addr, Rc::make_mut(s.glob.get_mut(&gi).unwrap())));
            }
        }
        Err(self.viol(s, "memory", format!("invalid write of {} byte(s) at {:#x}", n, a)))
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, kind: u8) -> u64 {
        let al = align.max(16);
        let a = (s.next + al - 1) / al * al;
        s.next = a + size + 32;
        s.mem.push((a, Rc::new(Obj::new(size, kind))));
        a
    }
    /// Size of an allocation request.  Small symbolic sizes are enumerated (by forking); larger
    /// ones keep the size symbolic and reserve the largest possible object.
    fn alloc_size(&mut self, s: &mut State, e: E) -> R<u64> {
        if let Some(v) = as_const(e) {
            return Ok(v as u64);
        }
        // the object gets the largest size the request can have
        let mut m = umax(e);
        if m > 1 << 20 {
            // ask the solver for a bound
            m = 1 << 20;
            if self.query(s, cmp(Cmp::Ult, c64(m as u64), e))?.is_some() {
                return Err(Stop::Limit("allocation of unbounded symbolic size".into()));
            }
        }
        Ok(m as u64)
    }
    fn dealloc(&mut self, s: &mut State, a: u64) -> R<()> {
        match s.mem.binary_search_by_key(&a, |x| x.0) {
            Ok(i) => {
                s.mem.remove(i);
                Ok(())
            }
            Err(_) => Err(self.viol(s, "memory", format!("invalid free {:#x}", a))),
        }
    }
    fn load_c(&mut self, s: &State, t: &Ty, a: u64) -> R<V> {
        Ok(match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = t.bits();
                let n = (w as u64 + 7) / 8;
                // fast path without Rc clone
                let e = if a >= HEAP_BASE {
                    let i = s.mem.partition_point(|x| x.0 <= a);
                    if i > 0 && a - s.mem[i - 1].0 + n <= s.mem[i - 1].1.size {
                        let (b, o) = &s.mem[i - 1];
                        o.read(a - b, n)
                    } else {
                        return Err(self.viol(s, "memory", format!("invalid read of {} byte(s) at {:#x}", n, a)));
                    }
                } else {
                    let (b, o) = self.find(s, a, n)?;
                    o.read(a - b, n)
                };
                V::I(if (n * 8) as u32 != w { extract(e, 0, w) } else { e })
            }
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                if let (Ty::Vec(..), Ty::Int(1)) = (t, &**et) {
                    let e = self.load_c(s, &Ty::Int(*n as u32), a)?.i();
                    return Ok(V::A((0..*n).map(|i| V::I(extract(e, i as u32, 1))).collect::<Vec<_>>().into()));
                }
                let sz = et.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_c(s, et, a + i * sz)?);
                }
                V::A(v.into())
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_c(s, ft, a + t.field_off(i as u64))?);
                }
                V::A(v.into())
            }
            _ => return Err(Stop::Limit(format!("load of {:?}", t))),
        })
    }
    fn load(&mut self, s: &mut State, t: &Ty, p: E) -> R<V> {
        if let Some(a) = as_const(p) {
            return self.load_c(s, t, a as u64);
        }
        let n = t.size();
        let a0 = self.evalm(s, p) as u64;
        let (b, o) = match self.find(s, a0, n) {
            Ok(x) => x,
            Err(e) => {
                // the current model is a witness of an invalid access
                return Err(e);
            }
        };
        // stay within this object on this path
        let inb = and1(
            cmp(Cmp::Ule, c64(b), p),
            cmp(Cmp::Ule, p, c64(b + o.size - n)),
        );
        if !self.decide(s, inb)? {
            return Err(Stop::Limit("symbolic address".into()));
        }
        let scalar = matches!(t, Ty::Int(_) | Ty::Ptr);
        let mut st = 0;
        while st < 6 && as_const(extract(p, 0, st + 1)).is_some() {
            st += 1;
        }
        let stride = 1u64 << st;
        let phase = if st > 0 { as_const(extract(p, 0, st)).unwrap() as u64 } else { 0 };
        let mut first = b - b % stride + phase;
        if first < b {
            first += stride;
        }
        let cnt = (o.size - n - (first - b)) / stride + 1;
        let lim = if o.kind == 3 { 4096 } else { 128 };
        if !scalar || cnt > lim {
            let a = self.force(s, p)? as u64;
            return self.load_c(s, t, a);
        }
        // range-compressed if-then-else chain
        let w = t.bits();
        let mut runs: Vec<(u64, E)> = vec![]; // (last address of run, value)
        for k in 0..cnt {
            let a = first + k * stride;
            let e = o.read(a - b, n);
            let e = if width(e) != w { extract(e, 0, w) } else { e };
            match runs.last_mut() {
                Some((l, v)) if *v == e => *l = a,
                _ => runs.push((a, e)),
            }
        }
        let mut r = runs.pop().unwrap().1;
        while let Some((l, v)) = runs.pop() {
            r = ite(cmp(Cmp::Ule, p, c64(l)), v, r);
        }
        Ok(V::I(r))
    }
    /// Store through a symbolic address, without splitting on it.  False: not handled.
    fn store_sym(&mut self, s: &mut State, t: &Ty, v: &V, p: E) -> R<bool> {
        let V::I(e) = v else { return Ok(false) };
        if !matches!(t, Ty::Int(8)) {
            return Ok(false);
        }
        let a0 = self.evalm(s, p) as u64;
        let (b, o) = self.find(s, a0, 1)?;
        if o.kind == 3 {
            return Err(self.viol(s, "memory", "write to constant"));
        }
        let noop = match as_const(*e) {
            Some(x) => o.sym.is_empty() && o.data.iter().all(|y| *y == x as u8),
            None => false,
        };
        if !noop && o.size > 64 {
            return Ok(false);
        }
        let inb = and1(cmp(Cmp::Ule, c64(b), p), cmp(Cmp::Ult, p, c64(b + o.size)));
        if !self.decide(s, inb)? {
            return Err(Stop::Limit("symbolic address".into()));
        }
        if noop {
            return Ok(true);
        }
        let n = o.size;
        let (_, o) = self.obj_mut(s, b, n)?;
        for k in 0..n {
            let x = ite(eq(p, c64(b + k)), *e, o.byte(k));
            o.set_byte(k, x);
        }
        Ok(true)
    }
    fn store_c(&mut self, s: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, et), V::A(x)) if **et == Ty::Int(1) => {
                let mut e = x[0].i();
                for i in 1..*n as usize {
                    e = concat(x[i].i(), e);
                }
                self.store_c(s, &Ty::Int(*n as u32), &V::I(e), a)
            }
            (_, V::I(e)) => {
                let w = width(*e);
                let n = (w as u64 + 7) / 8;
                let e = if (n * 8) as u32 != w { zext(*e, (n * 8) as u32) } else { *e };
                let (b, o) = self.obj_mut(s, a, n)?;
                if o.kind == 3 {
                    return Err(self.viol(s, "memory", "write to constant"));
                }
                o.write(a - b, n, e);
                Ok(())
            }
            (Ty::Arr(_, et), V::A(x)) | (Ty::Vec(_, et), V::A(x)) => {
                let sz = et.size();
                for (i, y) in x.iter().enumerate() {
                    self.store_c(s, et, y, a + i as u64 * sz)?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), V::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.store_c(s, &f[i], y, a + t.field_off(i as u64))?;
                }
                Ok(())
            }
            _ => Err(Stop::Limit(format!("store of {:?}", t))),
        }
    }
    fn memcpy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 || d == src {
            return Ok(());
        }
        let (sb, so) = self.find(s, src, n)?;
        let (db, dobj) = self.obj_mut(s, d, n)?;
        let (so0, do0) = (src - sb, d - db);
        // `so` keeps the pre-copy content (Rc clone), so overlap is handled
        dobj.data[do0 as usize..(do0 + n) as usize].copy_from_slice(&so.data[so0 as usize..(so0 + n) as usize]);
        dobj.clear_sym(do0, n);
        if !so.sym.is_empty() {
            for (k, e) in so.sym.range(so0 as u32..(so0 + n) as u32) {
                dobj.sym.insert((*k as u64 - so0 + do0) as u32, *e);
            }
        }
        Ok(())
    }
    fn bytes_at(&mut self, s: &State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.find(s, a, n)?;
        Ok((0..n).map(|i| o.byte(a - b + i)).collect())
    }
    fn cstr(&mut self, s: &State, a: u64, n: u64) -> String {
        match self.bytes_at(s, a, n) {
            Ok(v) => v.iter().map(|e| as_const(*e).map_or('?', |c| c as u8 as char)).collect(),
            Err(_) => String::new(),
        }
    }
    fn fresh(&mut self, s: &mut State, tape: bool) -> E {
        let i = s.nvars;
        s.nvars += 1;
        if tape {
            s.tape.push(i);
        }
        var(i)
    }

    // ---- instruction semantics ------------------------------------------------
    #[inline]
    fn get(fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        let mut k = 0;
        let mut vals: Vec<(u32, V)> = vec![];
        for (d, i) in &b.insts {
            if let Inst::Phi(v) = i {
                let (o, _) = v.iter().find(|x| x.1 == from).expect("phi edge");
                vals.push((*d, Self::get(fr, o)));
                k += 1;
            } else {
                break;
            }
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = to;
        fr.ip = k;
    }
    /// A block without observable control flow: straight-line computation ending in `br join`.
    fn simple_block(body: &Body, b: u32) -> Option<u32> {
        let insts = &body.blocks[b as usize].insts;
        if insts.len() > 10 {
            return None;
        }
        for (_, i) in &insts[..insts.len() - 1] {
            match i {
                Inst::Bin(op, _, _) if !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) => {}
                Inst::Icmp(..) | Inst::Select(..) | Inst::Gep(..) | Inst::Freeze(_) | Inst::Nop => {}
                Inst::Cast(Cast::ZExt | Cast::SExt | Cast::Trunc | Cast::Bitcast, Ty::Int(_), _, Ty::Int(_)) => {}
                Inst::Store(Ty::Int(_) | Ty::Ptr, _, _) => {}
                _ => return None,
            }
        }
        match &insts[insts.len() - 1].1 {
            Inst::Br(j) => Some(*j),
            _ => None,
        }
    }
    /// Veritesting-style merge of branch arms that only compute small integers and meet again at once.
    /// Arms are mutually exclusive and exhaustive.  Returns true when the jump has been done.
    fn merge(&mut self, s: &mut State, arms: &[(E, u32, Option<(E, u128)>)]) -> R<bool> {
        let (body, cur) = {
            let fr = s.frames.last().unwrap();
            (fr.body.clone(), fr.blk)
        };
        // the join reached by most arms
        let joins: Vec<Option<u32>> = arms.iter().map(|a| Self::simple_block(&body, a.1)).collect();
        let mut best: Option<(usize, u32)> = None;
        for j in joins.iter().flatten() {
            let n = joins.iter().filter(|x| **x == Some(*j)).count() + arms.iter().filter(|a| a.1 == *j).count();
            if best.map_or(true, |b| n > b.0) {
                best = Some((n, *j));
            }
        }
        let Some((n, j)) = best else { return Ok(false) };
        if n < 2 {
            return Ok(false);
        }
        // evaluate the arms
        struct Arm {
            cond: E,
            stores: Vec<(u64, E)>, // address, value
            phis: Vec<V>,
            sig: Vec<(u64, E)>, // what must agree within a merged group
        }
        let phis: Vec<(u32, &Vec<(Opd, u32)>)> = body.blocks[j as usize]
            .insts
            .iter()
            .map_while(|(d, i)| if let Inst::Phi(v) = i { Some((*d, v)) } else { None })
            .collect();
        let mut evs: Vec<Arm> = vec![];
        for (ai, (cond, t, wit)) in arms.iter().enumerate() {
            let direct = *t == j;
            if !direct && joins[ai] != Some(j) {
                continue;
            }
            let mut fr: Frame = (**s.frames.last().unwrap()).clone();
            let mut stores = vec![];
            let mut sig = vec![];
            let ident = |e: E| -> E {
                if let (Some((x, k)), Some(v)) = (wit, as_const(e)) {
                    if width(*x) == width(e) && v == *k {
                        return *x;
                    }
                }
                e
            };
            if !direct {
                let insts = &body.blocks[*t as usize].insts;
                for (d, i) in &insts[..insts.len() - 1] {
                    let v = match i {
                        Inst::Bin(op, a, b) => {
                            let op = *op;
                            Self::map2(&Self::get(&fr, a), &Self::get(&fr, b), &move |p, q| bin(op, p, q))
                        }
                        Inst::Icmp(p, a, b) => {
                            let p = *p;
                            Self::map2(&Self::get(&fr, a), &Self::get(&fr, b), &move |x, y| icmp(p, x, y))
                        }
                        Inst::Select(c, a, b) => Self::select(&Self::get(&fr, c), &Self::get(&fr, a), &Self::get(&fr, b)),
                        Inst::Freeze(a) => Self::get(&fr, a),
                        Inst::Cast(k, from, a, to) => {
                            let x = Self::get(&fr, a);
                            self.cast(s, *k, from, x, to)?
                        }
                        Inst::Gep(base, off, dynv) => {
                            let V::I(e) = Self::get(&fr, base) else { return Ok(false) };
                            let mut o = c64(*off);
                            for (i, sc) in dynv {
                                let V::I(iv) = Self::get(&fr, i) else { return Ok(false) };
                                let iv = if width(iv) < 64 { sext(iv, 64) } else { iv };
                                o = bin(Op::Add, o, bin(Op::Mul, iv, c64(*sc)));
                            }
                            V::I(bin(Op::Add, e, o))
                        }
                        Inst::Store(_, v, p) => {
                            let (V::I(v), V::I(p)) = (Self::get(&fr, v), Self::get(&fr, p)) else { return Ok(false) };
                            let Some(a) = as_const(p) else { return Ok(false) };
                            let w = width(v);
                            let nb = (w as u64 + 7) / 8;
                            if self.find(s, a as u64, nb).is_err() {
                                return Ok(false);
                            }
                            if w > 16 {
                                sig.push((a as u64, v));
                            }
                            if w % 8 != 0 {
                                stores.push((a as u64, zext(v, (nb * 8) as u32)));
                            } else if w == 8 {
                                stores.push((a as u64, ident(v)));
                            } else {
                                for k in 0..nb {
                                    stores.push((a as u64 + k, extract(v, (k * 8) as u32, 8)));
                                }
                            }
                            continue;
                        }
                        _ => continue,
                    };
                    if *d != NONE {
                        fr.regs[*d as usize] = v;
                    }
                }
            }
            let from = if direct { cur } else { *t };
            let mut pv = vec![];
            for (_, v) in &phis {
                let (o, _) = v.iter().find(|x| x.1 == from).expect("phi edge");
                match Self::get(&fr, o) {
                    V::I(e) => {
                        if width(e) > 16 {
                            sig.push((pv.len() as u64, e));
                        }
                        pv.push(V::I(ident(e)))
                    }
                    V::A(_) => return Ok(false),
                }
            }
            evs.push(Arm { cond: *cond, stores, phis: pv, sig });
        }
        // only small integers may differ between the arms: keep the largest class that agrees on the rest
        let mut best = (0, 0);
        for i in 0..evs.len() {
            let n = evs.iter().filter(|x| x.sig == evs[i].sig).count();
            if n > best.0 {
                best = (n, i);
            }
        }
        if best.0 < 2 {
            return Ok(false);
        }
        let sig = evs[best.1].sig.clone();
        evs.retain(|x| x.sig == sig);
        // which side does the current model take?
        let mut mc = cbool(false);
        for a in &evs {
            mc = or1(mc, a.cond);
        }
        if evs.len() < arms.len() {
            if self.evalm(s, mc) == 0 {
                return Ok(false); // an arm outside the group: plain branch
            }
        }
        let here = evs.iter().position(|a| self.evalm(s, a.cond) != 0).expect("exclusive and exhaustive");
        let others = and1(mc, not(evs[here].cond));
        if let E::S(i) = not(others) {
            if s.pc.contains(&i) {
                return Ok(false);
            }
        }
        if as_const(others).is_some() || self.query(s, others)?.is_none() {
            return Ok(false); // a single feasible arm: stay concrete
        }
        if evs.len() < arms.len() {
            let r = self.decide(s, mc)?;
            debug_assert!(r);
            let _ = r;
        }
        let mut writes: BTreeMap<u64, E> = BTreeMap::new();
        for a in &evs {
            for (ad, _) in &a.stores {
                writes.entry(*ad).or_insert(E::C(0, 8));
            }
        }
        let addrs: Vec<u64> = writes.keys().copied().collect();
        for ad in addrs {
            let (b, o) = self.find(s, ad, 1)?;
            let old = o.byte(ad - b);
            let val = |a: &Arm| a.stores.iter().rev().find(|x| x.0 == ad).map_or(old, |x| x.1);
            let mut r = val(&evs[evs.len() - 1]);
            for a in evs[..evs.len() - 1].iter().rev() {
                r = ite(a.cond, val(a), r);
            }
            writes.insert(ad, r);
        }
        for (ad, v) in writes {
            let (b, o) = self.obj_mut(s, ad, 1)?;
            if o.kind == 3 {
                return Err(self.viol(s, "memory", "write to constant"));
            }
            o.write(ad - b, 1, v);
        }
        let mut vals = vec![];
        for (k, (d, _)) in phis.iter().enumerate() {
            let mut r = evs[evs.len() - 1].phis[k].clone();
            for a in evs[..evs.len() - 1].iter().rev() {
                if let (V::I(x), V::I(y)) = (&a.phis[k], &r) {
                    r = V::I(ite(a.cond, *x, *y));
                }
            }
            vals.push((*d, r));
        }
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = j;
        fr.ip = phis.len() as u32;
        self.rep.merged += 1;
        Ok(true)
    }
    fn map2(a: &V, b: &V, f: &dyn Fn(E, E) -> E) -> V {
        match (a, b) {
            (V::I(x), V::I(y)) => V::I(f(*x, *y)),
            (V::A(x), V::A(y)) => V::A(x.iter().zip(y.iter()).map(|(p, q)| Self::map2(p, q, f)).collect::<Vec<_>>().into()),
            _ => panic!("map2 shape"),
        }
    }
    fn map1(a: &V, f: &dyn Fn(E) -> E) -> V {
        match a {
            V::I(x) => V::I(f(*x)),
            V::A(x) => V::A(x.iter().map(|p| Self::map1(p, f)).collect::<Vec<_>>().into()),
        }
    }
    fn select(c: &V, a: &V, b: &V) -> V {
        match c {
            V::I(c) => {
                if let Some(v) = as_const(*c) {
                    return if v != 0 { a.clone() } else { b.clone() };
                }
                let c = *c;
                Self::map2(a, b, &move |x, y| ite(c, x, y))
            }
            V::A(cs) => {
                let v: Vec<V> = cs
                    .iter()
                    .enumerate()
                    .map(|(i, c)| Self::select(c, &a.a()[i], &b.a()[i]))
                    .collect();
                V::A(v.into())
            }
        }
    }
    fn flat(t: &Ty, v: &V) -> E {
        match v {
            V::I(e) => *e,
            V::A(x) => {
                let et = t.field_ty(0);
                let mut e = Self::flat(&et, &x[0]);
                for y in &x[1..] {
                    e = concat(Self::flat(&et, y), e);
                }
                e
            }
        }
    }
    fn unflat(t: &Ty, e: E) -> V {
        match t {
            Ty::Vec(n, et) => {
                let w = width(e) / *n as u32;
                V::A((0..*n as u32).map(|i| Self::unflat(et, extract(e, i * w, w))).collect::<Vec<_>>().into())
            }
            _ => V::I(e),
        }
    }
    fn setreg(s: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        if d != NONE {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }

    pub fn step(&mut self, s: &mut State) -> R<()> {
        s.steps += 1;
        if s.steps > self.opts.max_steps {
            return Err(Stop::Limit("step limit".into()));
        }
        let fr: &Frame = s.frames.last().unwrap();
        self.prof[fr.f as usize] += 1;
        let body = fr.body.clone();
        let (d, inst) = {
            let b = &body.blocks[fr.blk as usize];
            let (d, i) = &b.insts[fr.ip as usize];
            (*d, i)
        };
        macro_rules! get {
            ($o:expr) => {
                Self::get(s.frames.last().unwrap(), $o)
            };
        }
        let val = match inst {
            Inst::Bin(op, a, b) => {
                let (x, y) = (get!(a), get!(b));
                let op = *op;
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                    if let (V::I(_), V::I(y)) = (&x, &y) {
                        // keep symbolic divisors out of the solver
                        if as_const(*y).is_none() {
                            let v = self.force(s, *y)?;
                            V::I(bin(op, x.i(), konst(v, width(*y))))
                        } else {
                            V::I(bin(op, x.i(), *y))
                        }
                    } else {
                        Self::map2(&x, &y, &move |p, q| bin(op, p, q))
                    }
                } else {
                    match (&x, &y) {
                        (V::I(p), V::I(q)) => V::I(bin(op, *p, *q)),
                        _ => Self::map2(&x, &y, &move |p, q| bin(op, p, q)),
                    }
                }
            }
            Inst::Icmp(p, a, b) => {
                let (x, y) = (get!(a), get!(b));
                let p = *p;
                Self::map2(&x, &y, &move |x, y| icmp(p, x, y))
            }
            Inst::Select(c, a, b) => {
                let (c, a, b) = (get!(c), get!(a), get!(b));
                Self::select(&c, &a, &b)
            }
            Inst::Cast(k, from, a, to) => {
                let x = get!(a);
                self.cast(s, *k, from, x, to)?
            }
            Inst::Gep(base, off, dynv) => {
                let bv = get!(base);
                let mut e = match bv {
                    V::I(e) => e,
                    V::A(_) => return Err(Stop::Limit("vector gep".into())),
                };
                let mut o = c64(*off);
                for (i, sc) in dynv {
                    let iv = get!(i).i();
                    let iv = if width(iv) < 64 { sext(iv, 64) } else { iv };
                    o = bin(Op::Add, o, bin(Op::Mul, iv, c64(*sc)));
                }
                e = bin(Op::Add, e, o);
                V::I(e)
            }
            Inst::Load(t, p) => {
                let p = get!(p).i();
                self.load(s, t, p)?
            }
            Inst::Store(t, v, p) => {
                let (v, p) = (get!(v), get!(p).i());
                if as_const(p).is_none() && self.store_sym(s, t, &v, p)? {
                    Self::setreg(s, NONE, v);
                    return Ok(());
                }
                let a = self.force(s, p)? as u64;
                self.store_c(s, t, &v, a)?;
                Self::setreg(s, NONE, v);
                return Ok(());
            }
            Inst::Alloca(sz, al, cnt) => {
                let mut n = *sz;
                if let Some(c) = cnt {
                    let c = get!(c).i();
                    n *= self.force(s, c)? as u64;
                }
                let a = self.alloc(s, n, *al, 1);
                let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                fr.allocas.push(a);
                V::I(c64(a))
            }
            Inst::Phi(_) => panic!("phi in the middle of a block"),
            Inst::Br(t) => {
                self.jump(s, *t);
                return Ok(());
            }
            Inst::CondBr(c, t, f) => {
                let c = get!(c).i();
                if as_const(c).is_none() && t != f {
                    let arms = [(c, *t, None), (not(c), *f, None)];
                    if self.merge(s, &arms)? {
                        return Ok(());
                    }
                }
                let v = self.decide(s, c)?;
                self.jump(s, if v { *t } else { *f });
                return Ok(());
            }
            Inst::Switch(w, v, cases, dflt) => {
                let e = get!(v).i();
                let target = if let Some(k) = as_const(e) {
                    cases.iter().find(|c| c.0 == k).map_or(*dflt, |c| c.1)
                } else {
                    if cases.len() >= 2 {
                        let mut arms: Vec<(E, u32, Option<(E, u128)>)> = vec![];
                        let mut other = cbool(true);
                        for c in cases.iter() {
                            let q = eq(e, konst(c.0, *w));
                            other = and1(other, not(q));
                            match arms.iter_mut().find(|a| a.1 == c.1) {
                                Some(a) => {
                                    a.0 = or1(a.0, q);
                                    a.2 = None;
                                }
                                None => arms.push((q, c.1, Some((e, c.0)))),
                            }
                        }
                        match arms.iter_mut().find(|a| a.1 == *dflt) {
                            Some(a) => {
                                a.0 = or1(a.0, other);
                                a.2 = None;
                            }
                            None => arms.push((other, *dflt, None)),
                        }
                        if self.merge(s, &arms)? {
                            return Ok(());
                        }
                    }
                    let k = self.evalm(s, e);
                    let t = cases.iter().find(|c| c.0 == k).map_or(*dflt, |c| c.1);
                    let mut cond = cbool(false);
                    for c in cases.iter().filter(|c| c.1 == t) {
                        cond = or1(cond, eq(e, konst(c.0, *w)));
                    }
                    if t == *dflt {
                        let mut other = cbool(true);
                        for c in cases.iter() {
                            other = and1(other, not(eq(e, konst(c.0, *w))));
                        }
                        cond = or1(cond, other);
                    }
                    let r = self.decide(s, cond)?;
                    debug_assert!(r);
                    let _ = r;
                    t
                };
                self.jump(s, target);
                return Ok(());
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| get!(o));
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas {
                    if let Ok(i) = s.mem.binary_search_by_key(a, |x| x.0) {
                        s.mem.remove(i);
                    }
                }
                if s.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let caller = Rc::make_mut(s.frames.last_mut().unwrap());
                if fr.dest != NONE {
                    caller.regs[fr.dest as usize] = v.unwrap_or(V::I(E::C(0, 1)));
                }
                caller.ip += 1;
                if let Some(n) = fr.normal {
                    self.jump(s, n);
                }
                return Ok(());
            }
            Inst::Unreachable => {
                return Err(self.viol(s, "unreachable", "reached an `unreachable` instruction"));
            }
            Inst::Call(callee, args, rt, normal) => {
                let argv: Vec<V> = args.iter().map(|a| get!(a)).collect();
                return self.call(s, callee, argv, rt, *normal, d);
            }
            Inst::ExtractValue(a, ix) => {
                let mut v = get!(a);
                for i in ix {
                    v = v.a()[*i as usize].clone();
                }
                v
            }
            Inst::InsertValue(a, b, ix) => {
                let (a, b) = (get!(a), get!(b));
                fn ins(a: &V, b: V, ix: &[u64]) -> V {
                    if ix.is_empty() {
                        return b;
                    }
                    let mut v: Vec<V> = a.a().to_vec();
                    let k = ix[0] as usize;
                    v[k] = ins(&v[k], b, &ix[1..]);
                    V::A(v.into())
                }
                ins(&a, b, ix)
            }
            Inst::ExtractElement(a, i) => {
                let (a, i) = (get!(a), get!(i).i());
                let k = self.force(s, i)? as usize;
                a.a()[k].clone()
            }
            Inst::InsertElement(a, b, i) => {
                let (a, b, i) = (get!(a), get!(b), get!(i).i());
                let k = self.force(s, i)? as usize;
                let mut v = a.a().to_vec();
                v[k] = b;
                V::A(v.into())
            }
            Inst::Shuffle(a, b, mask) => {
                let (a, b) = (get!(a), get!(b));
                let n = a.a().len() as i64;
                let v: Vec<V> = mask
                    .iter()
                    .map(|&k| if k < n { a.a()[k as usize].clone() } else { b.a()[(k - n) as usize].clone() })
                    .collect();
                V::A(v.into())
            }
            Inst::AtomicRmw(op, t, p, v) => {
                let (p, v) = (get!(p).i(), get!(v).i());
                let a = self.force(s, p)? as u64;
                let old = self.load_c(s, t, a)?.i();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => bin(Op::Add, old, v),
                    "sub" => bin(Op::Sub, old, v),
                    "and" => bin(Op::And, old, v),
                    "or" => bin(Op::Or, old, v),
                    "xor" => bin(Op::Xor, old, v),
                    "nand" => not(bin(Op::And, old, v)),
                    "umax" => ite(cmp(Cmp::Ult, old, v), v, old),
                    "umin" => ite(cmp(Cmp::Ult, old, v), old, v),
                    "max" => ite(cmp(Cmp::Slt, old, v), v, old),
                    "min" => ite(cmp(Cmp::Slt, old, v), old, v),
                    o => return Err(Stop::Limit(format!("atomicrmw {}", o))),
                };
                self.store_c(s, t, &V::I(new), a)?;
                V::I(old)
            }
            Inst::CmpXchg(t, p, a, b) => {
                let (p, e, n) = (get!(p).i(), get!(a).i(), get!(b).i());
                let ad = self.force(s, p)? as u64;
                let old = self.load_c(s, t, ad)?.i();
                let ok = self.decide(s, eq(old, e))?;
                if ok {
                    self.store_c(s, t, &V::I(n), ad)?;
                }
                V::A(vec![V::I(old), V::I(cbool(ok))].into())
            }
            Inst::Freeze(a) => get!(a),
            Inst::FBin(op, t, a, b) => {
                let (x, y) = (get!(a).i(), get!(b).i());
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => {
                        let (x, y) = (self.force(s, x)? as u64, self.force(s, y)? as u64);
                        let r = fromf(t, tof(t, x) % tof(t, y));
                        Self::setreg(s, d, V::I(r));
                        return Ok(());
                    }
                };
                V::I(fop(o, x, y, t.bits()))
            }
            Inst::FNeg(t, a) => {
                let x = get!(a).i();
                let w = t.bits();
                V::I(bin(Op::Xor, x, konst(1u128 << (w - 1), w)))
            }
            Inst::FCmp(p, _t, a, b) => {
                let (x, y) = (get!(a).i(), get!(b).i());
                let un = fop(FOp::Nan, x, y, 1);
                let base = |p: &str| -> Option<E> {
                    Some(match p {
                        "eq" => fop(FOp::Eq, x, y, 1),
                        "gt" => fop(FOp::Lt, y, x, 1),
                        "ge" => fop(FOp::Le, y, x, 1),
                        "lt" => fop(FOp::Lt, x, y, 1),
                        "le" => fop(FOp::Le, x, y, 1),
                        "ne" => and1(not(fop(FOp::Eq, x, y, 1)), not(un)),
                        _ => return None,
                    })
                };
                let r = match p.as_str() {
                    "ord" => not(un),
                    "uno" => un,
                    q => match (q.as_bytes()[0], base(&q[1..])) {
                        (b'o', Some(e)) => e,
                        (b'u', Some(e)) => or1(un, e),
                        _ => return Err(Stop::Limit(format!("fcmp {}", p))),
                    },
                };
                V::I(r)
            }
            Inst::Nop => V::I(E::C(0, 1)),
            Inst::Resume => return Err(self.viol(s, "unwind", "resume")),
        };
        Self::setreg(s, d, val);
        Ok(())
    }

    fn cast(&mut self, s: &mut State, k: Cast, from: &Ty, x: V, to: &Ty) -> R<V> {
        let ew = |t: &Ty| match t {
            Ty::Vec(_, e) => e.bits(),
            t => t.bits(),
        };
        Ok(match k {
            Cast::Trunc => {
                let w = ew(to);
                Self::map1(&x, &move |e| extract(e, 0, w))
            }
            Cast::ZExt => {
                let w = ew(to);
                Self::map1(&x, &move |e| zext(e, w))
            }
            Cast::SExt => {
                let w = ew(to);
                Self::map1(&x, &move |e| sext(e, w))
            }
            Cast::PtrToInt | Cast::IntToPtr => {
                let w = ew(to);
                Self::map1(&x, &move |e| if width(e) > w { extract(e, 0, w) } else { zext(e, w) })
            }
            Cast::Bitcast => match (from, to) {
                (Ty::Vec(..), _) | (_, Ty::Vec(..)) => Self::unflat(to, Self::flat(from, &x)),
                _ => x,
            },
            Cast::UiToFp => V::I(fop(FOp::FromU, x.i(), x.i(), to.bits())),
            Cast::SiToFp => V::I(fop(FOp::FromS, x.i(), x.i(), to.bits())),
            Cast::FpToUi => V::I(fop(FOp::ToU, x.i(), x.i(), to.bits())),
            Cast::FpToSi => V::I(fop(FOp::ToS, x.i(), x.i(), to.bits())),
            Cast::FpExt | Cast::FpTrunc => V::I(fop(FOp::Cvt, x.i(), x.i(), to.bits())),
        })
    }

    fn call(&mut self, s: &mut State, callee: &Callee, args: Vec<V>, rt: &Ty, normal: Option<u32>, d: u32) -> R<()> {
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm(_) => {
                let z = match rt {
                    Ty::Void => V::I(E::C(0, 1)),
                    t => t.zero(),
                };
                Self::setreg(s, d, z);
                return Ok(());
            }
            Callee::Ind(o) => {
                let e = Self::get(s.frames.last().unwrap(), o).i();
                let a = self.force(s, e)? as u64;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(self.viol(s, "memory", format!("call through bad pointer {:#x}", a)));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let k = self.kind(f);
        let f = if k == FK::FormatInner { self.fmt_stub.unwrap() } else { f };
        if k == FK::Ir || k == FK::FormatInner {
            if s.frames.len() > 400 {
                return Err(self.viol(s, "recursion", "call depth exceeds 400 frames"));
            }
            self.covered[f as usize] = true;
            let body = self.m.body(f);
            let mut regs = vec![V::I(E::C(0, 1)); body.nregs as usize];
            for (p, v) in body.params.iter().zip(args) {
                regs[*p as usize] = v;
            }
            s.frames.push(Rc::new(Frame { f, body, blk: 0, ip: 0, regs, allocas: vec![], dest: d, normal }));
            return Ok(());
        }
        let r = self.native(s, f, k, &args, rt)?;
        Self::setreg(s, d, r);
        if let Some(n) = normal {
            self.jump(s, n);
        }
        Ok(())
    }

    fn native(&mut self, s: &mut State, f: u32, k: FK, a: &[V], rt: &Ty) -> R<V> {
        let unit = V::I(E::C(0, 1));
        macro_rules! c {
            ($i:expr) => {
                self.force(s, a[$i].i())? as u64
            };
        }
        Ok(match k {
            FK::Malloc => {
                let n = self.alloc_size(s, a[0].i())?;
                if n > 1 << 26 {
                    return Err(Stop::Limit("allocation > 64 MiB".into()));
                }
                V::I(c64(self.alloc(s, n, 16, 0)))
            }
            FK::Calloc => {
                let n = self.alloc_size(s, bin(Op::Mul, a[0].i(), a[1].i()))?;
                if n > 1 << 26 {
                    return Err(Stop::Limit("allocation > 64 MiB".into()));
                }
                V::I(c64(self.alloc(s, n, 16, 0)))
            }
            FK::PosixMemalign => {
                let (p, al, n) = (c!(0), c!(1), c!(2));
                let x = self.alloc(s, n, al, 0);
                self.store_c(s, &Ty::Ptr, &V::I(c64(x)), p)?;
                V::I(E::C(0, 32))
            }
            FK::Realloc => {
                let p = c!(0);
                let n = self.alloc_size(s, a[1].i())?;
                if n > 1 << 26 {
                    return Err(Stop::Limit("allocation > 64 MiB".into()));
                }
                let x = self.alloc(s, n, 16, 0);
                if p != 0 {
                    let (_, o) = self.find(s, p, 0)?;
                    let m = o.size.min(n);
                    self.memcpy(s, x, p, m)?;
                    self.dealloc(s, p)?;
                }
                V::I(c64(x))
            }
            FK::Free => {
                let p = c!(0);
                if p != 0 {
                    self.dealloc(s, p)?;
                }
                unit
            }
            FK::Memcpy => {
                let (d, sr, n) = (a[0].i(), a[1].i(), c!(2));
                if n != 0 {
                    let (d, sr) = (self.force(s, d)? as u64, self.force(s, sr)? as u64);
                    self.memcpy(s, d, sr, n)?;
                }
                V::I(a[0].i())
            }
            FK::Memset => {
                let (d, v) = (c!(0), a[1].i());
                let v8 = extract(v, 0, 8);
                if let (None, Some(x)) = (as_const(a[2].i()), as_const(v8)) {
                    // symbolic length: nothing to do where the target already holds the value
                    if let Ok((b, o)) = self.find(s, d, 1) {
                        let off = (d - b) as usize;
                        let over = cmp(Cmp::Ult, c64(o.size - (d - b)), a[2].i());
                        if o.sym.range(off as u32..).next().is_none()
                            && o.data[off..].iter().all(|y| *y == x as u8)
                            && self.query(s, over)?.is_none()
                        {
                            return Ok(V::I(a[0].i()));
                        }
                    }
                }
                let n = c!(2);
                if n != 0 {
                    let (b, o) = self.obj_mut(s, d, n)?;
                    let off = d - b;
                    if let Some(x) = as_const(v8) {
                        o.clear_sym(off, n);
                        o.data[off as usize..(off + n) as usize].fill(x as u8);
                    } else {
                        for i in 0..n {
                            o.set_byte(off + i, v8);
                        }
                    }
                }
                V::I(a[0].i())
            }
            FK::Memcmp => {
                let n = c!(2);
                if n == 0 {
                    return Ok(V::I(E::C(0, 32)));
                }
                let (p, q) = (c!(0), c!(1));
                let (x, y) = (self.bytes_at(s, p, n)?, self.bytes_at(s, q, n)?);
                let bc = self.m.funcs[f as usize].name == "bcmp";
                let mut r = E::C(0, 32);
                if bc {
                    let mut t = cbool(true);
                    for (u, v) in x.iter().zip(y.iter()) {
                        t = and1(t, eq(*u, *v));
                    }
                    r = ite(t, E::C(0, 32), E::C(1, 32));
                } else {
                    for (u, v) in x.iter().zip(y.iter()).rev() {
                        r = ite(
                            eq(*u, *v),
                            r,
                            ite(cmp(Cmp::Ult, *u, *v), konst(u128::MAX, 32), E::C(1, 32)),
                        );
                    }
                }
                V::I(r)
            }
            FK::Strlen => {
                let mut p = c!(0);
                let st = p;
                loop {
                    let b = self.load_c(s, &Ty::Int(8), p)?.i();
                    if self.force(s, b)? == 0 {
                        break;
                    }
                    p += 1;
                }
                V::I(c64(p - st))
            }
            FK::Umax | FK::Umin | FK::Smax | FK::Smin => {
                let op = if matches!(k, FK::Umax | FK::Umin) { Cmp::Ult } else { Cmp::Slt };
                let mx = matches!(k, FK::Umax | FK::Smax);
                Self::map2(&a[0], &a[1], &move |x, y| {
                    let l = cmp(op, x, y);
                    if mx {
                        ite(l, y, x)
                    } else {
                        ite(l, x, y)
                    }
                })
            }
            FK::UsubSat => Self::map2(&a[0], &a[1], &|x, y| ite(cmp(Cmp::Ult, x, y), konst(0, width(x)), bin(Op::Sub, x, y))),
            FK::UaddSat => Self::map2(&a[0], &a[1], &|x, y| {
                let r = bin(Op::Add, x, y);
                ite(cmp(Cmp::Ult, r, x), konst(u128::MAX, width(x)), r)
            }),
            FK::SsubSat | FK::SaddSat => return Err(Stop::Limit("signed saturating".into())),
            FK::UaddO => {
                let (x, y) = (a[0].i(), a[1].i());
                let w = width(x);
                let r = bin(Op::Add, x, y);
                let wide = umax(x).checked_add(umax(y));
                let o = if wide.map_or(false, |v| v <= mask(w)) { cbool(false) } else { cmp(Cmp::Ult, r, x) };
                V::A(vec![V::I(r), V::I(o)].into())
            }
            FK::UsubO => {
                let (x, y) = (a[0].i(), a[1].i());
                V::A(vec![V::I(bin(Op::Sub, x, y)), V::I(cmp(Cmp::Ult, x, y))].into())
            }
            FK::UmulO | FK::SmulO => {
                let (x, y) = (a[0].i(), a[1].i());
                let w = width(x);
                let sg = k == FK::SmulO;
                if w <= 64 {
                    let e = |v: E| if sg { sext(v, 2 * w) } else { zext(v, 2 * w) };
                    let p = bin(Op::Mul, e(x), e(y));
                    let r = extract(p, 0, w);
                    let o = if !sg && umax(x).checked_mul(umax(y)).map_or(false, |v| v <= mask(w)) {
                        cbool(false)
                    } else if sg {
                        not(eq(p, sext(r, 2 * w)))
                    } else {
                        not(eq(extract(p, w, w), konst(0, w)))
                    };
                    V::A(vec![V::I(bin(Op::Mul, x, y)), V::I(o)].into())
                } else {
                    let (xv, yv) = (self.force(s, x)?, self.force(s, y)?);
                    let (r, o) = xv.overflowing_mul(yv);
                    V::A(vec![V::I(konst(r, w)), V::I(cbool(o))].into())
                }
            }
            FK::SaddO | FK::SsubO => {
                let (x, y) = (a[0].i(), a[1].i());
                let w = width(x);
                let op = if k == FK::SaddO { Op::Add } else { Op::Sub };
                let p = bin(op, sext(x, w + 1), sext(y, w + 1));
                let r = bin(op, x, y);
                V::A(vec![V::I(r), V::I(not(eq(p, sext(r, w + 1))))].into())
            }
            FK::Ctlz => {
                let x = a[0].i();
                let w = width(x);
                let mut r = konst(w as u128, w);
                for i in 0..w {
                    r = ite(extract(x, i, 1), konst((w - 1 - i) as u128, w), r);
                }
                V::I(r)
            }
            FK::Cttz => Self::map1(&a[0], &|x| {
                let w = width(x);
                let mut r = konst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), konst(i as u128, w), r);
                }
                r
            }),
            FK::Ctpop => Self::map1(&a[0], &|x| {
                let w = width(x);
                let mut r = konst(0, w);
                for i in 0..w {
                    r = bin(Op::Add, r, if w == 1 { x } else { zext(extract(x, i, 1), w) });
                }
                r
            }),
            FK::FpToUiSat => V::I(fop(FOp::ToU, a[0].i(), a[0].i(), rt.bits())),
            FK::FpToSiSat => V::I(fop(FOp::ToS, a[0].i(), a[0].i(), rt.bits())),
            FK::Bswap => Self::map1(&a[0], &|x| {
                let n = width(x) / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n {
                    r = concat(r, extract(x, 8 * i, 8));
                }
                r
            }),
            FK::BitReverse => Self::map1(&a[0], &|x| {
                let n = width(x);
                let mut r = extract(x, 0, 1);
                for i in 1..n {
                    r = concat(r, extract(x, i, 1));
                }
                r
            }),
            FK::Fshl | FK::Fshr => {
                let (x, y, z) = (a[0].clone(), a[1].clone(), a[2].clone());
                let one = |x: E, y: E, z: E| -> Option<E> {
                    let w = width(x);
                    let sh = (as_const(z)? % w as u128) as u32;
                    let cat = concat(x, y);
                    Some(if k == FK::Fshl { extract(cat, w - sh, w) } else { extract(cat, sh, w) })
                };
                match (&x, &y, &z) {
                    (V::I(p), V::I(q), V::I(r)) => {
                        let zc = self.force(s, *r)?;
                        V::I(one(*p, *q, konst(zc, width(*r))).unwrap())
                    }
                    (V::A(p), V::A(q), V::A(r)) => {
                        let mut v = vec![];
                        for i in 0..p.len() {
                            match one(p[i].i(), q[i].i(), r[i].i()) {
                                Some(e) => v.push(V::I(e)),
                                None => return Err(Stop::Limit("vector funnel shift".into())),
                            }
                        }
                        V::A(v.into())
                    }
                    _ => panic!(),
                }
            }
            FK::Abs => Self::map1(&a[0], &|x| {
                let w = width(x);
                ite(extract(x, w - 1, 1), bin(Op::Sub, konst(0, w), x), x)
            }),
            FK::Ucmp | FK::Scmp => {
                let w = rt.bits();
                let op = if k == FK::Ucmp { Cmp::Ult } else { Cmp::Slt };
                let (x, y) = (a[0].i(), a[1].i());
                V::I(ite(
                    cmp(op, x, y),
                    konst(u128::MAX, w),
                    ite(eq(x, y), konst(0, w), konst(1, w)),
                ))
            }
            FK::IsConst => V::I(cbool(false)),
            FK::ObjSize => V::I(konst(u128::MAX, rt.bits())),
            FK::LoadRel => {
                let (p, o) = (c!(0), a[1].i());
                let o = self.force(s, o)? as u64;
                let off = self.load_c(s, &Ty::Int(32), p.wrapping_add(o))?.i();
                let off = self.force(s, off)? as u32 as i32 as i64 as u64;
                V::I(c64(p.wrapping_add(off)))
            }
            FK::Tls | FK::Ident => a[0].clone(),
            FK::Nop => unit,
            FK::VecReduceOr | FK::VecReduceAnd | FK::VecReduceAdd | FK::VecReduceMax => {
                let mut it = a[0].a().iter();
                let mut r = it.next().unwrap().i();
                for x in it {
                    let x = x.i();
                    r = match k {
                        FK::VecReduceOr => bin(Op::Or, r, x),
                        FK::VecReduceAnd => bin(Op::And, r, x),
                        FK::VecReduceAdd => bin(Op::Add, r, x),
                        _ => ite(cmp(Cmp::Ult, r, x), x, r),
                    };
                }
                V::I(r)
            }
            FK::Panic => {
                let name = self.m.funcs[f as usize].name.clone();
                let loc = self.location(s, a);
                let mut msg = String::new();
                if name.contains("9panicking5panic") || name.contains("6option13expect_failed") {
                    if let (Some(p), Some(n)) = (as_const(a[0].i()), a.get(1).and_then(|x| as_const(x.i()))) {
                        if n < 300 {
                            msg = self.cstr(s, p as u64, n as u64);
                        }
                    }
                }
                let _ = &msg;
                return Err(self.viol(s, "panic", format!("{} {}", loc, msg).trim().to_string()));
            }
            FK::Trap | FK::Abort => return Err(self.viol(s, "abort", "process abort")),
            FK::FromUtf8 => {
                let (ret, p, n) = (c!(0), c!(1), c!(2));
                let b = self.bytes_at(s, p, n)?;
                let ok = utf8_ok(&b);
                if self.decide(s, ok)? {
                    self.store_c(s, &Ty::Int(64), &V::I(c64(0)), ret)?;
                    self.store_c(s, &Ty::Int(64), &V::I(c64(p)), ret + 8)?;
                    self.store_c(s, &Ty::Int(64), &V::I(c64(n)), ret + 16)?;
                } else {
                    // the content of the error is not modelled: valid_up_to = 0, error_len = None
                    self.store_c(s, &Ty::Int(64), &V::I(c64(1)), ret)?;
                    self.store_c(s, &Ty::Int(64), &V::I(c64(0)), ret + 8)?;
                    self.store_c(s, &Ty::Int(64), &V::I(c64(0)), ret + 16)?;
                }
                unit
            }
            FK::HashOne => V::I(c64(0)),
            FK::VsBytes => {
                let (p, n) = (c!(0), c!(1));
                for i in 0..n {
                    let v = self.fresh(s, true);
                    self.store_c(s, &Ty::Int(8), &V::I(v), p + i)?;
                }
                unit
            }
            FK::VsChoice => {
                let n = c!(0) as u32;
                assert!(n <= 256);
                let i = s.nvars;
                let v = self.fresh(s, true);
                // every value 0..n is feasible for a fresh byte: fork without queries
                for x in (1..n).rev() {
                    let mut alt = s.clone();
                    Self::addpc(&mut alt, eq(v, E::C(x as u64, 8)));
                    let mut mb = alt.model.bytes.clone();
                    mb.resize((i + 1) as usize, 0);
                    mb[i as usize] = x as u8;
                    alt.model = Self::newmodel(mb);
                    self.rep.forks += 1;
                    // complete the call in the alternative
                    let fr = alt.frames.last().unwrap();
                    let (d, _) = fr.body.blocks[fr.blk as usize].insts[fr.ip as usize];
                    Self::setreg(&mut alt, d, V::I(c64(x as u64)));
                    self.pending.push(alt);
                }
                if self.evalm(s, v) != 0 {
                    let mut mb = s.model.bytes.clone();
                    mb.resize((i + 1) as usize, 0);
                    mb[i as usize] = 0;
                    s.model = Self::newmodel(mb);
                }
                Self::addpc(s, eq(v, E::C(0, 8)));
                V::I(c64(0))
            }
            FK::VsAssume => {
                let c = a[0].i();
                let c = if width(c) == 1 { c } else { not(eq(c, konst(0, width(c)))) };
                if let Some(v) = as_const(c) {
                    if v == 0 {
                        return Err(Stop::Infeasible);
                    }
                } else if self.evalm(s, c) != 0 {
                    Self::addpc(s, c);
                } else {
                    match self.query(s, c)? {
                        Some(m) => {
                            s.model = Self::newmodel(m);
                            Self::addpc(s, c);
                        }
                        None => return Err(Stop::Infeasible),
                    }
                }
                unit
            }
            FK::VsFail => {
                let (p, n) = (c!(0), c!(1));
                let m = self.cstr(s, p, n);
                return Err(self.viol(s, m, ""));
            }
            FK::VsCheck => {
                self.rep.checks += 1;
                let c = a[0].i();
                let c = if width(c) == 1 { c } else { not(eq(c, konst(0, width(c)))) };
                let (p, n) = (c!(1), c!(2));
                let m = self.cstr(s, p, n);
                if let Some(v) = as_const(c) {
                    if v == 0 {
                        return Err(self.viol(s, m, ""));
                    }
                } else if let Some(md) = self.query(s, not(c))? {
                    let v = Viol { code: m, loc: String::new(), stack: self.stack(s) };
                    self.violation(s, v, Some(&md));
                    // continue with the passing inputs
                    if self.evalm(s, c) == 0 {
                        match self.query(s, c)? {
                            Some(m2) => s.model = Self::newmodel(m2),
                            None => return Err(Stop::Infeasible),
                        }
                    }
                    Self::addpc(s, c);
                }
                unit
            }
            FK::VsReach => {
                let (p, n) = (c!(0), c!(1));
                let m = self.cstr(s, p, n);
                s.reach.insert(m);
                unit
            }
            FK::VsNote => {
                let (p, n) = (c!(0), c!(1));
                let m = self.cstr(s, p, n);
                s.notes.push((m, a[2].i()));
                unit
            }
            FK::VsConcrete => V::I(c64(c!(0))),
            FK::VsNative => V::I(konst(0, rt.bits())),
            FK::VsEnd => return Err(Stop::Done),
            FK::VsLoadN => unit,
            FK::RetZero => match rt {
                Ty::Void => unit,
                t => t.zero(),
            },
            FK::GetRandom => {
                let n = c!(1);
                V::I(konst(n as u128, rt.bits()))
            }
            FK::Write => {
                let n = c!(2);
                V::I(konst(n as u128, rt.bits()))
            }
            FK::Errno => {
                if self.errno == 0 {
                    self.errno = 1;
                }
                // a per-state scratch word
                let e = self.alloc(s, 8, 8, 0);
                V::I(c64(e))
            }
            FK::ClockGettime => {
                let p = c!(1);
                s.clock += 1_000;
                let t = s.clock;
                self.store_c(s, &Ty::Int(64), &V::I(c64(t / 1_000_000_000)), p)?;
                self.store_c(s, &Ty::Int(64), &V::I(c64(t % 1_000_000_000)), p + 8)?;
                V::I(konst(0, rt.bits()))
            }
            FK::Fmul | FK::FloorF | FK::Ir | FK::FormatInner | FK::Unknown => {
                return Err(Stop::Limit(format!("unsupported external function {}", self.m.funcs[f as usize].name)))
            }
        })
    }

    fn location(&mut self, s: &State, a: &[V]) -> String {
        for x in a.iter().rev() {
            if let V::I(e) = x {
                if let Some(p) = as_const(*e) {
                    let p = p as u64;
                    if p >= GLOB_BASE && p < FUNC_BASE {
                        if let Ok((b, o)) = self.find(s, p, 24) {
                            let off = p - b;
                            let fp = as_const(o.read(off, 8)).unwrap_or(0) as u64;
                            let fl = as_const(o.read(off + 8, 8)).unwrap_or(0) as u64;
                            let line = as_const(o.read(off + 16, 4)).unwrap_or(0);
                            if fp >= GLOB_BASE && fp < FUNC_BASE && fl < 400 && fl > 0 {
                                let file = self.cstr(s, fp, fl).trim_end_matches('\0').to_string();
                                return format!("{}:{}", file, line);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
}

fn tof(t: &Ty, v: u64) -> f64 {
    if *t == Ty::Float {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}
fn fromf(t: &Ty, v: f64) -> E {
    if *t == Ty::Float {
        E::C((v as f32).to_bits() as u64, 32)
    } else {
        E::C(v.to_bits(), 64)
    }
}

fn icmp(p: Pred, x: E, y: E) -> E {
    match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ult => cmp(Cmp::Ult, x, y),
        Pred::Ule => cmp(Cmp::Ule, x, y),
        Pred::Ugt => cmp(Cmp::Ult, y, x),
        Pred::Uge => cmp(Cmp::Ule, y, x),
        Pred::Slt => cmp(Cmp::Slt, x, y),
        Pred::Sle => cmp(Cmp::Sle, x, y),
        Pred::Sgt => cmp(Cmp::Slt, y, x),
        Pred::Sge => cmp(Cmp::Sle, y, x),
    }
}

/// Exact UTF-8 validity of a byte sequence, as an expression.
pub fn utf8_ok(b: &[E]) -> E {
    let n = b.len();
    let rng = |e: E, lo: u64, hi: u64| and1(cmp(Cmp::Ule, E::C(lo, 8), e), cmp(Cmp::Ule, e, E::C(hi, 8)));
    let mut ok = vec![cbool(false); n + 4];
    ok[n] = cbool(true);
    for i in (0..n).rev() {
        let x = b[i];
        let mut r = and1(cmp(Cmp::Ult, x, E::C(0x80, 8)), ok[i + 1]);
        if i + 2 <= n {
            let t = and1(rng(x, 0xc2, 0xdf), rng(b[i + 1], 0x80, 0xbf));
            r = or1(r, and1(t, ok[i + 2]));
        }
        if i + 3 <= n {
            let c = rng(b[i + 2], 0x80, 0xbf);
            let y = b[i + 1];
            let mut t = and1(eq(x, E::C(0xe0, 8)), rng(y, 0xa0, 0xbf));
            t = or1(t, and1(or1(rng(x, 0xe1, 0xec), rng(x, 0xee, 0xef)), rng(y, 0x80, 0xbf)));
            t = or1(t, and1(eq(x, E::C(0xed, 8)), rng(y, 0x80, 0x9f)));
            r = or1(r, and1(and1(t, c), ok[i + 3]));
        }
        if i + 4 <= n {
            let c = and1(rng(b[i + 2], 0x80, 0xbf), rng(b[i + 3], 0x80, 0xbf));
            let y = b[i + 1];
            let mut t = and1(eq(x, E::C(0xf0, 8)), rng(y, 0x90, 0xbf));
            t = or1(t, and1(rng(x, 0xf1, 0xf3), rng(y, 0x80, 0xbf)));
            t = or1(t, and1(eq(x, E::C(0xf4, 8)), rng(y, 0x80, 0x8f)));
            r = or1(r, and1(and1(t, c), ok[i + 4]));
        }
        ok[i] = r;
    }
    ok[0]
}

fn classify(n: &str, defined: bool, fmt: bool) -> FK {
    if let Some(x) = n.strip_prefix("llvm.") {
        let has = |p: &str| x.starts_with(p);
        return if has("memcpy") || has("memmove") {
            FK::Memcpy
        } else if has("memset") {
            FK::Memset
        } else if has("umax") {
            FK::Umax
        } else if has("umin") {
            FK::Umin
        } else if has("smax") {
            FK::Smax
        } else if has("smin") {
            FK::Smin
        } else if has("usub.sat") {
            FK::UsubSat
        } else if has("uadd.sat") {
            FK::UaddSat
        } else if has("ssub.sat") {
            FK::SsubSat
        } else if has("sadd.sat") {
            FK::SaddSat
        } else if has("uadd.with") {
            FK::UaddO
        } else if has("usub.with") {
            FK::UsubO
        } else if has("umul.with") {
            FK::UmulO
        } else if has("sadd.with") {
            FK::SaddO
        } else if has("ssub.with") {
            FK::SsubO
        } else if has("smul.with") {
            FK::SmulO
        } else if has("ctlz") {
            FK::Ctlz
        } else if has("cttz") {
            FK::Cttz
        } else if has("ctpop") {
            FK::Ctpop
        } else if has("bswap") {
            FK::Bswap
        } else if has("bitreverse") {
            FK::BitReverse
        } else if has("fshl") {
            FK::Fshl
        } else if has("fshr") {
            FK::Fshr
        } else if has("abs") {
            FK::Abs
        } else if has("ucmp") {
            FK::Ucmp
        } else if has("scmp") {
            FK::Scmp
        } else if has("is.constant") {
            FK::IsConst
        } else if has("objectsize") {
            FK::ObjSize
        } else if has("trap") || has("ubsantrap") {
            FK::Trap
        } else if has("load.relative") {
            FK::LoadRel
        } else if has("threadlocal.address") {
            FK::Tls
        } else if has("expect") || has("launder") || has("strip.invariant") || has("ptrmask") && false {
            FK::Ident
        } else if has("fptoui.sat") {
            FK::FpToUiSat
        } else if has("fptosi.sat") {
            FK::FpToSiSat
        } else if has("vector.reduce.or") {
            FK::VecReduceOr
        } else if has("vector.reduce.and") {
            FK::VecReduceAnd
        } else if has("vector.reduce.add") {
            FK::VecReduceAdd
        } else if has("vector.reduce.umax") {
            FK::VecReduceMax
        } else if has("x86.sse2.pause") {
            FK::Nop
        } else {
            FK::Fmul
        };
    }
    match n {
        "vs_bytes" => return FK::VsBytes,
        "vs_assume" => return FK::VsAssume,
        "vs_fail" => return FK::VsFail,
        "vs_reach" => return FK::VsReach,
        "vs_concrete" => return FK::VsConcrete,
        "vs_choice" => return FK::VsChoice,
        "vs_check" => return FK::VsCheck,
        "vs_note" => return FK::VsNote,
        "vs_native" => return FK::VsNative,
        "vs_end" => return FK::VsEnd,
        "malloc" => return FK::Malloc,
        "calloc" => return FK::Calloc,
        "realloc" => return FK::Realloc,
        "free" => return FK::Free,
        "posix_memalign" => return FK::PosixMemalign,
        "memcmp" | "bcmp" => return FK::Memcmp,
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "strlen" => return FK::Strlen,
        "getrandom" => return FK::GetRandom,
        "write" => return FK::Write,
        "abort" => return FK::Abort,
        "__errno_location" => return FK::Errno,
        "clock_gettime" if !defined => return FK::ClockGettime,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" => return FK::RetZero,
        _ => {}
    }
    const PANICS: &[&str] = &[
        "4core9panicking",
        "4core6option13unwrap_failed",
        "4core6option13expect_failed",
        "4core6result13unwrap_failed",
        "4core5slice5index16slice_index_fail",
        "4core5slice5index26slice_start_index_len_fail",
        "4core5slice5index24slice_end_index_len_fail",
        "4core5slice5index22slice_index_order_fail",
        "4core3str16slice_error_fail",
        "4core4cell22panic_already",
        "4core4cell30panic_already",
        "17capacity_overflow",
        "7raw_vec12handle_error",
        "18handle_alloc_error",
        "17rust_begin_unwind",
        "17len_mismatch_fail",
        "16panic_bounds_che",
    ];
    if n.starts_with("_R") && PANICS.iter().any(|p| n.contains(p)) {
        // panicking::panic_count etc. live in std::panicking, not core::panicking
        return FK::Panic;
    }
    if n.starts_with("_R") && n.ends_with("4core3str8converts9from_utf8") {
        return FK::FromUtf8;
    }
    if n.starts_with("_R") && n.contains("11BuildHasher8hash_one") {
        return FK::HashOne;
    }
    if fmt && n.starts_with("_R") && n.contains("5alloc3fmt6format12format_inner") {
        return FK::FormatInner;
    }
    if n.starts_with("_R") && (n.ends_with("3std2io5stdio6__print") || n.ends_with("3std2io5stdio7__eprint")) {
        return FK::Nop;
    }
    if defined {
        FK::Ir
    } else {
        FK::Fmul
    }
}
