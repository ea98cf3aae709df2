//! Z3 bindings (C API, libz3) and the query layer.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: P,
    solver: P,
    /// For the few queries with floating point in them.
    fpsolver: P,
    memo: HashMap<Id, P, Fx>,
    sorts: HashMap<u32, P>,
    vars: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub byte_fast: u64,
    pub time: f64,
    pub max_time: f64,
    slow: f64,
    cache: HashMap<Vec<u32>, Option<Vec<(u32, u8)>>, Fx>,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            let l = CString::new("QF_FPBV").unwrap();
            let fpsolver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, fpsolver);
            Z3_solver_set_params(ctx, fpsolver, p);
            Smt {
                ctx,
                solver,
                fpsolver,
                memo: HashMap::with_hasher(Fx),
                sorts: HashMap::new(),
                vars: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                byte_fast: 0,
                time: 0.0,
                max_time: 0.0,
                slow: std::env::var("VSYM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0),
                cache: HashMap::with_hasher(Fx),
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn varp(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            let s = self.sort(8);
            let k = self.vars.len() as c_int;
            let v = unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, k), s) };
            self.vars.push(v);
        }
        self.vars[i as usize]
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w == 1 {
                return if v != 0 { Z3_mk_true(self.ctx) } else { Z3_mk_false(self.ctx) };
            }
            let s = self.sort(w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    /// BV-typed translation of a possibly width-1 expression (Bool otherwise).
    fn bv(&mut self, e: E) -> P {
        let a = self.tr(e);
        if width(e) == 1 {
            let s = self.sort(1);
            unsafe {
                let one = Z3_mk_unsigned_int64(self.ctx, 1, s);
                let zero = Z3_mk_unsigned_int64(self.ctx, 0, s);
                Z3_mk_ite(self.ctx, a, one, zero)
            }
        } else {
            a
        }
    }
    fn unbv(&mut self, p: P, w: u32) -> P {
        if w == 1 {
            let s = self.sort(1);
            unsafe { Z3_mk_eq(self.ctx, p, Z3_mk_unsigned_int64(self.ctx, 1, s)) }
        } else {
            p
        }
    }
    fn tr(&mut self, e: E) -> P {
        let id = match e {
            E::C(v, w) => return self.num(v as u128, w as u32),
            E::S(i) => i,
        };
        if let Some(&p) = self.memo.get(&id) {
            return p;
        }
        let w = ar().width[id as usize] as u32;
        let n = ar().nodes[id as usize].clone();
        let c = self.ctx;
        let r = unsafe {
            match n {
                Node::Var(i) => self.varp(i),
                Node::Wide(v) => self.num(v, w),
                Node::F(op, a, b) => {
                    let aw = width(a);
                    let fs = |w: u32| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let (x, y) = (self.bv(a), self.bv(b));
                    let ne = Z3_mk_fpa_rne(c);
                    match op {
                        FOp::FromU => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, ne, x, fs(w))),
                        FOp::FromS => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, ne, x, fs(w))),
                        FOp::ToU | FOp::ToS => {
                            // saturate around the conversion, which is only specified in range
                            let f = Z3_mk_fpa_to_fp_bv(c, x, fs(aw));
                            let (lo, hi) = if op == FOp::ToU { (0.0, 2f64.powi(w as i32)) } else { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) };
                            let k = |z: &mut Self, v: f64| {
                                let n = if aw == 32 { z.num((v as f32).to_bits() as u128, 32) } else { z.num(v.to_bits() as u128, 64) };
                                Z3_mk_fpa_to_fp_bv(c, n, fs(aw))
                            };
                            let (l, h) = (k(self, lo), k(self, hi));
                            let (least, most) = if op == FOp::ToU { (0, mask(w)) } else { ((mask(w) >> 1) + 1, mask(w) >> 1) };
                            let (least, most, zero) = (self.num(least, w), self.num(most, w), self.num(0, w));
                            let z = Z3_mk_fpa_rtz(c);
                            let v = if op == FOp::ToU { Z3_mk_fpa_to_ubv(c, z, f, w) } else { Z3_mk_fpa_to_sbv(c, z, f, w) };
                            let v = Z3_mk_ite(c, Z3_mk_fpa_leq(c, h, f), most, v);
                            let v = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, l), least, v);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), zero, v)
                        }
                        _ => {
                            let (f, g) = (Z3_mk_fpa_to_fp_bv(c, x, fs(aw)), Z3_mk_fpa_to_fp_bv(c, y, fs(aw)));
                            match op {
                                FOp::Add => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, ne, f, g)),
                                FOp::Sub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, ne, f, g)),
                                FOp::Mul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, ne, f, g)),
                                FOp::Div => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, ne, f, g)),
                                FOp::Cvt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, ne, f, fs(w))),
                                FOp::Eq => Z3_mk_fpa_eq(c, f, g),
                                FOp::Lt => Z3_mk_fpa_lt(c, f, g),
                                FOp::Le => Z3_mk_fpa_leq(c, f, g),
                                _ => {
                                    let t = [Z3_mk_fpa_is_nan(c, f), Z3_mk_fpa_is_nan(c, g)];
                                    Z3_mk_or(c, 2, t.as_ptr())
                                }
                            }
                        }
                    }
                }
                Node::Bin(op, a, b) => {
                    if w == 1 {
                        match op {
                            Op::And => {
                                let x = [self.tr(a), self.tr(b)];
                                Z3_mk_and(c, 2, x.as_ptr())
                            }
                            Op::Or => {
                                let x = [self.tr(a), self.tr(b)];
                                Z3_mk_or(c, 2, x.as_ptr())
                            }
                            Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, self.tr(a), self.tr(b)),
                            Op::Mul => {
                                let x = [self.tr(a), self.tr(b)];
                                Z3_mk_and(c, 2, x.as_ptr())
                            }
                            _ => panic!("i1 op {:?}", op),
                        }
                    } else {
                        let (x, y) = (self.tr(a), self.tr(b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Node::Cmp(op, a, b) => {
                    if op == Cmp::Eq {
                        Z3_mk_eq(c, self.tr(a), self.tr(b))
                    } else {
                        let (x, y) = (self.bv(a), self.bv(b));
                        match op {
                            Cmp::Ult => Z3_mk_bvult(c, x, y),
                            Cmp::Ule => Z3_mk_bvule(c, x, y),
                            Cmp::Slt => Z3_mk_bvslt(c, x, y),
                            Cmp::Sle => Z3_mk_bvsle(c, x, y),
                            Cmp::Eq => unreachable!(),
                        }
                    }
                }
                Node::Not(a) => {
                    let x = self.tr(a);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                Node::Ite(k, a, b) => {
                    let (k, x, y) = (self.tr(k), self.tr(a), self.tr(b));
                    Z3_mk_ite(c, k, x, y)
                }
                Node::Ext(a, lo) => {
                    let x = self.bv(a);
                    let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x);
                    self.unbv(r, w)
                }
                Node::Cat(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    Z3_mk_concat(c, x, y)
                }
                Node::ZExt(a) => {
                    let aw = width(a);
                    let x = self.bv(a);
                    Z3_mk_zero_ext(c, w - aw, x)
                }
                Node::SExt(a) => {
                    let aw = width(a);
                    let x = self.bv(a);
                    Z3_mk_sign_ext(c, w - aw, x)
                }
            }
        };
        self.memo.insert(id, r);
        r
    }

    /// Is `pc /\ q` satisfiable?  `base` is a model of `pc` (used for variables outside the
    /// slice of constraints connected to `q`).
    pub fn check(&mut self, pc: &[Id], q: E, base: &[u8]) -> Res {
        let qid = match q {
            E::C(0, _) => return Res::Unsat,
            E::C(..) => return Res::Sat(base.to_vec()),
            E::S(i) => i,
        };
        // independence slice
        let a = ar();
        let mut cur = a.sets[a.vset[qid as usize] as usize].clone();
        let mut used = vec![false; pc.len()];
        let mut rel: Vec<u32> = vec![qid];
        loop {
            let mut ch = false;
            for (k, &c) in pc.iter().enumerate() {
                if used[k] {
                    continue;
                }
                let s = &a.sets[a.vset[c as usize] as usize];
                let hit = s.iter().zip(cur.iter()).any(|(x, y)| x & y != 0);
                if hit {
                    used[k] = true;
                    rel.push(c);
                    if s.len() > cur.len() {
                        cur.resize(s.len(), 0);
                    }
                    for (i, x) in s.iter().enumerate() {
                        if cur[i] & x != *x {
                            cur[i] |= x;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key = rel.clone();
        key[1..].sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => {
                    let mut v = base.to_vec();
                    for &(i, b) in m {
                        if v.len() <= i as usize {
                            v.resize(i as usize + 1, 0);
                        }
                        v[i as usize] = b;
                    }
                    Res::Sat(v)
                }
            };
        }
        let mut vars: Vec<u32> = vec![];
        for (i, w) in cur.iter().enumerate() {
            for b in 0..64 {
                if w >> b & 1 == 1 {
                    vars.push((i * 64 + b) as u32);
                }
            }
        }
        self.queries += 1;
        let t0 = Instant::now();
        let sv = if rel.iter().any(|&c| ar().fp[c as usize]) { self.fpsolver } else { self.solver };
        let res = unsafe {
            Z3_solver_reset(self.ctx, sv);
            for &c in &rel {
                let p = self.tr(E::S(c));
                Z3_solver_assert(self.ctx, sv, p);
            }
            Z3_solver_check(self.ctx, sv)
        };
        let out = match res {
            -1 => {
                self.unsat += 1;
                self.cache.insert(key, None);
                Res::Unsat
            }
            1 => unsafe {
                self.sat += 1;
                let m = Z3_solver_get_model(self.ctx, sv);
                Z3_model_inc_ref(self.ctx, m);
                let mut asg = vec![];
                for &i in &vars {
                    let vp = self.varp(i);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.ctx, m, vp, true, &mut o) {
                        Z3_get_numeral_uint64(self.ctx, o, &mut u);
                    }
                    asg.push((i, u as u8));
                }
                Z3_model_dec_ref(self.ctx, m);
                let mut v = base.to_vec();
                for &(i, b) in &asg {
                    if v.len() <= i as usize {
                        v.resize(i as usize + 1, 0);
                    }
                    v[i as usize] = b;
                }
                self.cache.insert(key, Some(asg));
                // self-check: the model must satisfy every constraint it was asked for
                for &c in &rel {
                    if ar().eval(E::S(c), &v) == 0 {
                        panic!("solver model does not satisfy the encoded constraint: encoding bug");
                    }
                }
                Res::Sat(v)
            },
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        if self.slow > 0.0 && dt > self.slow {
            let t = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, sv)) };
            eprintln!("; slow query, {dt:.1} s, result {res}\n{}", t.to_string_lossy());
        }
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        out
    }
}
