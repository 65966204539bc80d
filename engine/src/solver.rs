//! Path constraints and feasibility: per-byte domains, constraint slicing, query cache, Z3 (QF_BV).
use crate::expr::*;
use crate::ir::{Bin, Pred};
use std::collections::{HashMap, HashSet};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint(c: Ctx, v: Ast, u: *mut c_uint) -> bool;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error {}: {:?}", e, std::ffi::CStr::from_ptr(m));
    }
    std::process::exit(3);
}

pub type Dom = [u64; 4];
const FULL: Dom = [!0; 4];

#[derive(Clone)]
pub struct Path {
    pub dom: HashMap<u32, Dom>,
    pub multi: Vec<V>,
    pub known: Rc<HashMap<u32, u8>>,
    pub eqs: HashMap<u32, u128>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
}
impl Path {
    pub fn new() -> Path {
        Path { dom: HashMap::new(), multi: vec![], known: Rc::new(HashMap::new()), eqs: HashMap::new(), model: Rc::new(vec![]), nvars: 0 }
    }
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u8)>),
    Unknown,
}

pub struct Sol {
    c: Ctx,
    s: Solver,
    asts: HashMap<u32, Ast>,    // bit-vector translation
    basts: HashMap<u32, Ast>,   // boolean translation (width 1)
    bits: HashMap<u32, Dom>,    // truth tables of single-variable conditions
    cache: HashMap<Vec<u64>, Res>,
    ev: Evaluator,
    ev_model: Rc<Vec<u8>>,
    sub_memo: HashMap<u32, V>,
    sub_known: Rc<HashMap<u32, u8>>,
    pub queries: u64,      // feasibility questions asked
    pub solved_dom: u64,   // decided by exact per-byte domains
    pub solved_model: u64, // witnessed by a candidate model (satisfiable side only)
    pub solved_cache: u64,
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub unknown: u64,
    pub z3_time: f64,
    pub z3_max: f64,
}

fn dget(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn dcount(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dfirst(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i as u32 * 64 + d[i].trailing_zeros()) as u8);
        }
    }
    None
}
fn dand(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}

impl Sol {
    pub fn new(timeout_ms: u32) -> Sol {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(c, l);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Sol {
                c,
                s,
                asts: HashMap::new(),
                basts: HashMap::new(),
                bits: HashMap::new(),
                cache: HashMap::new(),
                ev: Evaluator::new(),
                ev_model: Rc::new(vec![]),
                sub_memo: HashMap::new(),
                sub_known: Rc::new(HashMap::new()),
                queries: 0,
                solved_dom: 0,
                solved_model: 0,
                solved_cache: 0,
                z3_calls: 0,
                z3_sat: 0,
                z3_unsat: 0,
                unknown: 0,
                z3_time: 0.0,
                z3_max: 0.0,
            }
        }
    }

    pub fn eval(&mut self, p: &Path, x: V) -> u128 {
        if let V::C(_, c) = x {
            return c;
        }
        if !Rc::ptr_eq(&self.ev_model, &p.model) {
            self.ev_model = p.model.clone();
            self.ev.memo.clear();
        }
        let m = &p.model;
        self.ev.eval(x, &|v| m.get(v as usize).copied().unwrap_or(0))
    }

    pub fn simp(&mut self, p: &Path, x: V) -> V {
        match x {
            V::C(..) => x,
            V::S(w, id) => {
                if let Some(c) = p.eqs.get(&id) {
                    return V::C(w, *c);
                }
                if p.known.is_empty() {
                    return x;
                }
                if let N::Var(v) = x.node() {
                    return match p.known.get(v) {
                        Some(k) => V::C(8, *k as u128),
                        None => x,
                    };
                }
                if !Rc::ptr_eq(&self.sub_known, &p.known) {
                    self.sub_known = p.known.clone();
                    self.sub_memo.clear();
                }
                let y = subst(x, &p.known, &mut self.sub_memo);
                if let V::S(w, id) = y {
                    if let Some(c) = p.eqs.get(&id) {
                        return V::C(w, *c);
                    }
                }
                y
            }
        }
    }

    /// Cheap simplification for values moving through memory: known input bytes become constants.
    pub fn simp_load(&mut self, p: &Path, x: V) -> V {
        match x {
            V::C(..) => x,
            V::S(w, id) => {
                if let Some(c) = p.eqs.get(&id) {
                    return V::C(w, *c);
                }
                if p.known.is_empty() {
                    return x;
                }
                match x.node() {
                    N::Var(_) | N::Concat(_) => self.simp(p, x),
                    _ => x,
                }
            }
        }
    }

    fn truth(&mut self, x: V, var: u32) -> Dom {
        let id = match x {
            V::S(_, id) => id,
            V::C(_, c) => return if c == 1 { FULL } else { [0; 4] },
        };
        if let Some(d) = self.bits.get(&id) {
            return *d;
        }
        let mut d = [0u64; 4];
        for v in 0..256u32 {
            let mut e = Evaluator::new();
            let r = e.eval(x, &|k| if k == var { v as u8 } else { 0 });
            if r == 1 {
                d[(v >> 6) as usize] |= 1 << (v & 63);
            }
        }
        self.bits.insert(id, d);
        d
    }

    /// Is path & q satisfiable? On success returns the bindings to override in the model.
    pub fn check(&mut self, p: &Path, q: V) -> Res {
        self.queries += 1;
        let q = self.simp(p, q);
        if q.is_false() {
            return Res::Unsat;
        }
        if q.is_true() {
            return Res::Sat(vec![]);
        }
        let mut cj = vec![];
        conjuncts(q, &mut cj);
        let mut dom: HashMap<u32, Dom> = HashMap::new(); // narrowed domains
        let mut qm: Vec<V> = vec![];
        for c in cj {
            let vs = c.vars();
            if vs.len() == 1 {
                let t = self.truth(c, vs[0]);
                let cur = dom.get(&vs[0]).copied().unwrap_or_else(|| p.dom.get(&vs[0]).copied().unwrap_or(FULL));
                let n = dand(&cur, &t);
                if dfirst(&n).is_none() {
                    self.solved_dom += 1;
                    return Res::Unsat;
                }
                dom.insert(vs[0], n);
            } else {
                qm.push(c);
            }
        }
        // slice
        let mut vars: HashSet<u32> = dom.keys().copied().collect();
        for c in &qm {
            vars.extend(c.vars().iter());
        }
        let mut used = vec![false; p.multi.len()];
        let mut slice: Vec<V> = qm.clone();
        loop {
            let mut ch = false;
            for (i, c) in p.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = c.vars();
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    slice.push(*c);
                    vars.extend(vs.iter());
                }
            }
            if !ch {
                break;
            }
        }
        let pick = |d: &Dom, cur: u8| -> u8 {
            if dget(d, cur) {
                cur
            } else {
                dfirst(d).unwrap()
            }
        };
        let mut vl: Vec<u32> = vars.iter().copied().collect();
        vl.sort_unstable();
        // candidate: keep the current model where allowed
        let cand: Vec<(u32, u8)> = vl
            .iter()
            .map(|v| {
                let d = dom.get(v).copied().unwrap_or_else(|| p.dom.get(v).copied().unwrap_or(FULL));
                (*v, pick(&d, p.model.get(*v as usize).copied().unwrap_or(0)))
            })
            .collect();
        if slice.is_empty() {
            self.solved_dom += 1;
            return Res::Sat(cand);
        }
        let full_dom = |v: &u32| dom.get(v).copied().unwrap_or_else(|| p.dom.get(v).copied().unwrap_or(FULL));
        let cm: HashMap<u32, u8> = cand.iter().copied().collect();
        let mut e = Evaluator::new();
        let ok = slice.iter().all(|c| e.eval(*c, &|v| cm.get(&v).copied().unwrap_or(0)) == 1);
        if ok {
            self.solved_model += 1;
            return Res::Sat(cand);
        }
        if vl.iter().all(|v| dcount(&full_dom(v)) == 1) {
            self.solved_dom += 1;
            return Res::Unsat;
        }
        // cache
        let mut ids: Vec<u64> = slice
            .iter()
            .map(|c| match c {
                V::S(_, i) => *i as u64,
                _ => 0,
            })
            .collect();
        ids.sort_unstable();
        ids.dedup();
        for v in &vl {
            let d = full_dom(v);
            if d != FULL {
                ids.push(u64::MAX - *v as u64);
                ids.extend_from_slice(&d);
            }
        }
        if let Some(r) = self.cache.get(&ids) {
            self.solved_cache += 1;
            return r.clone();
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.c, self.s);
            for c in &slice {
                let a = self.tb(*c);
                Z3_solver_assert(self.c, self.s, a);
            }
            for v in &vl {
                let d = full_dom(v);
                if d != FULL {
                    let a = self.dom_ast(*v, &d);
                    Z3_solver_assert(self.c, self.s, a);
                }
            }
            match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for v in &vl {
                        let a = self.tv(var(*v));
                        let mut o: Ast = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_get_numeral_uint(self.c, o, &mut u);
                        }
                        out.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.z3_sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.z3_unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            }
        };
        self.z3_calls += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.z3_time += dt;
        if dt > 0.05 && std::env::var("SX_SLOW").is_ok() {
            eprintln!("slow query {:.2} s, {} variables: {}", dt, vl.len(), slice.iter().map(|c| show(*c, 7)).collect::<Vec<_>>().join("\n   "));
        }
        if dt > self.z3_max {
            self.z3_max = dt;
        }
        if let Res::Sat(b) = &r {
            // the model must satisfy our own evaluator too: cross-check of the translation
            let cm: HashMap<u32, u8> = b.iter().copied().collect();
            let mut e = Evaluator::new();
            for c in &slice {
                if e.eval(*c, &|v| cm.get(&v).copied().unwrap_or(0)) != 1 {
                    eprintln!("engine error: solver model does not satisfy {}", show(*c, 6));
                    std::process::exit(3);
                }
            }
        }
        self.cache.insert(ids, r.clone());
        r
    }

    /// Add a constraint known to be satisfiable with the given bindings.
    pub fn assume(&mut self, p: &mut Path, q: V, b: &[(u32, u8)]) {
        if b.iter().any(|(v, x)| p.model.get(*v as usize).copied() != Some(*x)) {
            let m = Rc::make_mut(&mut p.model);
            for (v, x) in b {
                if m.len() <= *v as usize {
                    m.resize(*v as usize + 1, 0);
                }
                m[*v as usize] = *x;
            }
        }
        let q = self.simp(p, q);
        let mut cj = vec![];
        conjuncts(q, &mut cj);
        let mut new_known: Vec<(u32, u8)> = vec![];
        for c in cj {
            if c.is_true() {
                continue;
            }
            let vs = c.vars();
            if vs.len() == 1 {
                let t = self.truth(c, vs[0]);
                let cur = p.dom.get(&vs[0]).copied().unwrap_or(FULL);
                let n = dand(&cur, &t);
                if dcount(&n) == 1 && dcount(&cur) != 1 {
                    new_known.push((vs[0], dfirst(&n).unwrap()));
                }
                p.dom.insert(vs[0], n);
            } else {
                if let V::S(..) = c {
                    if let N::Cmp(Pred::Eq, a, V::C(_, k)) = c.node() {
                        if let V::S(_, id) = a {
                            p.eqs.insert(*id, *k);
                        }
                    }
                }
                p.multi.push(c);
            }
        }
        if !new_known.is_empty() {
            let k = Rc::make_mut(&mut p.known);
            for (v, x) in &new_known {
                k.insert(*v, *x);
            }
            // simplify the remaining multi-variable constraints
            let olds = std::mem::take(&mut p.multi);
            let mut again = vec![];
            for c in olds {
                let vs = c.vars();
                if new_known.iter().any(|(v, _)| vs.binary_search(v).is_ok()) {
                    again.push(c);
                } else {
                    p.multi.push(c);
                }
            }
            for c in again {
                self.assume(p, c, &[]);
            }
        }
        debug_assert!(true);
    }

    fn dom_ast(&mut self, v: u32, d: &Dom) -> Ast {
        unsafe {
            let a = self.tv(var(v));
            let mut parts: Vec<Ast> = vec![];
            let mut i = 0u32;
            while i < 256 {
                if !dget(d, i as u8) {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j + 1 < 256 && dget(d, (j + 1) as u8) {
                    j += 1;
                }
                let lo = self.num(8, i as u128);
                if i == j {
                    let e = Z3_mk_eq(self.c, a, lo);
                    Z3_inc_ref(self.c, e);
                    parts.push(e);
                } else {
                    let hi = self.num(8, j as u128);
                    let l = Z3_mk_bvule(self.c, lo, a);
                    Z3_inc_ref(self.c, l);
                    let h = Z3_mk_bvule(self.c, a, hi);
                    Z3_inc_ref(self.c, h);
                    let e = Z3_mk_and(self.c, 2, [l, h].as_ptr());
                    Z3_inc_ref(self.c, e);
                    parts.push(e);
                }
                i = j + 1;
            }
            let r = Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr());
            Z3_inc_ref(self.c, r);
            r
        }
    }

    unsafe fn num(&mut self, w: u32, x: u128) -> Ast {
        let s = std::ffi::CString::new(format!("{}", x)).unwrap();
        let so = Z3_mk_bv_sort(self.c, w);
        let r = Z3_mk_numeral(self.c, s.as_ptr(), so);
        Z3_inc_ref(self.c, r);
        r
    }

    unsafe fn tb(&mut self, x: V) -> Ast {
        match x {
            V::C(_, 1) => Z3_mk_true(self.c),
            V::C(_, _) => Z3_mk_false(self.c),
            V::S(w, id) => {
                debug_assert_eq!(w, 1);
                if let Some(a) = self.basts.get(&id) {
                    return *a;
                }
                let c = self.c;
                let r = match x.node() {
                    N::Bin(Bin::And, a, b) => {
                        let l = [self.tb(*a), self.tb(*b)];
                        Z3_mk_and(c, 2, l.as_ptr())
                    }
                    N::Bin(Bin::Or, a, b) => {
                        let l = [self.tb(*a), self.tb(*b)];
                        Z3_mk_or(c, 2, l.as_ptr())
                    }
                    N::Bin(Bin::Xor, a, V::C(_, 1)) => {
                        let a = self.tb(*a);
                        Z3_mk_not(c, a)
                    }
                    N::Bin(Bin::Xor, a, b) => {
                        let (a, b) = (self.tb(*a), self.tb(*b));
                        Z3_mk_xor(c, a, b)
                    }
                    N::Cmp(p, a, b) => {
                        let (a, b) = (self.tv(*a), self.tv(*b));
                        match p {
                            Pred::Eq => Z3_mk_eq(c, a, b),
                            Pred::Ult => Z3_mk_bvult(c, a, b),
                            _ => Z3_mk_bvslt(c, a, b),
                        }
                    }
                    N::Ite(k, a, b) => {
                        let (k, a, b) = (self.tb(*k), self.tb(*a), self.tb(*b));
                        Z3_mk_ite(c, k, a, b)
                    }
                    _ => {
                        let v = self.tv_raw(x);
                        Z3_inc_ref(c, v);
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, v, one)
                    }
                };
                Z3_inc_ref(c, r);
                self.basts.insert(id, r);
                r
            }
        }
    }

    unsafe fn tv(&mut self, x: V) -> Ast {
        match x {
            V::C(w, v) => self.num(w, v),
            V::S(w, id) => {
                if let Some(a) = self.asts.get(&id) {
                    return *a;
                }
                let r = if w == 1 && matches!(x.node(), N::Bin(Bin::And | Bin::Or | Bin::Xor, ..) | N::Cmp(..) | N::Ite(..)) {
                    let b = self.tb(x);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(self.c, b, o, z)
                } else {
                    self.tv_raw(x)
                };
                Z3_inc_ref(self.c, r);
                self.asts.insert(id, r);
                r
            }
        }
    }

    unsafe fn tv_raw(&mut self, x: V) -> Ast {
        let c = self.c;
        let w = x.w();
        match x.node() {
            N::Var(v) => {
                let s = std::ffi::CString::new(format!("v{}", v)).unwrap();
                let sy = Z3_mk_string_symbol(c, s.as_ptr());
                Z3_mk_const(c, sy, Z3_mk_bv_sort(c, 8))
            }
            N::Bin(op, a, b) => {
                let (a, b) = (self.tv(*a), self.tv(*b));
                match op {
                    Bin::Add => Z3_mk_bvadd(c, a, b),
                    Bin::Sub => Z3_mk_bvsub(c, a, b),
                    Bin::Mul => Z3_mk_bvmul(c, a, b),
                    Bin::UDiv => Z3_mk_bvudiv(c, a, b),
                    Bin::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Bin::URem => Z3_mk_bvurem(c, a, b),
                    Bin::SRem => Z3_mk_bvsrem(c, a, b),
                    Bin::And => Z3_mk_bvand(c, a, b),
                    Bin::Or => Z3_mk_bvor(c, a, b),
                    Bin::Xor => Z3_mk_bvxor(c, a, b),
                    Bin::Shl => Z3_mk_bvshl(c, a, b),
                    Bin::LShr => Z3_mk_bvlshr(c, a, b),
                    Bin::AShr => Z3_mk_bvashr(c, a, b),
                }
            }
            N::Ite(k, a, b) => {
                let (k, a, b) = (self.tb(*k), self.tv(*a), self.tv(*b));
                Z3_mk_ite(c, k, a, b)
            }
            N::Extract(a, lo) => {
                let a = self.tv(*a);
                Z3_mk_extract(c, lo + w - 1, *lo, a)
            }
            N::Concat(ps) => {
                let mut r = self.tv(ps[0]);
                let l = ps.len();
                for (i, p) in ps[1..].iter().enumerate() {
                    if i + 2 == l && p.opt() == Some(0) {
                        r = Z3_mk_zero_ext(c, p.w(), r);
                    } else {
                        let a = self.tv(*p);
                        r = Z3_mk_concat(c, a, r);
                    }
                    Z3_inc_ref(c, r);
                }
                r
            }
            N::SExt(a) => {
                let k = w - a.w();
                let a = self.tv(*a);
                Z3_mk_sign_ext(c, k, a)
            }
            N::Table(t, v) => {
                // decision tree over the index
                let a = self.tv(*v);
                self.tree(t, 0, 256, a, w)
            }
            N::Cmp(..) => unreachable!(),
        }
    }

    unsafe fn tree(&mut self, t: &[u128], lo: usize, hi: usize, a: Ast, w: u32) -> Ast {
        if t[lo..hi].iter().all(|x| *x == t[lo]) {
            return self.num(w, t[lo]);
        }
        let mid = (lo + hi) / 2;
        let l = self.tree(t, lo, mid, a, w);
        let r = self.tree(t, mid, hi, a, w);
        let m = self.num(8, mid as u128);
        let k = Z3_mk_bvult(self.c, a, m);
        Z3_inc_ref(self.c, k);
        let x = Z3_mk_ite(self.c, k, l, r);
        Z3_inc_ref(self.c, x);
        x
    }
}
