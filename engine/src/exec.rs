//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct VFile {
    pub path: String,
    pub o: Rc<Obj>,
    pub exists: bool,
    /// zeros which are not stored: (position, length)
    pub gap: (u64, u64),
    /// something was written there
    pub dirty: bool,
}
impl VFile {
    pub fn size(&self) -> u64 {
        self.o.size() + self.gap.1
    }
    /// where a position beyond the gap, or in front of it, is stored
    pub fn stored(&self, p: u64) -> Option<u64> {
        if self.gap.1 == 0 || p <= self.gap.0 {
            Some(p)
        } else if p >= self.gap.0 + self.gap.1 {
            Some(p - self.gap.1)
        } else {
            None
        }
    }
}
#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: V,
    pub open: bool,
    pub append: bool,
    pub rd: bool,
    pub wr: bool,
    /// the descriptor this one duplicates
    pub same: Option<usize>,
}

#[derive(Clone, Default)]
pub struct Fault {
    pub mode: u64, // 0 off, 1 fail with EIO, 2 transfer at most one byte, 3: transfer zero bytes
    pub at: Option<V>, // operation number, counted from 1 (may be symbolic)
    pub kinds: u64, // bit mask: 1 read, 2 write, 4 seek, 8 truncate
    pub count: u64,
    pub sticky: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub path: Path,
    pub files: Vec<VFile>,
    pub fds: Vec<Fd>,
    pub fault: Fault,
    pub trace: Vec<V>,
    pub steps: u64,
    pub forks: u64,
    pub alloc_limit: u64,
    pub errno: u64,
    pub reached: Vec<u64>,
}

pub enum End {
    Done,
    Assumed,
    Panic(String),
    Viol(String, String),
    Hang,
    Error(String),
    Unknown(String),
}

pub struct Violation {
    pub kind: String,
    pub what: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub input: Vec<u8>,
    pub trace: Vec<u64>,
    pub path: u64,
    pub steps: u64,
}

#[derive(Clone, Copy, PartialEq)]
pub enum FK {
    Unset,
    Normal,
    Nop,
    Panic,
    FmtStub,
    Model,
}

pub struct Engine {
    pub m: Module,
    pub sol: Sol,
    pub work: Vec<State>,
    pub kinds: Vec<FK>,
    pub part: u64,
    pub tier: u64,
    pub max_steps: u64,
    pub stub_fmt: bool,
    /// fork on 64 bit minima, maxima and selections instead of building conditional terms
    pub split: bool,
    pub trace_calls: bool,
    pub trace_ins: bool,
    // statistics
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub steps: u64,
    pub branches: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub concretizations: u64,
    pub reach: BTreeMap<u64, u64>,
    pub expect: BTreeSet<u64>,
    pub violations: Vec<Violation>,
    pub viol_keys: BTreeSet<String>,
    pub viol_total: u64,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub sample_cap: usize,
    pub called: BTreeMap<u32, u64>,
    pub externs: BTreeMap<String, u64>,
    pub cover: Vec<bool>,
    pub hot: HashMap<(u32, u32), u64>,
    pub max_vars: u32,
    pub deadline: Instant,
    pub max_viol: usize,
    pub fmt_stubbed: u64,
    pub string_layout: [u64; 3],
}

pub type R<T> = Result<T, End>;

fn vmap(a: &Val, f: &mut dyn FnMut(V) -> V) -> Val {
    match a {
        Val::V(v) => Val::V(f(*v)),
        Val::A(l) => Val::A(Rc::new(l.iter().map(|x| vmap(x, f)).collect())),
    }
}
fn vmap2(a: &Val, b: &Val, f: &mut dyn FnMut(V, V) -> V) -> Val {
    match (a, b) {
        (Val::V(x), Val::V(y)) => Val::V(f(*x, *y)),
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| vmap2(p, q, f)).collect())),
        _ => panic!("vmap2"),
    }
}
fn flatten(a: &Val, out: &mut Vec<V>) {
    match a {
        Val::V(v) => out.push(*v),
        Val::A(l) => {
            for x in l.iter() {
                flatten(x, out)
            }
        }
    }
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        let n = m.funcs.len();
        Engine {
            m,
            sol: Sol::new(timeout_ms),
            work: vec![],
            kinds: vec![FK::Unset; n],
            part: 0,
            tier: 0,
            max_steps: 20_000_000,
            stub_fmt: false,
            split: false,
            trace_calls: false,
            trace_ins: false,
            paths: 0,
            assumed: 0,
            forks: 0,
            steps: 0,
            branches: 0,
            asserts: 0,
            assert_queries: 0,
            concretizations: 0,
            reach: BTreeMap::new(),
            expect: BTreeSet::new(),
            violations: vec![],
            viol_keys: BTreeSet::new(),
            viol_total: 0,
            errors: vec![],
            samples: vec![],
            sample_cap: 12,
            called: BTreeMap::new(),
            externs: BTreeMap::new(),
            cover: vec![],
            hot: HashMap::new(),
            max_vars: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            max_viol: 4,
            fmt_stubbed: 0,
            string_layout: [0, 1, 0],
        }
    }

    pub fn init_state(&mut self, entry: &str) -> State {
        let mut g = BTreeMap::new();
        for x in &self.m.globals {
            let o = Obj { base: x.addr, data: x.data.clone(), sym: BTreeMap::new(), kind: if x.constant { Kind::Const } else { Kind::Global } };
            g.insert(x.addr, Rc::new(o));
        }
        let mut mem = Mem { objs: BTreeMap::new(), globals: Rc::new(g), heap_next: HEAP, stack_next: STACK, live_heap: 0 };
        let errno = mem.alloc(8, 8, Kind::Stack);
        let mut st = State {
            frames: vec![],
            mem,
            path: Path::new(),
            files: vec![],
            fds: vec![],
            fault: Fault::default(),
            trace: vec![],
            steps: 0,
            forks: 0,
            alloc_limit: 0,
            errno,
            reached: vec![],
        };
        let f = *self.m.fmap.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {}", entry);
            std::process::exit(3)
        });
        self.push_frame(&mut st, f, vec![]);
        st
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>) {
        *self.called.entry(f).or_insert(0) += 1;
        let f = self.m.func(f);
        let mut regs = vec![Val::V(V::C(1, 0)); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams {
                regs[i] = a;
            }
        }
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, prev: u32::MAX, allocas: vec![] }));
    }

    pub fn run(&mut self, st: State) {
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline {
                self.errors.push(format!("time limit: {} states left unexplored", self.work.len() + 1));
                return;
            }
            let end = self.run_path(&mut st);
            self.steps += st.steps;
            self.max_vars = self.max_vars.max(st.path.nvars);
            match end {
                End::Done => {
                    self.paths += 1;
                    for r in &st.reached {
                        *self.reach.entry(*r).or_insert(0) += 1;
                    }
                    self.sample(&st);
                }
                End::Assumed => self.assumed += 1,
                End::Panic(m) => {
                    self.paths += 1;
                    self.violation(&st, "panic", &m);
                }
                End::Viol(k, w) => {
                    self.paths += 1;
                    self.violation(&st, &k, &w);
                }
                End::Hang => {
                    self.paths += 1;
                    self.violation(&st, "hang", "instruction limit on one path");
                }
                End::Error(e) => {
                    let s = self.stack(&st).join(" < ");
                    let inp = hex(&self.input(&st));
                    self.errors.push(format!("{} [{}] input={}", e, s, inp));
                    if self.errors.len() > 3 {
                        return;
                    }
                }
                End::Unknown(e) => {
                    self.errors.push(format!("solver gave no answer: {}", e));
                    if self.errors.len() > 3 {
                        return;
                    }
                }
            }
            if self.violations.len() >= self.max_viol {
                self.errors.clear();
                return;
            }
        }
    }

    fn input(&self, st: &State) -> Vec<u8> {
        (0..st.path.nvars).map(|i| st.path.model.get(i as usize).copied().unwrap_or(0)).collect()
    }

    fn sample(&mut self, st: &State) {
        let n = self.paths;
        let keep = n <= 3 || n.is_power_of_two() || (n % 997 == 0);
        if !keep {
            return;
        }
        let input = self.input(st);
        let trace = st.trace.iter().map(|v| self.sol.eval(&st.path, *v) as u64).collect();
        let s = Sample { input, trace, path: n, steps: st.steps };
        if self.samples.len() >= self.sample_cap {
            let k = (n as usize).wrapping_mul(0x9E37_79B9) % self.sample_cap;
            self.samples[k] = s;
        } else {
            self.samples.push(s);
        }
    }

    pub fn violation(&mut self, st: &State, kind: &str, what: &str) {
        self.viol_total += 1;
        let key = format!("{} {}", kind, what);
        if self.viol_keys.insert(key) {
            let v = Violation { kind: kind.into(), what: what.into(), input: self.input(st), stack: self.stack(st) };
            self.violations.push(v);
        }
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }

    fn run_path(&mut self, st: &mut State) -> End {
        loop {
            st.steps += 1;
            if st.steps > self.max_steps {
                return End::Hang;
            }
            if st.steps & 0xffff == 0 && Instant::now() > self.deadline {
                return End::Error("time limit inside a path".into());
            }
            match self.step(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    #[inline]
    pub fn val(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    #[inline]
    pub fn scal(fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].v(),
            Opd::C(v) => v.v(),
        }
    }

    pub fn sat(&mut self, p: &Path, q: V, why: &str) -> R<Option<Vec<(u32, u8)>>> {
        match self.sol.check(p, q) {
            Res::Sat(b) => Ok(Some(b)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(End::Unknown(why.into())),
        }
    }

    /// Decide a condition at the current instruction, forking when both outcomes are possible.
    /// The sibling re-executes the instruction.
    pub fn decide(&mut self, st: &mut State, c: V) -> R<bool> {
        let c = self.sol.simp(&st.path, c);
        if let V::C(_, x) = c {
            return Ok(x == 1);
        }
        self.branches += 1;
        let b = self.sol.eval(&st.path, c) == 1;
        let other = if b { not(c) } else { c };
        if let Some(bind) = self.sat(&st.path, other, "branch")? {
            let mut o = st.clone();
            self.sol.assume(&mut o.path, other, &bind);
            o.forks += 1;
            self.forks += 1;
            self.work.push(o);
            self.sol.assume(&mut st.path, if b { c } else { not(c) }, &[]);
            st.forks += 1;
        }
        Ok(b)
    }

    /// Pick a concrete value for e, with a sibling for all the other values.
    pub fn conc(&mut self, st: &mut State, e: V) -> R<u128> {
        let e = self.sol.simp(&st.path, e);
        if let V::C(_, x) = e {
            return Ok(x);
        }
        self.concretizations += 1;
        if self.trace_calls {
            eprintln!("concretize {} in {}", show(e, 5), self.stack(st).join(" < "));
        }
        {
            let f = st.frames.last().unwrap();
            *self.hot.entry((f.f.idx, f.blk)).or_insert(0) += 1;
        }
        let v = self.sol.eval(&st.path, e);
        let q = eq(e, V::C(e.w(), v));
        let nq = not(q);
        if let Some(bind) = self.sat(&st.path, nq, "concretize")? {
            let mut o = st.clone();
            self.sol.assume(&mut o.path, nq, &bind);
            o.forks += 1;
            self.forks += 1;
            self.work.push(o);
            st.forks += 1;
        }
        self.sol.assume(&mut st.path, q, &[]);
        if let V::S(_, id) = e {
            st.path.eqs.insert(id, v);
        }
        Ok(v)
    }

    pub fn err<T>(&self, m: &str) -> R<T> {
        Err(End::Error(m.to_string()))
    }

    pub fn load_n(&mut self, st: &mut State, a: u64, n: usize) -> R<V> {
        match st.mem.find(a, n as u64) {
            Some(o) => Ok(o.read((a - o.base) as usize, n)),
            None => self.err(&format!("load of {} bytes at unmapped {:#x}", n, a)),
        }
    }
    pub fn store_n(&mut self, st: &mut State, a: u64, n: usize, v: V) -> R<()> {
        match st.mem.find_mut(a, n as u64) {
            Some(o) => {
                let off = (a - o.base) as usize;
                o.write(off, n, v);
                Ok(())
            }
            None => self.err(&format!("store of {} bytes at unmapped {:#x}", n, a)),
        }
    }

    fn load_ty(&mut self, st: &mut State, a: u64, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Int(w) => {
                let n = t.store_size() as usize;
                let v = self.load_n(st, a, n)?;
                let v = self.sol.simp_load(&st.path, v);
                Val::V(if v.w() > *w { extract(v, 0, *w) } else { v })
            }
            Ty::Ptr | Ty::Float(_) => {
                let v = self.load_n(st, a, t.store_size() as usize)?;
                Val::V(self.sol.simp_load(&st.path, v))
            }
            Ty::Vec(n, e) => {
                let bits = n * e.bits();
                if e.bits() % 8 != 0 {
                    let v = self.load_n(st, a, ((bits + 7) / 8) as usize)?;
                    let l = (0..*n).map(|k| Val::V(extract(v, k * e.bits(), e.bits()))).collect();
                    Val::A(Rc::new(l))
                } else {
                    let es = e.bits() as u64 / 8;
                    let mut l = vec![];
                    for k in 0..*n as u64 {
                        l.push(self.load_ty(st, a + k * es, e)?);
                    }
                    Val::A(Rc::new(l))
                }
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut l = vec![];
                for k in 0..t.nfields() {
                    l.push(self.load_ty(st, a + t.field_off(k), &t.field_ty(k))?);
                }
                Val::A(Rc::new(l))
            }
            _ => return self.err("load type"),
        })
    }

    fn store_ty(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), Val::V(x)) => {
                let n = t.store_size() as usize;
                let x = if (x.w() as usize) < 8 * n { zext(*x, 8 * n as u32) } else { *x };
                let x = self.sol.simp_load(&st.path, x);
                self.store_n(st, a, n, x)
            }
            (Ty::Vec(n, e), Val::A(l)) => {
                if e.bits() % 8 != 0 {
                    let p: Vec<V> = l.iter().map(|x| x.v()).collect();
                    let mut c = concat(&p);
                    let bytes = ((n * e.bits() + 7) / 8) as usize;
                    if c.w() < 8 * bytes as u32 {
                        c = zext(c, 8 * bytes as u32);
                    }
                    self.store_n(st, a, bytes, c)
                } else {
                    let es = e.bits() as u64 / 8;
                    for (k, x) in l.iter().enumerate() {
                        self.store_ty(st, a + k as u64 * es, e, x)?;
                    }
                    Ok(())
                }
            }
            (Ty::Arr(..) | Ty::Struct(..), Val::A(l)) => {
                for (k, x) in l.iter().enumerate() {
                    self.store_ty(st, a + t.field_off(k), &t.field_ty(k), x)?;
                }
                Ok(())
            }
            _ => self.err("store type"),
        }
    }

    /// A pointer operand as a concrete address.
    pub fn addr(&mut self, st: &mut State, p: V) -> R<u64> {
        Ok(self.conc(st, p)? as u64)
    }

    /// Load through a pointer that depends on one input byte: build a lookup table.
    fn table_load(&mut self, st: &mut State, p: V, t: &Ty) -> R<Option<V>> {
        let vs = p.vars();
        let n = t.store_size() as usize;
        if vs.len() != 1 || n == 0 || n > 8 {
            return Ok(None);
        }
        let v = vs[0];
        let d = st.path.dom.get(&v).copied().unwrap_or([!0; 4]);
        let mut tab = vec![0u128; 256];
        let mut last = None;
        let mut missing = vec![];
        for k in 0..256usize {
            if d[k >> 6] >> (k & 63) & 1 == 0 {
                missing.push(k);
                continue;
            }
            let mut e = Evaluator::new();
            let a = e.eval(p, &|_| k as u8) as u64;
            match st.mem.find(a, n as u64) {
                Some(o) if !o.has_sym((a - o.base) as usize, n) => {
                    let x = o.read((a - o.base) as usize, n).cval();
                    tab[k] = x;
                    last = Some(x);
                }
                _ => return Ok(None),
            }
        }
        if let Some(x) = last {
            for k in missing {
                tab[k] = x;
            }
            let w = t.bits();
            let r = table(tab, var(v), 8 * n as u32);
            return Ok(Some(if r.w() > w { extract(r, 0, w) } else { r }));
        }
        Ok(None)
    }

    pub fn jump(&mut self, st: &mut State, b: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let prev = fr.blk;
        let nb = &f.blocks[b as usize];
        if !nb.phis.is_empty() {
            let mut vals = Vec::with_capacity(nb.phis.len());
            for (d, l) in &nb.phis {
                let o = l.iter().find(|(p, _)| *p == prev).expect("phi edge");
                vals.push((*d, Self::val(fr, &o.1)));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.prev = prev;
        fr.blk = b;
        fr.ip = 0;
    }

    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    /// Finish a call instruction of the current frame with a result.
    pub fn finish_call(&mut self, st: &mut State, ret: Option<Val>) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let (i, _) = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        if let I::Call { dst, normal, rty, .. } = i {
            if let Some(d) = dst {
                fr.regs[*d as usize] = ret.unwrap_or_else(|| Val::V(V::C(if *rty == Ty::Void { 1 } else { 64 }, 0)));
            }
            match normal {
                Some(b) => {
                    let b = *b;
                    self.jump(st, b)
                }
                None => fr.ip += 1,
            }
            Ok(())
        } else {
            self.err("finish_call")
        }
    }

    fn kind(&mut self, f: u32) -> FK {
        let k = self.kinds[f as usize];
        if k != FK::Unset {
            return k;
        }
        let d = &self.m.funcs[f as usize];
        let n = d.name.as_str();
        let k = if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") {
            FK::Nop
        } else if n.contains("4core9panicking") || n.contains("alloc12handle_error") || n.contains("17handle_alloc_error") || n.contains("3std9panicking") || n.contains("capacity_overflow") || n.contains("7raw_vec12handle_error") {
            FK::Panic
        } else if d.body.is_none() {
            FK::Model
        } else if self.stub_fmt && (n.contains("5alloc3fmt6format12format_inner")) {
            FK::FmtStub
        } else {
            FK::Normal
        };
        self.kinds[f as usize] = k;
        k
    }

    fn panic_msg(&mut self, st: &mut State, f: u32, args: &[Val]) -> String {
        let name = demangle(&self.m.funcs[f as usize].name);
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        let mut loc = String::from("?");
        if let Some(Val::V(V::C(64, a))) = args.last() {
            let a = *a as u64;
            let p = st.mem.find(a, 24).map(|o| {
                let b = (a - o.base) as usize;
                (o.read(b, 8).opt(), o.read(b + 8, 8).opt(), o.read(b + 16, 4).opt(), o.read(b + 20, 4).opt())
            });
            if let Some((Some(p), Some(l), Some(line), Some(col))) = p {
                if l < 4096 {
                    if let Some(o) = st.mem.find(p as u64, l as u64) {
                        let b = (p as u64 - o.base) as usize;
                        let s = String::from_utf8_lossy(&o.data[b..b + l as usize]).into_owned();
                        loc = format!("{}:{}:{}", s, line, col);
                    }
                }
            }
        }
        if loc == "?" {
            // no caller location: name the innermost function of the crate under test
            for fr in st.frames.iter().rev() {
                let d = demangle(&fr.f.name);
                if d.contains("mp4ameta") {
                    loc = d;
                    break;
                }
            }
        }
        format!("{} at {}", short, loc)
    }

    fn call(&mut self, st: &mut State, f: u32, args: Vec<Val>, rty: &Ty) -> R<()> {
        match self.kind(f) {
            FK::Nop => self.finish_call(st, None),
            FK::Normal => {
                if st.frames.len() > 400 {
                    return Err(End::Viol("stack".into(), "call depth over 400".into()));
                }
                if self.trace_calls {
                    eprintln!("{}{}", " ".repeat(st.frames.len()), demangle(&self.m.funcs[f as usize].name));
                }
                self.push_frame(st, f, args);
                Ok(())
            }
            FK::Panic => {
                let m = self.panic_msg(st, f, &args);
                Err(End::Panic(m))
            }
            FK::FmtStub => {
                // returns an empty String through the sret pointer: {cap: 0, ptr: 1, len: 0}
                self.fmt_stubbed += 1;
                let p = self.addr(st, args[0].v())?;
                let o = self.empty_string_layout(st, p)?;
                let _ = o;
                self.finish_call(st, None)
            }
            FK::Model => {
                let name = self.m.funcs[f as usize].name.clone();
                if !name.starts_with("llvm.") {
                    *self.externs.entry(name.clone()).or_insert(0) += 1;
                }
                self.model(st, &name, args, rty)
            }
            FK::Unset => unreachable!(),
        }
    }

    fn empty_string_layout(&mut self, st: &mut State, p: u64) -> R<()> {
        // RawVec { ptr, cap, .. } / len: the field order is the compiler's choice. String::new() has
        // cap = 0, ptr = 1 and len = 0; the layout is probed from the harness (see sx_string_layout).
        let lay = self.string_layout;
        for k in 0..3 {
            self.store_n(st, p + 8 * k, 8, V::C(64, lay[k as usize] as u128))?;
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk, fr.ip)
        };
        let (ins, dbg) = &f.blocks[blk as usize].ins[ip as usize];
        let dbg = *dbg as usize;
        if dbg != 0 {
            if dbg >= self.cover.len() {
                self.cover.resize(dbg + 1, false);
            }
            self.cover[dbg] = true;
        }
        macro_rules! fr {
            () => {
                st.frames.last().unwrap()
            };
        }
        if self.trace_ins {
            eprintln!("[{}:{}] {:?}", blk, ip, ins);
        }
        match ins {
            I::Bin { dst, op, a, b } => {
                let (x, y) = (Self::val(fr!(), a), Self::val(fr!(), b));
                let v = match (&x, &y) {
                    (Val::V(p), Val::V(q)) => {
                        if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) && !q.is_c() && !p.is_c() {
                            let k = self.conc(st, *q)?;
                            Val::V(bin(*op, *p, V::C(q.w(), k)))
                        } else {
                            Val::V(bin(*op, *p, *q))
                        }
                    }
                    _ => vmap2(&x, &y, &mut |p, q| bin(*op, p, q)),
                };
                self.set(st, *dst, v);
            }
            I::ICmp { dst, p, a, b } => {
                let (x, y) = (Self::val(fr!(), a), Self::val(fr!(), b));
                let v = vmap2(&x, &y, &mut |q, r| cmp(*p, q, r));
                self.set(st, *dst, v);
            }
            I::Load { dst, ty, p } => {
                let a = Self::scal(fr!(), p);
                let a = self.sol.simp(&st.path, a);
                if !a.is_c() && matches!(ty, Ty::Int(_)) {
                    if let Some(v) = self.table_load(st, a, ty)? {
                        self.set(st, *dst, Val::V(v));
                        return Ok(());
                    }
                }
                let a = self.addr(st, a)?;
                let v = self.load_ty(st, a, ty)?;
                self.set(st, *dst, v);
            }
            I::Store { ty, v, p } => {
                let a = Self::scal(fr!(), p);
                let x = Self::val(fr!(), v);
                let a = self.addr(st, a)?;
                self.store_ty(st, a, ty, &x)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Gep { dst, base, off, idx } => {
                let mut a = Self::scal(fr!(), base);
                if *off != 0 {
                    a = bin(Bin::Add, a, V::C(64, *off as u128));
                }
                for (o, s) in idx {
                    let i = Self::scal(fr!(), o);
                    let i = if i.w() < 64 { sext(i, 64) } else { extract(i, 0, 64) };
                    a = bin(Bin::Add, a, bin(Bin::Mul, i, V::C(64, *s as u128)));
                }
                self.set(st, *dst, Val::V(a));
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr { c, t, f } => {
                let c = Self::scal(fr!(), c);
                let c = self.sol.simp(&st.path, c);
                if let V::C(_, x) = c {
                    self.jump(st, if x == 1 { *t } else { *f });
                    return Ok(());
                }
                self.branches += 1;
                let b = self.sol.eval(&st.path, c) == 1;
                let other = if b { not(c) } else { c };
                let (nt, no) = if b { (*t, *f) } else { (*f, *t) };
                if let Some(bind) = self.sat(&st.path, other, "branch")? {
                    let mut o = st.clone();
                    self.sol.assume(&mut o.path, other, &bind);
                    o.forks += 1;
                    self.forks += 1;
                    self.jump(&mut o, no);
                    self.work.push(o);
                    self.sol.assume(&mut st.path, if b { c } else { not(c) }, &[]);
                    st.forks += 1;
                    let k = (f_idx(st), blk);
                    *self.hot.entry(k).or_insert(0) += 1;
                }
                self.jump(st, nt);
            }
            I::Switch { w, v, def, cases } => {
                let x = Self::scal(fr!(), v);
                let x = self.sol.simp(&st.path, x);
                if let V::C(_, x) = x {
                    let t = cases.iter().find(|(c, _)| *c == x).map(|(_, b)| *b).unwrap_or(*def);
                    self.jump(st, t);
                    return Ok(());
                }
                self.branches += 1;
                // group the cases by target
                let mut groups: Vec<(u32, V)> = vec![];
                let mut any = V::b(false);
                for (c, b) in cases {
                    let e = eq(x, V::C(*w, *c));
                    any = or(any, e);
                    if *b == *def {
                        continue;
                    }
                    match groups.iter_mut().find(|(t, _)| t == b) {
                        Some(g) => g.1 = or(g.1, e),
                        None => groups.push((*b, e)),
                    }
                }
                let mut dcond = not(any);
                for (c, b) in cases {
                    if *b == *def {
                        dcond = or(dcond, eq(x, V::C(*w, *c)));
                    }
                }
                groups.push((*def, dcond));
                let mut mine = None;
                for (t, q) in groups {
                    if self.sol.eval(&st.path, q) == 1 {
                        mine = Some((t, q));
                        continue;
                    }
                    if let Some(bind) = self.sat(&st.path, q, "switch")? {
                        let mut o = st.clone();
                        self.sol.assume(&mut o.path, q, &bind);
                        o.forks += 1;
                        self.forks += 1;
                        self.jump(&mut o, t);
                        self.work.push(o);
                        let k = (f_idx(st), blk);
                        *self.hot.entry(k).or_insert(0) += 1;
                    }
                }
                let (t, q) = mine.expect("switch");
                self.sol.assume(&mut st.path, q, &[]);
                self.jump(st, t);
            }
            I::Cast { dst, c, from, to, a } => {
                let x = Self::val(fr!(), a);
                let v = match c {
                    Cast::Trunc => {
                        let w = elem_bits(to);
                        vmap(&x, &mut |v| extract(v, 0, w))
                    }
                    Cast::ZExt => {
                        let w = elem_bits(to);
                        vmap(&x, &mut |v| zext(v, w))
                    }
                    Cast::SExt => {
                        let w = elem_bits(to);
                        vmap(&x, &mut |v| sext(v, w))
                    }
                    Cast::Same => x,
                    Cast::BitCast => {
                        let mut l = vec![];
                        flatten(&x, &mut l);
                        let _ = from;
                        if l.iter().map(|v| v.w()).sum::<u32>() > 128 {
                            return self.err("bitcast over 128 bits");
                        }
                        let c = concat(&l);
                        match to {
                            Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|k| Val::V(extract(c, k * e.bits(), e.bits()))).collect())),
                            _ => Val::V(c),
                        }
                    }
                };
                self.set(st, *dst, v);
            }
            I::Select { dst, c, a, b } => {
                let k = Self::val(fr!(), c);
                let (x, y) = (Self::val(fr!(), a), Self::val(fr!(), b));
                let v = match &k {
                    Val::V(k) => {
                        let k = self.sol.simp(&st.path, *k);
                        match k {
                            V::C(_, 1) => x,
                            V::C(_, _) => y,
                            _ if self.split && matches!((&x, &y), (Val::V(p), Val::V(_)) if p.w() == 64) => {
                                if self.decide(st, k)? {
                                    x
                                } else {
                                    y
                                }
                            }
                            _ => vmap2(&x, &y, &mut |p, q| ite(k, p, q)),
                        }
                    }
                    Val::A(ks) => match (&x, &y) {
                        (Val::A(p), Val::A(q)) => Val::A(Rc::new(ks.iter().zip(p.iter().zip(q.iter())).map(|(k, (p, q))| Val::V(ite(k.v(), p.v(), q.v()))).collect())),
                        _ => return self.err("select"),
                    },
                };
                self.set(st, *dst, v);
            }
            I::Call { callee, args, rty, .. } => {
                let av: Vec<Val> = args.iter().map(|a| Self::val(fr!(), a)).collect();
                match callee {
                    Callee::Direct(f) => return self.call(st, *f, av, rty),
                    Callee::Indirect(o) => {
                        let p = Self::scal(fr!(), o);
                        let p = self.addr(st, p)?;
                        if p < FUNC_BASE || p >= FUNC_BASE + 16 * self.m.funcs.len() as u64 {
                            return self.err(&format!("indirect call to {:#x}", p));
                        }
                        return self.call(st, ((p - FUNC_BASE) / 16) as u32, av, rty);
                    }
                    Callee::Asm => {
                        // compiler barriers (black_box): return the argument unchanged
                        let r = av.get(0).cloned();
                        return self.finish_call(st, r);
                    }
                }
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|v| Self::val(fr!(), v));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.objs.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                return self.finish_call(st, r);
            }
            I::Alloca { dst, size, count, align } => {
                let n = match count {
                    Some(o) => {
                        let c = Self::scal(fr!(), o);
                        self.conc(st, c)? as u64
                    }
                    None => 1,
                };
                let a = st.mem.alloc(size * n, *align, Kind::Stack);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(a);
                fr.regs[*dst as usize] = Val::V(V::C(64, a as u128));
                fr.ip += 1;
            }
            I::ExtractValue { dst, a, path } => {
                let mut v = Self::val(fr!(), a);
                for k in path {
                    v = match &v {
                        Val::A(l) => l[*k].clone(),
                        _ => return self.err("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
            }
            I::InsertValue { dst, a, e, path } => {
                let v = Self::val(fr!(), a);
                let x = Self::val(fr!(), e);
                fn ins(v: &Val, x: Val, p: &[usize]) -> Val {
                    if p.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(l) => {
                            let mut l2 = (**l).clone();
                            l2[p[0]] = ins(&l[p[0]], x, &p[1..]);
                            Val::A(Rc::new(l2))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&v, x, path);
                self.set(st, *dst, r);
            }
            I::ExtractElement { dst, a, i } => {
                let v = Self::val(fr!(), a);
                let k = Self::scal(fr!(), i);
                let k = self.conc(st, k)? as usize;
                let r = match &v {
                    Val::A(l) => l[k].clone(),
                    _ => return self.err("extractelement"),
                };
                self.set(st, *dst, r);
            }
            I::InsertElement { dst, a, e, i } => {
                let v = Self::val(fr!(), a);
                let x = Self::val(fr!(), e);
                let k = Self::scal(fr!(), i);
                let k = self.conc(st, k)? as usize;
                let r = match &v {
                    Val::A(l) => {
                        let mut l2 = (**l).clone();
                        l2[k] = x;
                        Val::A(Rc::new(l2))
                    }
                    _ => return self.err("insertelement"),
                };
                self.set(st, *dst, r);
            }
            I::Shuffle { dst, a, b, mask } => {
                let (x, y) = (Self::val(fr!(), a), Self::val(fr!(), b));
                let r = match (&x, &y) {
                    (Val::A(p), Val::A(q)) => {
                        let n = p.len();
                        Val::A(Rc::new(
                            mask.iter()
                                .map(|k| {
                                    let k = *k as usize;
                                    if k < n {
                                        p[k].clone()
                                    } else if k - n < q.len() {
                                        q[k - n].clone()
                                    } else {
                                        p[0].clone()
                                    }
                                })
                                .collect(),
                        ))
                    }
                    _ => return self.err("shufflevector"),
                };
                self.set(st, *dst, r);
            }
            I::AtomicRmw { dst, op, ty, p, v } => {
                let a = Self::scal(fr!(), p);
                let x = Self::scal(fr!(), v);
                let a = self.addr(st, a)?;
                let old = self.load_ty(st, a, ty)?;
                let o = old.v();
                let n = match op.as_str() {
                    "add" => bin(Bin::Add, o, x),
                    "sub" => bin(Bin::Sub, o, x),
                    "xchg" => x,
                    "and" => bin(Bin::And, o, x),
                    "or" => bin(Bin::Or, o, x),
                    "xor" => bin(Bin::Xor, o, x),
                    _ => return self.err("atomicrmw"),
                };
                self.store_ty(st, a, ty, &Val::V(n))?;
                self.set(st, *dst, old);
            }
            I::CmpXchg { dst, ty, p, cmp: c, new } => {
                let a = Self::scal(fr!(), p);
                let (c, n) = (Self::scal(fr!(), c), Self::scal(fr!(), new));
                let a = self.addr(st, a)?;
                let old = self.load_ty(st, a, ty)?;
                let same = eq(old.v(), c);
                self.store_ty(st, a, ty, &Val::V(ite(same, n, old.v())))?;
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::V(same)])));
            }
            I::Freeze { dst, a } => {
                let v = Self::val(fr!(), a);
                self.set(st, *dst, v);
            }
            I::Nop => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Unreachable => return self.err("unreachable reached"),
            I::Unsupported(s) => return self.err(&format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }
}

fn f_idx(st: &State) -> u32 {
    st.frames.last().unwrap().f.idx
}

fn elem_bits(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, e) => e.bits(),
        _ => t.bits(),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Readable form of a v0-mangled name: the identifiers in order.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut k = i + 1;
            while k < b.len() && b[k].is_ascii_alphanumeric() {
                k += 1;
            }
            if k < b.len() && b[k] == b'_' && k - i <= 14 && (k + 1 < b.len() && b[k + 1].is_ascii_digit()) {
                i = k + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = i;
            let mut l = 0usize;
            while k < b.len() && b[k].is_ascii_digit() {
                l = l * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if k + l <= b.len() && l > 0 && (b[k].is_ascii_alphabetic() || b[k] == b'_') {
                out.push(n[k..k + l].to_string());
                i = k + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
