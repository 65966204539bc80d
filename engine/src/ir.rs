//! Parser for the textual LLVM IR that rustc emits (whole program, after fat LTO).
//! Function bodies are parsed lazily, when first called.
use crate::expr::V;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Float(u32),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 0,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(..) => self.alloc_size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Float(w) => *w as u64 / 8,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 1,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Float(w) => *w as u64 / 8,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.alloc_size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => align_up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.alloc_size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.alloc_size() * i as u64,
            Ty::Vec(_, t) => t.store_size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// A register value: a scalar or an aggregate / vector of values.
#[derive(Clone, Debug)]
pub enum Val {
    V(V),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn v(&self) -> V {
        match self {
            Val::V(v) => *v,
            Val::A(_) => panic!("scalar expected, got aggregate"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { dst: u32, size: u64, count: Option<Opd>, align: u64 },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Vec<(Opd, u64)> },
    Bin { dst: u32, op: Bin, a: Opd, b: Opd },
    ICmp { dst: u32, p: Pred, a: Opd, b: Opd },
    Cast { dst: u32, c: Cast, from: Ty, to: Ty, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, normal: Option<u32>, rty: Ty },
    ExtractValue { dst: u32, a: Opd, path: Vec<usize> },
    InsertValue { dst: u32, a: Opd, e: Opd, path: Vec<usize> },
    ExtractElement { dst: u32, a: Opd, i: Opd },
    InsertElement { dst: u32, a: Opd, e: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i64> },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { dst: u32, ty: Ty, p: Opd, cmp: Opd, new: Opd },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Freeze { dst: u32, a: Opd },
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>, // dst, [(pred, value)]
    pub ins: Vec<(I, u32)>,                // instruction, !dbg id (0: none)
    pub name: String,
}
pub struct Func {
    pub idx: u32,
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the whole definition in the text
    pub header: usize,
    pub addr: u64,
    pub dbg: u32,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
    pub external: bool,
}

pub const FUNC_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub cache: RefCell<Vec<Option<Rc<Func>>>>,
    pub meta: HashMap<u32, (usize, usize)>, // metadata id -> byte range of its line
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

type Regs = HashMap<String, u32>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn kw(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let e = self.i + t.len();
            if e >= self.s.len() || !is_name(self.s[e]) {
                self.i = e;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected {:?}", t));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(160);
        let b = (self.i + 160).min(self.s.len());
        panic!("IR parse error: {} near <<<{}###{}>>>", m, String::from_utf8_lossy(&self.s[a..self.i.min(b)]), String::from_utf8_lossy(&self.s[self.i.min(b)..b]));
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_name(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    /// name after % or @ (plain or quoted)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_name(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.s[self.i] == b'-';
        if neg {
            self.i += 1;
        }
        let mut v: i128 = 0;
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as i128);
            self.i += 1;
        }
        if st == self.i {
            self.fail("number");
        }
        if neg {
            v.wrapping_neg()
        } else {
            v
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        let mut t = match c {
            b'i' => {
                self.i += 1;
                Ty::Int(self.num() as u32)
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u32;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                self.name();
                Ty::Other
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ => self.fail(&format!("type {:?}", w)),
                }
            }
        };
        // function type: T (args)
        self.sp();
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            // only used as `T (...) @callee`; keep the return type
            self.skip_balanced();
            let _ = &mut t;
        }
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.peek() == end {
            self.i += 1;
            return f;
        }
        loop {
            f.push(self.ty());
            if self.peek() == b',' {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.peek() != end {
            self.fail("type list");
        }
        self.i += 1;
        f
    }

    fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::V(V::c(*w, 0)),
            Ty::Ptr => Val::V(V::c(64, 0)),
            Ty::Float(w) => Val::V(V::c(*w, 0)),
            Ty::Arr(n, t) => {
                let z = Self::zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vec(n, t) => {
                let z = Self::zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::V(V::c(64, 0)),
        }
    }

    fn typed_const(&mut self) -> (Ty, Val) {
        let t = self.ty();
        let v = self.constant(&t);
        (t, v)
    }

    fn const_list(&mut self, end: u8) -> Vec<Val> {
        let mut r = vec![];
        if self.peek() == end {
            self.i += 1;
            return r;
        }
        loop {
            r.push(self.typed_const().1);
            if self.peek() == b',' {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.peek() != end {
            self.fail("const list");
        }
        self.i += 1;
        r
    }

    fn constant(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        if c.is_ascii_digit() || c == b'-' {
            let n = self.num();
            if let Ty::Float(w) = t {
                // decimal float constant: not supported as arithmetic, keep raw 0
                let _ = n;
                while self.i < self.s.len() && (is_name(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                return Val::V(V::c(*w, 0));
            }
            return Val::V(V::c(t.bits(), n as u128));
        }
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return Val::V(V::c(64, self.m.sym_addr(&n) as u128));
            }
            b'{' => {
                self.i += 1;
                return Val::A(Rc::new(self.const_list(b'}')));
            }
            b'[' => {
                self.i += 1;
                return Val::A(Rc::new(self.const_list(b']')));
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.const_list(b'}');
                    self.expect(">");
                    return Val::A(Rc::new(r));
                }
                return Val::A(Rc::new(self.const_list(b'>')));
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut r = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                        r.push(b'\\');
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        r.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else {
                        r.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                return Val::A(Rc::new(r.into_iter().map(|b| Val::V(V::c(8, b as u128))).collect()));
            }
            _ => {}
        }
        let w = self.word();
        match w.as_str() {
            "true" => Val::V(V::c(1, 1)),
            "false" => Val::V(V::c(1, 0)),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(t),
            "splat" => {
                self.expect("(");
                let (_, v) = self.typed_const();
                self.expect(")");
                Val::A(Rc::new(vec![v; t.nfields()]))
            }
            "getelementptr" => {
                loop {
                    if self.peek() == b'(' {
                        break;
                    }
                    let w = self.word();
                    if w == "inrange" {
                        self.ws();
                        self.skip_balanced();
                    }
                }
                self.expect("(");
                let et = self.ty();
                self.expect(",");
                let (_, b) = self.typed_const();
                let mut a = b.v().cval() as u64;
                let mut first = true;
                let mut cur = et;
                while self.eat(",") {
                    let (it, iv) = self.typed_const();
                    let w = it.bits();
                    let raw = iv.v().cval();
                    let sv = crate::expr::sext_i128(raw, w) as i64;
                    if first {
                        a = a.wrapping_add((cur.alloc_size() as i64).wrapping_mul(sv) as u64);
                        first = false;
                    } else {
                        a = match &cur {
                            Ty::Struct(..) => a.wrapping_add(cur.field_off(sv as usize)),
                            _ => a.wrapping_add((cur.field_ty(0).alloc_size() as i64).wrapping_mul(sv) as u64),
                        };
                        cur = cur.field_ty(if matches!(cur, Ty::Struct(..)) { sv as usize } else { 0 });
                    }
                }
                self.expect(")");
                Val::V(V::c(64, a as u128))
            }
            "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "zext" | "sext" => {
                self.expect("(");
                let (ft, v) = self.typed_const();
                if !self.kw("to") {
                    self.fail("to");
                }
                let tt = self.ty();
                self.expect(")");
                let x = v.v().cval();
                if w == "sext" {
                    return Val::V(V::c(tt.bits(), crate::expr::sext_i128(x, ft.bits()) as u128));
                }
                Val::V(V::c(tt.bits(), x))
            }
            "sub" | "add" | "xor" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect("(");
                let (t1, a) = self.typed_const();
                self.expect(",");
                let (_, b) = self.typed_const();
                self.expect(")");
                let (a, b) = (a.v().cval(), b.v().cval());
                let r = match w.as_str() {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                Val::V(V::c(t1.bits(), r))
            }
            _ if w.starts_with("0x") => Val::V(V::c(t.bits(), u128::from_str_radix(w.trim_start_matches("0x").trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H'), 16).unwrap_or(0))),
            _ => self.fail(&format!("constant {:?}", w)),
        }
    }

    fn opd(&mut self, t: &Ty, regs: &mut Regs) -> Opd {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            let k = regs.len() as u32;
            return Opd::R(*regs.entry(n).or_insert(k));
        }
        Opd::C(self.constant(t))
    }
    fn typed_opd(&mut self, regs: &mut Regs) -> (Ty, Opd) {
        let t = self.ty();
        let o = self.opd(&t, regs);
        (t, o)
    }

    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            let c = self.peek();
            if !(c.is_ascii_lowercase() || c == b'"') {
                return;
            }
            let save = self.i;
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                    self.ws();
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            let w = self.word();
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "sub" | "add" | "c" | "splat" | "xor" | "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "asm" | "blockaddress" | "ptrtoaddr" => {
                    self.i = save;
                    return;
                }
                "align" => {
                    self.sp();
                    if self.s[self.i] == b'(' {
                        self.skip_balanced();
                    } else {
                        self.num();
                    }
                }
                _ => {
                    if w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                        self.i = save;
                        return;
                    }
                    if self.i < self.s.len() && self.s[self.i] == b'(' {
                        self.skip_balanced();
                    }
                }
            }
        }
    }

    fn to_eol(&mut self) -> u32 {
        // skip the rest of the line the last token is on, extracting a !dbg id
        while self.i > 0 && matches!(self.s[self.i - 1], b' ' | b'\n' | b'\t' | b'\r') {
            self.i -= 1;
        }
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        let line = &self.s[st..self.i];
        find_dbg(line)
    }
}

fn find_dbg(line: &[u8]) -> u32 {
    let pat = b"!dbg !";
    let mut k = 0;
    while k + pat.len() < line.len() {
        if &line[k..k + pat.len()] == pat {
            let mut n = 0u32;
            let mut j = k + pat.len();
            while j < line.len() && line[j].is_ascii_digit() {
                n = n * 10 + (line[j] - b'0') as u32;
                j += 1;
            }
            return n;
        }
        k += 1;
    }
    0
}

fn parse_sym_name(s: &[u8], mut i: usize) -> (String, usize) {
    // s[i] is after '@'
    if s[i] == b'"' {
        i += 1;
        let st = i;
        while s[i] != b'"' {
            i += 1;
        }
        (String::from_utf8_lossy(&s[st..i]).into_owned(), i + 1)
    } else {
        let st = i;
        while i < s.len() && is_name(s[i]) {
            i += 1;
        }
        (String::from_utf8_lossy(&s[st..i]).into_owned(), i)
    }
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.gmap.get(n) {
            let g = &self.globals[*g as usize];
            return if g.external { 0 } else { g.addr };
        }
        if let Some(f) = self.fmap.get(n) {
            return self.funcs[*f as usize].addr;
        }
        panic!("unknown symbol @{}", n)
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read IR");
        let mut m = Module { text: vec![], funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), cache: RefCell::new(vec![]), meta: HashMap::new() };
        // pass 1: symbols
        let mut pos = 0;
        let n = text.len();
        let mut ginit: Vec<(u32, usize, usize)> = vec![]; // global, init offset, end
        let mut gaddr = GLOBAL_BASE;
        while pos < n {
            let mut eol = pos;
            while eol < n && text[eol] != b'\n' {
                eol += 1;
            }
            let line = &text[pos..eol];
            if line.starts_with(b"@") {
                let (name, mut i) = parse_sym_name(line, 1);
                // skip " = " and linkage words up to `global` / `constant` / alias
                let mut constant = false;
                let mut external = false;
                let mut ok = false;
                while i < line.len() {
                    while i < line.len() && (line[i] == b' ' || line[i] == b'=') {
                        i += 1;
                    }
                    let st = i;
                    while i < line.len() && is_name(line[i]) {
                        i += 1;
                    }
                    let w = &line[st..i];
                    if w == b"external" || w == b"extern_weak" {
                        external = true;
                    }
                    if w == b"constant" || w == b"global" {
                        constant = w == b"constant";
                        ok = true;
                        break;
                    }
                    if w == b"alias" {
                        panic!("alias not supported: {}", name);
                    }
                    if i < line.len() && line[i] == b'(' {
                        while line[i] != b')' {
                            i += 1;
                        }
                        i += 1;
                    }
                    if st == i {
                        i += 1;
                    }
                }
                if !ok {
                    panic!("global {}", name);
                }
                let (size, align, off) = {
                    let mut p = P { s: line, i, m: &m };
                    let t = p.ty();
                    (t.alloc_size(), t.align(), p.i)
                };
                let align = align.max(16);
                gaddr = align_up(gaddr, align);
                let id = m.globals.len() as u32;
                m.gmap.insert(name.clone(), id);
                m.globals.push(Global { name, addr: gaddr, size, constant, data: vec![0; size as usize], external });
                gaddr += size + 16;
                let _ = off;
                if !external {
                    ginit.push((id, pos + i, eol));
                }
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let def = line.starts_with(b"define");
                // function name: first '@' outside of quotes
                let mut i = 0;
                while line[i] != b'@' {
                    i += 1;
                }
                let (name, _) = parse_sym_name(line, i + 1);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                let weak = line.windows(11).any(|w| w == b"extern_weak");
                let mut end = eol;
                if def {
                    // find "\n}" from eol
                    let mut k = eol;
                    loop {
                        if text[k] == b'\n' && text[k + 1] == b'}' {
                            end = k + 2;
                            break;
                        }
                        k += 1;
                    }
                }
                let dbg = find_dbg(line);
                m.funcs.push(FuncDecl { name, body: if def { Some((pos, end)) } else { None }, header: pos, addr: if weak { 0 } else { FUNC_BASE + 16 * id as u64 }, dbg });
                eol = end;
            } else if line.starts_with(b"!") && line.len() > 1 && line[1].is_ascii_digit() {
                let mut k = 1;
                let mut id = 0u32;
                while k < line.len() && line[k].is_ascii_digit() {
                    id = id * 10 + (line[k] - b'0') as u32;
                    k += 1;
                }
                m.meta.insert(id, (pos, eol));
            }
            pos = eol + 1;
        }
        m.cache = RefCell::new((0..m.funcs.len()).map(|_| None).collect());
        // pass 2: initialisers
        let mut datas = vec![];
        for (id, st, en) in ginit {
            let mut p = P { s: &text[st..en], i: 0, m: &m };
            let t = p.ty();
            let v = p.constant(&t);
            let mut buf = vec![0u8; m.globals[id as usize].size as usize];
            write_const(&mut buf, 0, &t, &v);
            datas.push((id, buf));
        }
        for (id, b) in datas {
            m.globals[id as usize].data = b;
        }
        m.text = text;
        m
    }

    pub fn func(&self, idx: u32) -> Rc<Func> {
        if let Some(f) = &self.cache.borrow()[idx as usize] {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(idx));
        self.cache.borrow_mut()[idx as usize] = Some(f.clone());
        f
    }

    fn parse_func(&self, idx: u32) -> Func {
        let d = &self.funcs[idx as usize];
        let (a, b) = d.body.expect("body");
        let s = &self.text[a..b];
        let mut regs: Regs = HashMap::new();
        let mut i = 0;
        while s[i] != b'@' {
            i += 1;
        }
        let (_, e) = parse_sym_name(s, i + 1);
        let mut p = P { s, i: e, m: self };
        p.expect("(");
        let mut nparams = 0;
        if p.peek() != b')' {
            loop {
                if p.eat("...") {
                    break;
                }
                p.ty();
                p.skip_attrs();
                let name = if p.peek() == b'%' {
                    p.i += 1;
                    p.name()
                } else {
                    format!("{}", nparams)
                };
                let k = regs.len() as u32;
                regs.insert(name, k);
                nparams += 1;
                if !p.eat(",") {
                    break;
                }
            }
        }
        p.expect(")");
        // to '{' at the end of the header line
        while p.s[p.i] != b'\n' {
            p.i += 1;
        }
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        // prescan labels in order
        let mut order: Vec<String> = vec![];
        {
            let mut k = p.i + 1;
            let mut first = true;
            while k < s.len() {
                let mut eol = k;
                while eol < s.len() && s[eol] != b'\n' {
                    eol += 1;
                }
                let line = &s[k..eol];
                if !line.is_empty() && line[0] != b' ' && line[0] != b'}' && line[0] != b';' && line[0] != b'\t' {
                    let (nm, e) = parse_sym_name(line, 0);
                    if e < line.len() && line[e] == b':' {
                        order.push(nm);
                        first = false;
                    }
                } else if first && line.starts_with(b"  ") {
                    order.push(format!("{}", count_unnamed(&regs)));
                    first = false;
                }
                k = eol + 1;
            }
        }
        for (k, n) in order.iter().enumerate() {
            bmap.insert(n.clone(), k as u32);
        }
        let blk = |n: &str| -> u32 { *bmap.get(n).unwrap_or_else(|| panic!("block {} in {}", n, d.name)) };
        let mut cur: Option<Block> = None;
        loop {
            let c = p.peek();
            if c == b'}' || c == 0 {
                break;
            }
            // label?
            let line_start = {
                let mut k = p.i;
                while k > 0 && p.s[k - 1] != b'\n' {
                    k -= 1;
                }
                k
            };
            if line_start == p.i && (is_name(c) || c == b'"') {
                let (nm, e) = parse_sym_name(p.s, p.i);
                if p.s[e] == b':' {
                    p.i = e + 1;
                    p.to_eol();
                    if let Some(b) = cur.take() {
                        blocks.push(b);
                    }
                    cur = Some(Block { phis: vec![], ins: vec![], name: nm });
                    continue;
                }
            }
            if cur.is_none() {
                cur = Some(Block { phis: vec![], ins: vec![], name: order[0].clone() });
            }
            let b = cur.as_mut().unwrap();
            // instruction
            let mut dst: Option<u32> = None;
            if c == b'%' {
                p.i += 1;
                let n = p.name();
                let k = regs.len() as u32;
                dst = Some(*regs.entry(n).or_insert(k));
                p.expect("=");
            }
            let ist = p.i;
            let mut op = p.word();
            if op == "tail" || op == "musttail" || op == "notail" {
                op = p.word();
            }
            let ins = match op.as_str() {
                "phi" => {
                    skip_fmf(&mut p);
                    let t = p.ty();
                    let mut v = vec![];
                    loop {
                        p.expect("[");
                        let o = p.opd(&t, &mut regs);
                        p.expect(",");
                        p.expect("%");
                        let n = p.name();
                        p.expect("]");
                        v.push((blk(&n), o));
                        p.sp();
                        if p.s[p.i] == b',' && p.s[p.i + 1] == b' ' && p.s[p.i + 2] == b'[' {
                            p.i += 1;
                        } else {
                            break;
                        }
                    }
                    p.to_eol();
                    b.phis.push((dst.unwrap(), v));
                    continue;
                }
                "alloca" => {
                    p.kw("inalloca");
                    let t = p.ty();
                    let mut count = None;
                    let mut align = t.align();
                    while p.eat(",") {
                        if p.kw("align") {
                            align = p.num() as u64;
                        } else if p.peek() == b'!' {
                            break;
                        } else {
                            let (_, o) = p.typed_opd(&mut regs);
                            count = Some(o);
                        }
                    }
                    I::Alloca { dst: dst.unwrap(), size: t.alloc_size(), count, align }
                }
                "load" => {
                    p.kw("atomic");
                    p.kw("volatile");
                    let t = p.ty();
                    p.expect(",");
                    let (_, o) = p.typed_opd(&mut regs);
                    I::Load { dst: dst.unwrap(), ty: t, p: o }
                }
                "store" => {
                    p.kw("atomic");
                    p.kw("volatile");
                    let (t, v) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, o) = p.typed_opd(&mut regs);
                    I::Store { ty: t, v, p: o }
                }
                "getelementptr" => {
                    loop {
                        if p.kw("inbounds") || p.kw("nuw") || p.kw("nusw") {
                            continue;
                        }
                        if p.kw("inrange") {
                            p.ws();
                            p.skip_balanced();
                            continue;
                        }
                        break;
                    }
                    let mut cur_t = p.ty();
                    p.expect(",");
                    let (bt, base) = p.typed_opd(&mut regs);
                    let mut off = 0u64;
                    let mut idx = vec![];
                    let mut first = true;
                    let mut bad = matches!(bt, Ty::Vec(..));
                    while {
                        p.sp();
                        p.s[p.i] == b',' && !p.s[p.i..].starts_with(b", !")
                    } {
                        p.i += 1;
                        let (it, o) = p.typed_opd(&mut regs);
                        if matches!(it, Ty::Vec(..)) {
                            bad = true;
                            break;
                        }
                        let scale;
                        if first {
                            scale = cur_t.alloc_size();
                            first = false;
                        } else {
                            if let Ty::Struct(..) = cur_t {
                                let k = match &o {
                                    Opd::C(v) => v.v().cval() as usize,
                                    _ => panic!("gep struct index"),
                                };
                                off = off.wrapping_add(cur_t.field_off(k));
                                cur_t = cur_t.field_ty(k);
                                continue;
                            }
                            cur_t = cur_t.field_ty(0);
                            scale = cur_t.alloc_size();
                        }
                        match &o {
                            Opd::C(v) => {
                                let s = crate::expr::sext_i128(v.v().cval(), it.bits()) as i64;
                                off = off.wrapping_add((scale as i64).wrapping_mul(s) as u64);
                            }
                            _ => idx.push((o, scale)),
                        }
                    }
                    if bad {
                        I::Unsupported("vector gep".into())
                    } else {
                        I::Gep { dst: dst.unwrap(), base, off, idx }
                    }
                }
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                    while p.kw("nuw") || p.kw("nsw") || p.kw("exact") || p.kw("disjoint") {}
                    let t = p.ty();
                    let a = p.opd(&t, &mut regs);
                    p.expect(",");
                    let bb = p.opd(&t, &mut regs);
                    let o = match op.as_str() {
                        "add" => Bin::Add,
                        "sub" => Bin::Sub,
                        "mul" => Bin::Mul,
                        "udiv" => Bin::UDiv,
                        "sdiv" => Bin::SDiv,
                        "urem" => Bin::URem,
                        "srem" => Bin::SRem,
                        "and" => Bin::And,
                        "or" => Bin::Or,
                        "xor" => Bin::Xor,
                        "shl" => Bin::Shl,
                        "lshr" => Bin::LShr,
                        _ => Bin::AShr,
                    };
                    I::Bin { dst: dst.unwrap(), op: o, a, b: bb }
                }
                "icmp" => {
                    p.kw("samesign");
                    let pr = p.word();
                    let t = p.ty();
                    let a = p.opd(&t, &mut regs);
                    p.expect(",");
                    let bb = p.opd(&t, &mut regs);
                    let pr = match pr.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => p.fail("icmp"),
                    };
                    I::ICmp { dst: dst.unwrap(), p: pr, a, b: bb }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    while p.kw("nuw") || p.kw("nsw") || p.kw("nneg") {}
                    let (from, a) = p.typed_opd(&mut regs);
                    if !p.kw("to") {
                        p.fail("to");
                    }
                    let to = p.ty();
                    let c = match op.as_str() {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "bitcast" => Cast::BitCast,
                        _ => {
                            let (f, t) = (from.bits(), to.bits());
                            if f == t {
                                Cast::Same
                            } else if f > t {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        }
                    };
                    I::Cast { dst: dst.unwrap(), c, from, to, a }
                }
                "select" => {
                    skip_fmf(&mut p);
                    let (_, c) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, a) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, bb) = p.typed_opd(&mut regs);
                    I::Select { dst: dst.unwrap(), c, a, b: bb }
                }
                "freeze" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    I::Freeze { dst: dst.unwrap(), a }
                }
                "extractvalue" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    let mut path = vec![];
                    while {
                        p.sp();
                        p.s[p.i] == b',' && !p.s[p.i..].starts_with(b", !")
                    } {
                        p.i += 1;
                        path.push(p.num() as usize);
                    }
                    I::ExtractValue { dst: dst.unwrap(), a, path }
                }
                "insertvalue" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, e) = p.typed_opd(&mut regs);
                    let mut path = vec![];
                    while {
                        p.sp();
                        p.s[p.i] == b',' && !p.s[p.i..].starts_with(b", !")
                    } {
                        p.i += 1;
                        path.push(p.num() as usize);
                    }
                    I::InsertValue { dst: dst.unwrap(), a, e, path }
                }
                "extractelement" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, i) = p.typed_opd(&mut regs);
                    I::ExtractElement { dst: dst.unwrap(), a, i }
                }
                "insertelement" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, e) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, i) = p.typed_opd(&mut regs);
                    I::InsertElement { dst: dst.unwrap(), a, e, i }
                }
                "shufflevector" => {
                    let (_, a) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, bb) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, m) = p.typed_opd(&mut regs);
                    let mask = match m {
                        Opd::C(Val::A(l)) => l.iter().map(|x| x.v().cval() as i64).collect(),
                        _ => panic!("mask"),
                    };
                    I::Shuffle { dst: dst.unwrap(), a, b: bb, mask }
                }
                "atomicrmw" => {
                    p.kw("volatile");
                    let o = p.word();
                    let (_, ptr) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (t, v) = p.typed_opd(&mut regs);
                    I::AtomicRmw { dst: dst.unwrap(), op: o, ty: t, p: ptr, v }
                }
                "cmpxchg" => {
                    p.kw("weak");
                    p.kw("volatile");
                    let (_, ptr) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (t, c) = p.typed_opd(&mut regs);
                    p.expect(",");
                    let (_, nw) = p.typed_opd(&mut regs);
                    I::CmpXchg { dst: dst.unwrap(), ty: t, p: ptr, cmp: c, new: nw }
                }
                "fence" => I::Nop,
                "br" => {
                    if p.kw("label") {
                        p.expect("%");
                        let n = p.name();
                        I::Br(blk(&n))
                    } else {
                        let (_, c) = p.typed_opd(&mut regs);
                        p.expect(",");
                        p.expect("label");
                        p.expect("%");
                        let t = p.name();
                        p.expect(",");
                        p.expect("label");
                        p.expect("%");
                        let f = p.name();
                        I::CondBr { c, t: blk(&t), f: blk(&f) }
                    }
                }
                "switch" => {
                    let (t, v) = p.typed_opd(&mut regs);
                    p.expect(",");
                    p.expect("label");
                    p.expect("%");
                    let n = p.name();
                    p.expect("[");
                    let mut cases = vec![];
                    while p.peek() != b']' {
                        let (_, cv) = p.typed_const();
                        p.expect(",");
                        p.expect("label");
                        p.expect("%");
                        let l = p.name();
                        cases.push((cv.v().cval(), blk(&l)));
                    }
                    p.expect("]");
                    I::Switch { w: t.bits(), v, def: blk(&n), cases }
                }
                "ret" => {
                    if p.kw("void") {
                        I::Ret(None)
                    } else {
                        let (_, v) = p.typed_opd(&mut regs);
                        I::Ret(Some(v))
                    }
                }
                "unreachable" => I::Unreachable,
                "resume" => I::Unsupported("resume".into()),
                "landingpad" => {
                    // multi-line: type, then `cleanup` / `catch` / `filter` clauses
                    p.ty();
                    p.to_eol();
                    loop {
                        let save = p.i;
                        if p.kw("cleanup") || p.kw("catch") || p.kw("filter") {
                            p.to_eol();
                        } else {
                            p.i = save;
                            break;
                        }
                    }
                    b.ins.push((I::Unsupported("landingpad".into()), 0));
                    continue;
                }
                "call" | "invoke" => {
                    skip_fmf(&mut p);
                    // calling convention
                    for cc in ["fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "tailcc"] {
                        if p.kw(cc) {
                            break;
                        }
                    }
                    p.skip_attrs();
                    let rty = p.ty();
                    let callee;
                    let mut indirect = None;
                    let c = p.peek();
                    if c == b'@' {
                        p.i += 1;
                        let n = p.name();
                        let f = *self.fmap.get(&n).unwrap_or_else(|| panic!("callee {}", n));
                        callee = Callee::Direct(f);
                    } else if p.kw("asm") {
                        while p.peek() != b'"' {
                            p.word();
                        }
                        p.i += 1;
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        p.expect(",");
                        p.expect("\"");
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        callee = Callee::Asm;
                    } else {
                        indirect = Some(p.opd(&Ty::Ptr, &mut regs));
                        callee = Callee::Asm;
                    }
                    let callee = match indirect {
                        Some(o) => Callee::Indirect(o),
                        None => callee,
                    };
                    p.expect("(");
                    let mut args = vec![];
                    if p.peek() != b')' {
                        loop {
                            let t = p.ty();
                            if t == Ty::Other {
                                // metadata
                                let mut dpt = 0;
                                loop {
                                    let ch = p.s[p.i];
                                    if dpt == 0 && (ch == b',' || ch == b')') {
                                        break;
                                    }
                                    if ch == b'(' || ch == b'{' {
                                        dpt += 1;
                                    }
                                    if ch == b')' || ch == b'}' {
                                        dpt -= 1;
                                    }
                                    p.i += 1;
                                }
                            } else {
                                p.skip_attrs();
                                args.push(p.opd(&t, &mut regs));
                            }
                            if !p.eat(",") {
                                break;
                            }
                        }
                    }
                    p.expect(")");
                    let mut normal = None;
                    if op == "invoke" {
                        // attributes, then `to label %n unwind label %u`
                        loop {
                            p.ws();
                            if p.kw("to") {
                                break;
                            }
                            if p.s[p.i] == b'#' || p.s[p.i] == b'"' || is_name(p.s[p.i]) || p.s[p.i] == b'=' {
                                p.i += 1;
                                while is_name(p.s[p.i]) {
                                    p.i += 1;
                                }
                            } else if p.s[p.i] == b'[' || p.s[p.i] == b'(' {
                                p.skip_balanced();
                            } else {
                                p.i += 1;
                            }
                        }
                        p.expect("label");
                        p.expect("%");
                        let n = p.name();
                        normal = Some(blk(&n));
                    }
                    I::Call { dst, callee, args, normal, rty }
                }
                _ => {
                    let mut e = ist;
                    while p.s[e] != b'\n' {
                        e += 1;
                    }
                    I::Unsupported(String::from_utf8_lossy(&p.s[ist..e]).into_owned())
                }
            };
            let dbg = p.to_eol();
            b.ins.push((ins, dbg));
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        assert_eq!(blocks.len(), order.len(), "blocks in {}", d.name);
        for (k, b) in blocks.iter().enumerate() {
            assert_eq!(b.name, order[k]);
        }
        Func { idx, name: d.name.clone(), nparams, nregs: regs.len(), blocks }
    }
}

fn count_unnamed(regs: &Regs) -> usize {
    regs.keys().filter(|k| k.bytes().all(|b| b.is_ascii_digit())).count()
}

fn skip_fmf(p: &mut P) {
    while p.kw("fast") || p.kw("nnan") || p.kw("ninf") || p.kw("nsz") || p.kw("arcp") || p.kw("contract") || p.kw("afn") || p.kw("reassoc") {}
}

pub fn write_const(buf: &mut [u8], off: usize, t: &Ty, v: &Val) {
    match t {
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
            let n = t.store_size() as usize;
            let x = v.v().cval();
            for k in 0..n {
                buf[off + k] = (x >> (8 * k)) as u8;
            }
        }
        Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
            if let Val::A(l) = v {
                for (k, e) in l.iter().enumerate() {
                    write_const(buf, off + t.field_off(k) as usize, &t.field_ty(k), e);
                }
            }
        }
        _ => {}
    }
}
