//! Hash-consed bit-vector expressions over symbolic input bytes, with local simplification.
use crate::ir::{Bin, Pred};
use std::collections::HashMap;
use std::rc::Rc;

/// A scalar: a concrete constant or a reference to an expression node.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    C(u32, u128),
    S(u32, u32), // width, node id
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Var(u32), // one symbolic byte
    Bin(Bin, V, V),
    Cmp(Pred, V, V), // Eq, Ult, Slt (others are expressed through these)
    Ite(V, V, V),
    Extract(V, u32),     // lowest bit
    Concat(Rc<Vec<V>>),  // least significant piece first
    SExt(V),
    Table(Rc<Vec<u128>>, V), // 256 entries indexed by an 8-bit variable
}

pub struct Node {
    pub n: N,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub vars: Rc<Vec<u32>>,
}

pub struct Arena {
    pub nodes: Vec<&'static Node>,
    map: HashMap<(u32, N), u32>,
    none: Rc<Vec<u32>>,
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
pub fn arena() -> &'static mut Arena {
    unsafe { ARENA.get_or_insert_with(|| Arena { nodes: vec![], map: HashMap::new(), none: Rc::new(vec![]) }) }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_i128(x: u128, w: u32) -> i128 {
    if w >= 128 {
        return x as i128;
    }
    if w == 0 {
        return 0;
    }
    let s = 128 - w;
    ((x << s) as i128) >> s
}

fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if Rc::ptr_eq(a, b) || b.is_empty() {
        return a.clone();
    }
    if a.is_empty() {
        return b.clone();
    }
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if r.len() == a.len() {
        return a.clone();
    }
    if r.len() == b.len() {
        return b.clone();
    }
    Rc::new(r)
}

impl V {
    #[inline]
    pub fn c(w: u32, x: u128) -> V {
        V::C(w, x & mask(w))
    }
    pub fn b(x: bool) -> V {
        V::C(1, x as u128)
    }
    #[inline]
    pub fn w(&self) -> u32 {
        match self {
            V::C(w, _) | V::S(w, _) => *w,
        }
    }
    #[inline]
    pub fn is_c(&self) -> bool {
        matches!(self, V::C(..))
    }
    #[inline]
    pub fn cval(&self) -> u128 {
        match self {
            V::C(_, x) => *x,
            _ => panic!("concrete value expected"),
        }
    }
    #[inline]
    pub fn opt(&self) -> Option<u128> {
        match self {
            V::C(_, x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_true(&self) -> bool {
        matches!(self, V::C(1, 1))
    }
    pub fn is_false(&self) -> bool {
        matches!(self, V::C(1, 0))
    }
    pub fn node(&self) -> &'static N {
        match self {
            V::S(_, i) => &arena().nodes[*i as usize].n,
            _ => panic!("node of constant"),
        }
    }
    pub fn vars(&self) -> Rc<Vec<u32>> {
        match self {
            V::S(_, i) => arena().nodes[*i as usize].vars.clone(),
            _ => arena().none.clone(),
        }
    }
    pub fn range(&self) -> (u128, u128) {
        match self {
            V::C(_, x) => (*x, *x),
            V::S(_, i) => {
                let n = arena().nodes[*i as usize];
                (n.lo, n.hi)
            }
        }
    }
}

fn mk(w: u32, n: N) -> V {
    let a = arena();
    if let Some(i) = a.map.get(&(w, n.clone())) {
        let nd = a.nodes[*i as usize];
        return if nd.lo == nd.hi { V::C(w, nd.lo) } else { V::S(w, *i) };
    }
    let none = a.none.clone();
    let (vars, lo, hi) = {
        let m = mask(w);
        match &n {
            N::Var(v) => (Rc::new(vec![*v]), 0, 255),
            N::Bin(op, x, y) => {
                let (xl, xh) = x.range();
                let (yl, yh) = y.range();
                let (lo, hi) = match op {
                    Bin::Add => match (xh.checked_add(yh), xl.checked_add(yl)) {
                        (Some(h), Some(l)) if h <= m => (l, h),
                        _ => (0, m),
                    },
                    Bin::Sub => {
                        if xl >= yh {
                            (xl - yh, xh - yl)
                        } else {
                            (0, m)
                        }
                    }
                    Bin::Mul => match (xh.checked_mul(yh), xl.checked_mul(yl)) {
                        (Some(h), Some(l)) if h <= m => (l, h),
                        _ => (0, m),
                    },
                    Bin::UDiv => {
                        if yl > 0 {
                            (xl / yh, xh / yl)
                        } else {
                            (0, m)
                        }
                    }
                    Bin::URem => {
                        if yl > 0 {
                            (0, xh.min(yh - 1))
                        } else {
                            (0, m)
                        }
                    }
                    Bin::And => (0, xh.min(yh)),
                    Bin::Or => {
                        let b = 128 - (xh | yh).leading_zeros();
                        (xl.max(yl), mask(b))
                    }
                    Bin::Xor => {
                        let b = 128 - (xh | yh).leading_zeros();
                        (0, mask(b))
                    }
                    Bin::LShr => (0, xh),
                    _ => (0, m),
                };
                (union(&x.vars(), &y.vars()), lo, hi)
            }
            N::Cmp(_, x, y) => (union(&x.vars(), &y.vars()), 0, 1),
            N::Ite(c, x, y) => {
                let (xl, xh) = x.range();
                let (yl, yh) = y.range();
                (union(&c.vars(), &union(&x.vars(), &y.vars())), xl.min(yl), xh.max(yh))
            }
            N::Extract(x, lo_bit) => {
                let (_, xh) = x.range();
                if *lo_bit == 0 && xh <= m {
                    let (a, b) = x.range();
                    (x.vars(), a, b)
                } else if *lo_bit > 0 && (xh >> lo_bit) <= m {
                    let (a, b) = x.range();
                    (x.vars(), a >> lo_bit, b >> lo_bit)
                } else {
                    (x.vars(), 0, m)
                }
            }
            N::Concat(ps) => {
                let (mut lo, mut hi) = (0u128, 0u128);
                let mut sh = 0;
                let mut vs = none.clone();
                for p in ps.iter() {
                    let (a, b) = p.range();
                    lo |= a << sh;
                    hi |= b << sh;
                    sh += p.w();
                    vs = union(&vs, &p.vars());
                }
                (vs, lo, hi)
            }
            N::SExt(x) => (x.vars(), 0, m),
            N::Table(t, x) => (x.vars(), *t.iter().min().unwrap(), *t.iter().max().unwrap()),
        }
    };
    let id = a.nodes.len() as u32;
    a.map.insert((w, n.clone()), id);
    a.nodes.push(Box::leak(Box::new(Node { n, w, lo, hi, vars })));
    if lo == hi {
        // value is determined; keep the node but callers get the constant
        return V::C(w, lo);
    }
    V::S(w, id)
}

pub fn var(i: u32) -> V {
    mk(8, N::Var(i))
}

pub fn concat(pieces: &[V]) -> V {
    // least significant first
    let mut out: Vec<V> = Vec::with_capacity(pieces.len());
    fn push(out: &mut Vec<V>, p: V) {
        if p.w() == 0 {
            return;
        }
        if let V::S(_, _) = p {
            if let N::Concat(ps) = p.node() {
                for q in ps.iter() {
                    push1(out, *q);
                }
                return;
            }
        }
        push1(out, p);
    }
    fn push1(out: &mut Vec<V>, p: V) {
        if let Some(l) = out.last().copied() {
            match (l, p) {
                (V::C(w1, x1), V::C(w2, x2)) if w1 + w2 <= 128 => {
                    *out.last_mut().unwrap() = V::C(w1 + w2, x1 | (x2 << w1));
                    return;
                }
                (V::S(w1, _), V::S(w2, _)) => {
                    if let (N::Extract(b1, l1), N::Extract(b2, l2)) = (l.node(), p.node()) {
                        if b1 == b2 && l1 + w1 == *l2 {
                            *out.last_mut().unwrap() = extract(*b1, *l1, w1 + w2);
                            return;
                        }
                    }
                }
                _ => {}
            }
        }
        out.push(p);
    }
    for p in pieces {
        push(&mut out, *p);
    }
    if out.len() == 1 {
        return out[0];
    }
    let w: u32 = out.iter().map(|p| p.w()).sum();
    if w > 128 {
        panic!("concat wider than 128 bits");
    }
    mk(w, N::Concat(Rc::new(out)))
}

pub fn extract(x: V, lo: u32, w: u32) -> V {
    debug_assert!(lo + w <= x.w());
    if lo == 0 && w == x.w() {
        return x;
    }
    match x {
        V::C(_, c) => V::c(w, c >> lo),
        V::S(xw, _) => {
            match x.node() {
                N::Extract(b, l) => return extract(*b, l + lo, w),
                N::Concat(ps) => {
                    let mut off = 0;
                    let mut r = vec![];
                    for p in ps.iter() {
                        let (ps, pe) = (off, off + p.w());
                        let s = ps.max(lo);
                        let e = pe.min(lo + w);
                        if s < e {
                            r.push(extract(*p, s - ps, e - s));
                        }
                        off = pe;
                    }
                    return concat(&r);
                }
                N::Ite(c, a, b) => {
                    if a.is_c() || b.is_c() || w == 1 {
                        return ite(*c, extract(*a, lo, w), extract(*b, lo, w));
                    }
                }
                N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), a, b) => {
                    return bin(*op, extract(*a, lo, w), extract(*b, lo, w));
                }
                N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), a, b) if lo == 0 => {
                    return bin(*op, extract(*a, 0, w), extract(*b, 0, w));
                }
                N::SExt(a) => {
                    if lo + w <= a.w() {
                        return extract(*a, lo, w);
                    }
                    if lo == 0 {
                        return sext(*a, w);
                    }
                    if lo >= a.w() - 1 {
                        return sext(extract(*a, a.w() - 1, 1), w);
                    }
                }
                N::Table(t, v) => {
                    let t2: Vec<u128> = t.iter().map(|x| (x >> lo) & mask(w)).collect();
                    return table(t2, *v, w);
                }
                _ => {}
            }
            let (_, hi) = x.range();
            if lo < 128 && hi >> lo == 0 {
                return V::C(w, 0);
            }
            let _ = xw;
            mk(w, N::Extract(x, lo))
        }
    }
}

pub fn table(t: Vec<u128>, v: V, w: u32) -> V {
    if t.iter().all(|x| *x == t[0]) {
        return V::c(w, t[0]);
    }
    if w == 8 && t.iter().enumerate().all(|(i, x)| *x == i as u128) {
        return v;
    }
    mk(w, N::Table(Rc::new(t), v))
}

pub fn zext(x: V, w: u32) -> V {
    if w == x.w() {
        return x;
    }
    concat(&[x, V::C(w - x.w(), 0)])
}
pub fn sext(x: V, w: u32) -> V {
    if w == x.w() {
        return x;
    }
    match x {
        V::C(xw, c) => V::c(w, sext_i128(c, xw) as u128),
        V::S(xw, _) => {
            let (_, hi) = x.range();
            if hi >> (xw - 1) == 0 {
                return zext(x, w);
            }
            if let N::SExt(y) = x.node() {
                return sext(*y, w);
            }
            if let N::Ite(c, a, b) = x.node() {
                if a.is_c() && b.is_c() {
                    return ite(*c, sext(*a, w), sext(*b, w));
                }
            }
            if xw == 1 {
                return ite(x, V::c(w, !0), V::C(w, 0));
            }
            mk(w, N::SExt(x))
        }
    }
}
pub fn trunc(x: V, w: u32) -> V {
    extract(x, 0, w)
}

pub fn not(x: V) -> V {
    let w = x.w();
    match x {
        V::C(w, c) => V::c(w, !c),
        V::S(1, _) => {
            if let N::Ite(c, a, b) = x.node() {
                return ite(*c, not(*a), not(*b));
            }
            if let N::Bin(Bin::Xor, a, V::C(_, 1)) = x.node() {
                return *a;
            }
            mk(1, N::Bin(Bin::Xor, x, V::C(1, 1)))
        }
        _ => bin(Bin::Xor, x, V::c(w, !0)),
    }
}

pub fn ite(c: V, a: V, b: V) -> V {
    match c {
        V::C(_, x) => return if x == 1 { a } else { b },
        _ => {}
    }
    if a == b {
        return a;
    }
    if let N::Bin(Bin::Xor, k, V::C(1, 1)) = c.node() {
        return ite(*k, b, a);
    }
    if a.w() == 1 {
        match (a, b) {
            (V::C(_, 1), V::C(_, 0)) => return c,
            (V::C(_, 0), V::C(_, 1)) => return not(c),
            (V::C(_, 1), _) => return bin(Bin::Or, c, b),
            (V::C(_, 0), _) => return bin(Bin::And, not(c), b),
            (_, V::C(_, 1)) => return bin(Bin::Or, not(c), a),
            (_, V::C(_, 0)) => return bin(Bin::And, c, a),
            _ => {}
        }
    }
    if let V::S(..) = a {
        if let N::Ite(c2, a2, _) = a.node() {
            if *c2 == c {
                return ite(c, *a2, b);
            }
        }
    }
    if let V::S(..) = b {
        if let N::Ite(c2, _, b2) = b.node() {
            if *c2 == c {
                return ite(c, a, *b2);
            }
        }
    }
    mk(a.w(), N::Ite(c, a, b))
}

fn pieces(x: V) -> Vec<(u32, V)> {
    match x {
        V::C(w, _) => vec![(w, x)],
        V::S(w, _) => match x.node() {
            N::Concat(ps) => ps.iter().map(|p| (p.w(), *p)).collect(),
            _ => vec![(w, x)],
        },
    }
}
fn is_concat(x: V) -> bool {
    match x {
        V::S(..) => matches!(x.node(), N::Concat(_)),
        _ => false,
    }
}

/// cut points of the union of the piece boundaries of both values
fn cuts(a: V, b: V) -> Vec<u32> {
    let mut r = vec![];
    for x in [a, b] {
        let mut o = 0;
        for (w, _) in pieces(x) {
            o += w;
            r.push(o);
        }
    }
    r.sort_unstable();
    r.dedup();
    r
}

/// a and b have no bit position where both may be non-zero
fn disjoint_concat(a: V, b: V) -> Option<V> {
    if !is_concat(a) && !is_concat(b) {
        return None;
    }
    let mut o = 0;
    let mut out = vec![];
    for c in cuts(a, b) {
        let x = extract(a, o, c - o);
        let y = extract(b, o, c - o);
        match (x.opt(), y.opt()) {
            (Some(0), _) => out.push(y),
            (_, Some(0)) => out.push(x),
            _ => return None,
        }
        o = c;
    }
    Some(concat(&out))
}

fn concat_mul(x: V, w: u32, k: u32) -> V {
    // x << k
    if k >= w {
        return V::C(w, 0);
    }
    if k == 0 {
        return x;
    }
    concat(&[V::C(k, 0), extract(x, 0, w - k)])
}

pub fn bin(op: Bin, a: V, b: V) -> V {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let m = mask(w);
    if let (V::C(_, x), V::C(_, y)) = (a, b) {
        let (sx, sy) = (sext_i128(x, w), sext_i128(y, w));
        return V::c(
            w,
            match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => {
                    if y == 0 {
                        m
                    } else {
                        x / y
                    }
                }
                Bin::URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                Bin::SDiv => {
                    if sy == 0 {
                        0
                    } else {
                        sx.wrapping_div(sy) as u128
                    }
                }
                Bin::SRem => {
                    if sy == 0 {
                        x
                    } else {
                        sx.wrapping_rem(sy) as u128
                    }
                }
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx >> (y.min(w as u128 - 1) as u32)) as u128,
            },
        );
    }
    // constants to the right for commutative operators
    let (a, b) = match op {
        Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor if a.is_c() => (b, a),
        _ => (a, b),
    };
    if let V::C(_, c) = b {
        match op {
            Bin::Add => {
                if c == 0 {
                    return a;
                }
                if w == 1 {
                    return not(a);
                }
                if let V::S(..) = a {
                    if let N::Bin(Bin::Add, x, V::C(_, d)) = a.node() {
                        return bin(Bin::Add, *x, V::c(w, c.wrapping_add(*d)));
                    }
                    if let N::Ite(k, x, y) = a.node() {
                        if x.is_c() && y.is_c() {
                            return ite(*k, bin(op, *x, b), bin(op, *y, b));
                        }
                    }
                }
            }
            Bin::Sub => return bin(Bin::Add, a, V::c(w, c.wrapping_neg())),
            Bin::Mul => {
                if c == 0 {
                    return b;
                }
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return concat_mul(a, w, c.trailing_zeros());
                }
            }
            Bin::UDiv => {
                if c == 1 {
                    return a;
                }
                if c != 0 && c.is_power_of_two() {
                    return bin(Bin::LShr, a, V::c(w, c.trailing_zeros() as u128));
                }
            }
            Bin::URem => {
                if c != 0 && c.is_power_of_two() {
                    return bin(Bin::And, a, V::c(w, c - 1));
                }
            }
            Bin::And => {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                // constant mask: keep selected bit runs
                let mut runs = 1;
                let mut prev = c & 1;
                for i in 1..w {
                    let bit = (c >> i) & 1;
                    if bit != prev {
                        runs += 1;
                        prev = bit;
                    }
                }
                if runs <= 6 {
                    let mut out = vec![];
                    let mut i = 0;
                    while i < w {
                        let bit = (c >> i) & 1;
                        let mut j = i;
                        while j < w && (c >> j) & 1 == bit {
                            j += 1;
                        }
                        out.push(if bit == 1 { extract(a, i, j - i) } else { V::C(j - i, 0) });
                        i = j;
                    }
                    return concat(&out);
                }
            }
            Bin::Or => {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return b;
                }
                if let Some(r) = disjoint_concat(a, b) {
                    return r;
                }
            }
            Bin::Xor => {
                if c == 0 {
                    return a;
                }
                if w == 1 {
                    return not(a);
                }
                if let V::S(..) = a {
                    if let N::Bin(Bin::Xor, x, V::C(_, d)) = a.node() {
                        return bin(Bin::Xor, *x, V::c(w, c ^ *d));
                    }
                }
            }
            Bin::Shl => return if c >= w as u128 { V::C(w, 0) } else { concat_mul(a, w, c as u32) },
            Bin::LShr => {
                if c >= w as u128 {
                    return V::C(w, 0);
                }
                if c == 0 {
                    return a;
                }
                let k = c as u32;
                return concat(&[extract(a, k, w - k), V::C(k, 0)]);
            }
            Bin::AShr => {
                let k = c.min(w as u128 - 1) as u32;
                return sext(extract(a, k, w - k), w);
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Bin::Sub | Bin::Xor => return V::C(w, 0),
            Bin::And | Bin::Or => return a,
            _ => {}
        }
    }
    if w == 1 {
        match op {
            Bin::Add | Bin::Sub => return bin(Bin::Xor, a, b),
            Bin::Mul => return bin(Bin::And, a, b),
            _ => {}
        }
    }
    match op {
        Bin::Add | Bin::Or | Bin::Xor => {
            if let Some(r) = disjoint_concat(a, b) {
                return r;
            }
        }
        Bin::And if is_concat(a) || is_concat(b) => {
            // split when one side is constant in some piece
            let mut o = 0;
            let mut out = vec![];
            let mut gain = false;
            for c in cuts(a, b) {
                let x = extract(a, o, c - o);
                let y = extract(b, o, c - o);
                if x.is_c() || y.is_c() {
                    gain = true;
                }
                out.push((x, y));
                o = c;
            }
            if gain && out.len() > 1 {
                let r: Vec<V> = out.into_iter().map(|(x, y)| bin(Bin::And, x, y)).collect();
                return concat(&r);
            }
        }
        Bin::Shl | Bin::LShr | Bin::AShr => {
            if a.opt() == Some(0) {
                return a;
            }
        }
        _ => {}
    }
    // absorb: x & (x | y) etc. is left to the solver
    if matches!(op, Bin::And | Bin::Or) && w == 1 {
        if not(a) == b {
            return V::C(1, (op == Bin::Or) as u128);
        }
    }
    if let Bin::Sub = op {
        if let (V::S(..), V::S(..)) = (a, b) {
            // (x + c) - x
            if let N::Bin(Bin::Add, x, c @ V::C(..)) = a.node() {
                if *x == b {
                    return *c;
                }
                if let N::Bin(Bin::Add, y, d @ V::C(..)) = b.node() {
                    if x == y {
                        return bin(Bin::Sub, *c, *d);
                    }
                }
            }
            if let N::Bin(Bin::Add, x, y) = a.node() {
                if *x == b {
                    return *y;
                }
                if *y == b {
                    return *x;
                }
            }
            if let N::Bin(Bin::Add, x, c @ V::C(..)) = b.node() {
                if *x == a {
                    return bin(Bin::Sub, V::C(w, 0), *c);
                }
            }
        }
    }
    if let Bin::Add = op {
        // float constants to the top: (x + c) + y -> (x + y) + c
        for (p, q) in [(a, b), (b, a)] {
            if let V::S(..) = p {
                if let N::Bin(Bin::Add, x, c @ V::C(..)) = p.node() {
                    if !q.is_c() {
                        return bin(Bin::Add, bin(Bin::Add, *x, q), *c);
                    }
                }
                // (x - y) + y
                if let N::Bin(Bin::Sub, x, y) = p.node() {
                    if *y == q {
                        return *x;
                    }
                }
            }
        }
    }
    let (a, b) = match op {
        Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor => match (a, b) {
            (V::S(_, i), V::S(_, j)) if i > j => (b, a),
            _ => (a, b),
        },
        _ => (a, b),
    };
    mk(w, N::Bin(op, a, b))
}

pub fn and(a: V, b: V) -> V {
    bin(Bin::And, a, b)
}
pub fn or(a: V, b: V) -> V {
    bin(Bin::Or, a, b)
}

pub fn eq(a: V, b: V) -> V {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    if a == b {
        return V::b(true);
    }
    let (a, b) = if a.is_c() { (b, a) } else { (a, b) };
    if let (V::C(_, x), V::C(_, y)) = (a, b) {
        return V::b(x == y);
    }
    let (al, ah) = a.range();
    let (bl, bh) = b.range();
    if ah < bl || bh < al {
        return V::b(false);
    }
    if w == 1 {
        return match b {
            V::C(_, 1) => a,
            V::C(_, 0) => not(a),
            _ => not(bin(Bin::Xor, a, b)),
        };
    }
    if is_concat(a) || is_concat(b) {
        let mut o = 0;
        let mut r = V::b(true);
        for c in cuts(a, b) {
            let e = eq(extract(a, o, c - o), extract(b, o, c - o));
            r = and(r, e);
            if r.is_false() {
                return r;
            }
            o = c;
        }
        return r;
    }
    if let V::C(_, c) = b {
        match a.node() {
            N::Bin(Bin::Add, x, V::C(_, d)) => return eq(*x, V::c(w, c.wrapping_sub(*d))),
            N::Bin(Bin::Xor, x, V::C(_, d)) => return eq(*x, V::c(w, c ^ *d)),
            N::Bin(Bin::Sub, x, y) if c == 0 => return eq(*x, *y),
            N::Bin(Bin::Xor, x, y) if c == 0 => return eq(*x, *y),
            N::Bin(Bin::Or, x, y) if c == 0 => return and(eq(*x, b), eq(*y, b)),
            N::Bin(Bin::Sub, x @ V::C(..), y) => return eq(*y, bin(Bin::Sub, *x, b)),
            N::Ite(k, x, y) if x.is_c() || y.is_c() => return ite(*k, eq(*x, b), eq(*y, b)),
            N::SExt(x) => {
                let t = c & mask(x.w());
                if sext_i128(t, x.w()) as u128 & mask(w) != c {
                    return V::b(false);
                }
                return eq(*x, V::c(x.w(), t));
            }
            N::Table(t, v) => {
                let t2: Vec<u128> = t.iter().map(|x| (*x == c) as u128).collect();
                return table(t2, *v, 1);
            }
            _ => {}
        }
    } else {
        // x + c == y + d, x + y == x + z
        if let (N::Bin(Bin::Add, x, y), N::Bin(Bin::Add, p, q)) = (a.node(), b.node()) {
            if x == p {
                return eq(*y, *q);
            }
            if y == q {
                return eq(*x, *p);
            }
            if x == q {
                return eq(*y, *p);
            }
            if y == p {
                return eq(*x, *q);
            }
        }
        if let N::Bin(Bin::Add, x, c @ V::C(..)) = a.node() {
            if *x == b {
                return V::b(c.cval() == 0);
            }
        }
        if let N::Bin(Bin::Add, x, c @ V::C(..)) = b.node() {
            if *x == a {
                return V::b(c.cval() == 0);
            }
        }
    }
    let (a, b) = match (a, b) {
        (V::S(_, i), V::S(_, j)) if i > j => (b, a),
        _ => (a, b),
    };
    mk(1, N::Cmp(Pred::Eq, a, b))
}

fn top_zero(x: V) -> bool {
    let (_, h) = x.range();
    h >> (x.w() - 1) == 0
}

pub fn ult(a: V, b: V) -> V {
    let w = a.w();
    if a == b {
        return V::b(false);
    }
    let (al, ah) = a.range();
    let (bl, bh) = b.range();
    if ah < bl {
        return V::b(true);
    }
    if al >= bh {
        return V::b(false);
    }
    if w == 1 {
        return and(not(a), b);
    }
    // common known-zero high part
    let hi = ah.max(bh);
    let need = (128 - hi.leading_zeros()).max(1);
    if need < w {
        return ult(extract(a, 0, need), extract(b, 0, need));
    }
    if let V::C(_, 1) = b {
        return eq(a, V::C(w, 0));
    }
    if let V::C(_, 0) = a {
        return not(eq(b, V::C(w, 0)));
    }
    // common low constant part: both have zero low pieces
    if let (V::S(..), V::S(..)) = (a, b) {
        if let (N::Concat(p), N::Concat(q)) = (a.node(), b.node()) {
            if let (V::C(w1, 0), V::C(w2, 0)) = (p[0], q[0]) {
                let k = w1.min(w2);
                return ult(extract(a, k, w - k), extract(b, k, w - k));
            }
        }
    }
    for (x, c, lt) in [(a, b, true), (b, a, false)] {
        if let (V::S(..), V::C(..)) = (x, c) {
            if let N::Ite(k, p, q) = x.node() {
                if p.is_c() || q.is_c() {
                    return if lt { ite(*k, ult(*p, c), ult(*q, c)) } else { ite(*k, ult(c, *p), ult(c, *q)) };
                }
            }
            if let N::Table(t, v) = x.node() {
                let cv = c.cval();
                let t2: Vec<u128> = t.iter().map(|y| if lt { *y < cv } else { cv < *y } as u128).collect();
                return table(t2, *v, 1);
            }
        }
    }
    mk(1, N::Cmp(Pred::Ult, a, b))
}
pub fn slt(a: V, b: V) -> V {
    let w = a.w();
    if a == b {
        return V::b(false);
    }
    if let (V::C(_, x), V::C(_, y)) = (a, b) {
        return V::b(sext_i128(x, w) < sext_i128(y, w));
    }
    if top_zero(a) && top_zero(b) {
        return ult(a, b);
    }
    if let V::C(_, 0) = b {
        return extract(a, w - 1, 1);
    }
    if let V::C(_, c) = b {
        if let V::S(..) = a {
            if c == 0 {
                return extract(a, w - 1, 1);
            }
        }
    }
    if let V::C(_, c) = a {
        if c == mask(w) {
            return not(extract(b, w - 1, 1));
        }
    }
    for (x, c, lt) in [(a, b, true), (b, a, false)] {
        if let (V::S(..), V::C(..)) = (x, c) {
            if let N::Ite(k, p, q) = x.node() {
                if p.is_c() || q.is_c() {
                    return if lt { ite(*k, slt(*p, c), slt(*q, c)) } else { ite(*k, slt(c, *p), slt(c, *q)) };
                }
            }
        }
    }
    mk(1, N::Cmp(Pred::Slt, a, b))
}

pub fn cmp(p: Pred, a: V, b: V) -> V {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ult => ult(a, b),
        Pred::Ugt => ult(b, a),
        Pred::Ule => not(ult(b, a)),
        Pred::Uge => not(ult(a, b)),
        Pred::Slt => slt(a, b),
        Pred::Sgt => slt(b, a),
        Pred::Sle => not(slt(b, a)),
        Pred::Sge => not(slt(a, b)),
    }
}

/// Conjuncts of a boolean.
pub fn conjuncts(x: V, out: &mut Vec<V>) {
    if let V::S(1, _) = x {
        match x.node() {
            N::Bin(Bin::And, a, b) => {
                conjuncts(*a, out);
                conjuncts(*b, out);
                return;
            }
            // not (a | b)
            N::Bin(Bin::Xor, k, V::C(_, 1)) => {
                if let V::S(..) = k {
                    if let N::Bin(Bin::Or, a, b) = k.node() {
                        conjuncts(not(*a), out);
                        conjuncts(not(*b), out);
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    out.push(x);
}

/// Evaluate under an assignment, with a memo table.
pub struct Evaluator {
    pub memo: HashMap<u32, u128>,
}
impl Evaluator {
    pub fn new() -> Self {
        Evaluator { memo: HashMap::new() }
    }
    pub fn eval<F: Fn(u32) -> u8>(&mut self, x: V, f: &F) -> u128 {
        match x {
            V::C(_, c) => c,
            V::S(w, id) => {
                let n = arena().nodes[id as usize];
                if let N::Var(v) = n.n {
                    return f(v) as u128;
                }
                if let Some(r) = self.memo.get(&id) {
                    return *r;
                }
                let r = match &n.n {
                    N::Var(_) => unreachable!(),
                    N::Bin(op, a, b) => {
                        let x = self.eval(*a, f);
                        let y = self.eval(*b, f);
                        bin(*op, V::C(w, x), V::C(w, y)).cval()
                    }
                    N::Cmp(p, a, b) => {
                        let wa = a.w();
                        let x = self.eval(*a, f);
                        let y = self.eval(*b, f);
                        (match p {
                            Pred::Eq => x == y,
                            Pred::Ult => x < y,
                            _ => sext_i128(x, wa) < sext_i128(y, wa),
                        }) as u128
                    }
                    N::Ite(c, a, b) => {
                        if self.eval(*c, f) == 1 {
                            self.eval(*a, f)
                        } else {
                            self.eval(*b, f)
                        }
                    }
                    N::Extract(a, lo) => (self.eval(*a, f) >> lo) & mask(w),
                    N::Concat(ps) => {
                        let mut r = 0u128;
                        let mut sh = 0;
                        for p in ps.iter() {
                            r |= self.eval(*p, f) << sh;
                            sh += p.w();
                        }
                        r
                    }
                    N::SExt(a) => sext_i128(self.eval(*a, f), a.w()) as u128 & mask(w),
                    N::Table(t, v) => t[self.eval(*v, f) as usize],
                };
                self.memo.insert(id, r);
                r
            }
        }
    }
}

/// Substitute known variable values.
pub fn subst(x: V, known: &HashMap<u32, u8>, memo: &mut HashMap<u32, V>) -> V {
    match x {
        V::C(..) => x,
        V::S(w, id) => {
            let n = arena().nodes[id as usize];
            if !n.vars.iter().any(|v| known.contains_key(v)) {
                return x;
            }
            if let Some(r) = memo.get(&id) {
                return *r;
            }
            let nn = n.n.clone();
            let r = match &nn {
                N::Var(v) => V::C(8, known[v] as u128),
                N::Bin(op, a, b) => {
                    let (p, q) = (subst(*a, known, memo), subst(*b, known, memo));
                    bin(*op, p, q)
                }
                N::Cmp(p, a, b) => {
                    let (c, d) = (subst(*a, known, memo), subst(*b, known, memo));
                    cmp(*p, c, d)
                }
                N::Ite(c, a, b) => {
                    let (c, a, b) = (subst(*c, known, memo), subst(*a, known, memo), subst(*b, known, memo));
                    ite(c, a, b)
                }
                N::Extract(a, lo) => extract(subst(*a, known, memo), *lo, w),
                N::Concat(ps) => {
                    let l: Vec<V> = ps.iter().map(|p| subst(*p, known, memo)).collect();
                    concat(&l)
                }
                N::SExt(a) => sext(subst(*a, known, memo), w),
                N::Table(t, v) => match subst(*v, known, memo) {
                    V::C(_, i) => V::C(w, t[i as usize]),
                    y => table(t.to_vec(), y, w),
                },
            };
            memo.insert(id, r);
            r
        }
    }
}

pub fn show(x: V, depth: u32) -> String {
    match x {
        V::C(w, c) => format!("{}:{}", c, w),
        V::S(w, id) => {
            if depth == 0 {
                return format!("n{}:{}", id, w);
            }
            let d = depth - 1;
            match x.node() {
                N::Var(v) => format!("v{}", v),
                N::Bin(op, a, b) => format!("({:?} {} {})", op, show(*a, d), show(*b, d)),
                N::Cmp(op, a, b) => format!("({:?} {} {})", op, show(*a, d), show(*b, d)),
                N::Ite(c, a, b) => format!("(ite {} {} {})", show(*c, d), show(*a, d), show(*b, d)),
                N::Extract(a, lo) => format!("{}[{}+{}]", show(*a, d), lo, w),
                N::Concat(ps) => format!("<{}>", ps.iter().map(|p| show(*p, d)).collect::<Vec<_>>().join("|")),
                N::SExt(a) => format!("(sext{} {})", w, show(*a, d)),
                N::Table(_, v) => format!("tab[{}]", show(*v, d)),
            }
        }
    }
}
