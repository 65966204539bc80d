//! Flat concrete addresses, copy-on-write objects with symbolic bytes on top of concrete data.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, V>,
    pub kind: Kind,
}

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind) -> Obj {
        Obj { base, data: vec![0; size as usize], sym: BTreeMap::new(), kind }
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    #[inline]
    pub fn byte(&self, o: usize) -> V {
        if !self.sym.is_empty() {
            if let Some(v) = self.sym.get(&(o as u32)) {
                return *v;
            }
        }
        V::C(8, self.data[o] as u128)
    }
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym.range(o as u32..(o + n) as u32).next().is_some()
    }
    pub fn read(&self, o: usize, n: usize) -> V {
        if !self.has_sym(o, n) {
            let mut x = 0u128;
            for k in (0..n).rev() {
                x = x << 8 | self.data[o + k] as u128;
            }
            return V::C(8 * n as u32, x);
        }
        let mut p = Vec::with_capacity(n);
        for k in 0..n {
            p.push(self.byte(o + k));
        }
        concat(&p)
    }
    pub fn clear_sym(&mut self, o: usize, n: usize) {
        if self.sym.is_empty() || n == 0 {
            return;
        }
        let ks: Vec<u32> = self.sym.range(o as u32..(o + n) as u32).map(|(k, _)| *k).collect();
        for k in ks {
            self.sym.remove(&k);
        }
    }
    pub fn write_byte(&mut self, o: usize, v: V) {
        match v {
            V::C(_, c) => {
                self.data[o] = c as u8;
                if !self.sym.is_empty() {
                    self.sym.remove(&(o as u32));
                }
            }
            _ => {
                self.sym.insert(o as u32, v);
            }
        }
    }
    pub fn write(&mut self, o: usize, n: usize, v: V) {
        match v {
            V::C(_, c) => {
                for k in 0..n {
                    self.data[o + k] = (c >> (8 * k)) as u8;
                }
                self.clear_sym(o, n);
            }
            _ => {
                for k in 0..n {
                    self.write_byte(o + k, extract(v, 8 * k as u32, 8));
                }
            }
        }
    }
    /// copy of a byte range (concrete part, symbolic overlay relative to the range)
    pub fn slice(&self, o: usize, n: usize) -> (Vec<u8>, Vec<(u32, V)>) {
        let s = if self.sym.is_empty() { vec![] } else { self.sym.range(o as u32..(o + n) as u32).map(|(k, v)| (*k - o as u32, *v)).collect() };
        (self.data[o..o + n].to_vec(), s)
    }
    pub fn paste(&mut self, o: usize, d: &[u8], s: &[(u32, V)]) {
        self.data[o..o + d.len()].copy_from_slice(d);
        self.clear_sym(o, d.len());
        for (k, v) in s {
            self.sym.insert(*k + o as u32, *v);
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub globals: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub heap_next: u64,
    pub stack_next: u64,
    pub live_heap: u64,
}

pub const HEAP: u64 = 0x4000_0000_0000;
pub const STACK: u64 = 0x7000_0000_0000;

impl Mem {
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let align = align.max(16);
        let n = if kind == Kind::Heap { &mut self.heap_next } else { &mut self.stack_next };
        let base = (*n + align - 1) / align * align;
        *n = base + size + 32;
        self.objs.insert(base, Rc::new(Obj::new(base, size, kind)));
        base
    }
    pub fn find(&self, a: u64, n: u64) -> Option<&Rc<Obj>> {
        if a >= HEAP {
            let (_, o) = self.objs.range(..=a).next_back()?;
            return if fits(a, n, o) { Some(o) } else { None };
        }
        if let Some((_, o)) = self.objs.range(..=a).next_back() {
            if fits(a, n, o) {
                return Some(o);
            }
        }
        let (_, o) = self.globals.range(..=a).next_back()?;
        if fits(a, n, o) {
            Some(o)
        } else {
            None
        }
    }
    pub fn find_mut(&mut self, a: u64, n: u64) -> Option<&mut Obj> {
        let key = match self.objs.range(..=a).next_back() {
            Some((k, o)) if fits(a, n, o) => Some(*k),
            _ => None,
        };
        let key = match key {
            Some(k) => k,
            None => {
                if a >= HEAP {
                    return None;
                }
                let (k, o) = self.globals.range(..=a).next_back()?;
                if !fits(a, n, o) || o.kind == Kind::Const {
                    return None;
                }
                let (k, o) = (*k, o.clone());
                self.objs.insert(k, o);
                k
            }
        };
        Some(Rc::make_mut(self.objs.get_mut(&key).unwrap()))
    }
}

fn fits(a: u64, n: u64, o: &Obj) -> bool {
    let off = a - o.base;
    off <= o.size() && n <= o.size() - off
}
