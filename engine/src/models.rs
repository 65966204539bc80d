//! Models of libc, LLVM intrinsics and the harness intrinsics (sx_*).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

const EIO: u64 = 5;
const EBADF: u64 = 9;
const EINVAL: u64 = 22;
const ENOENT: u64 = 2;
const ENOSYS: u64 = 38;

fn a(args: &[Val], i: usize) -> V {
    args[i].v()
}

impl Engine {
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        self.finish_call(st, Some(Val::V(v)))
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        let p = st.errno;
        self.store_n(st, p, 4, V::C(32, e as u128))
    }
    fn fail(&mut self, st: &mut State, e: u64) -> R<()> {
        self.set_errno(st, e)?;
        self.ret(st, V::c(64, !0))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = match st.mem.find(s, n) {
            Some(o) => o.slice((s - o.base) as usize, n as usize),
            None => return self.err(&format!("copy from unmapped {:#x}+{}", s, n)),
        };
        let sym: Vec<(u32, V)> = sym.into_iter().map(|(k, v)| (k, self.sol.simp_load(&st.path, v))).collect();
        match st.mem.find_mut(d, n) {
            Some(o) => {
                let off = (d - o.base) as usize;
                o.paste(off, &data, &[]);
                for (k, v) in sym {
                    o.write_byte(off + k as usize, v);
                }
                Ok(())
            }
            None => self.err(&format!("copy to unmapped {:#x}+{}", d, n)),
        }
    }

    fn get_bytes(&mut self, st: &mut State, p: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match st.mem.find(p, n) {
            Some(o) => {
                let b = (p - o.base) as usize;
                Ok((0..n as usize).map(|k| o.byte(b + k)).collect())
            }
            None => self.err(&format!("read of unmapped {:#x}+{}", p, n)),
        }
    }
    fn c_str(&mut self, st: &mut State, p: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        loop {
            let b = self.load_n(st, p + r.len() as u64, 1)?;
            match b.opt() {
                Some(0) => return Ok(r),
                Some(c) => r.push(c as u8),
                None => return self.err("symbolic C string"),
            }
        }
    }

    fn heap(&mut self, st: &mut State, size: V, align: u64, zero: bool, old: Option<(u64, u64)>) -> R<()> {
        let size = self.sol.simp(&st.path, size);
        let lim = if st.alloc_limit > 0 { st.alloc_limit } else { 1 << 28 };
        let over = ult(V::C(64, lim as u128), size);
        if !over.is_false() {
            if self.decide(st, over)? {
                return Err(End::Viol("alloc".into(), format!("allocation of more than {} bytes requested in {}", lim, self.crate_frame(st))));
            }
        }
        let n = self.conc(st, size)? as u64;
        let p = st.mem.alloc(n, align.max(16), Kind::Heap);
        let _ = zero;
        if let Some((op, os)) = old {
            self.copy(st, p, op, os.min(n))?;
            st.mem.objs.remove(&op);
        }
        self.ret(st, V::C(64, p as u128))
    }

    pub fn crate_frame(&self, st: &State) -> String {
        for fr in st.frames.iter().rev() {
            let d = demangle(&fr.f.name);
            if d.contains("mp4ameta") {
                return d;
            }
        }
        "?".into()
    }

    /// Is this operation hit by the fault?  Forks when its number is symbolic; must come after
    /// every other decision of the operation.
    fn fault_hit(&mut self, st: &mut State, kind: u64) -> R<Option<u64>> {
        if st.fault.mode == 0 || st.fault.kinds & kind == 0 {
            return Ok(None);
        }
        let at = match st.fault.at {
            Some(v) => v,
            None => return Ok(None),
        };
        let n = V::C(64, (st.fault.count + 1) as u128);
        let q = if st.fault.sticky { not(ult(n, at)) } else { eq(at, n) };
        let hit = self.decide(st, q)?;
        st.fault.count += 1;
        Ok(if hit { Some(st.fault.mode) } else { None })
    }

    fn fd(&mut self, st: &State, v: V) -> R<Option<usize>> {
        match v.opt() {
            Some(x) => {
                let k = (x as u32 as i32) - 10;
                if k >= 0 && (k as usize) < st.fds.len() && st.fds[k as usize].open {
                    // a duplicate shares the position of its original
                    Ok(Some(st.fds[k as usize].same.unwrap_or(k as usize)))
                } else {
                    Ok(None)
                }
            }
            None => self.err("symbolic file descriptor"),
        }
    }

    /// the memory of a read or write: one buffer or several
    fn iovecs(&mut self, st: &mut State, name: &str, args: &[Val]) -> R<Vec<(u64, u64)>> {
        let mut r = vec![];
        if name.ends_with('v') {
            let p = self.addr(st, a(args, 1))?;
            let c = self.conc(st, a(args, 2))? as u64;
            for k in 0..c {
                let b = self.load_n(st, p + 16 * k, 8)?;
                let n = self.load_n(st, p + 16 * k + 8, 8)?;
                let n = self.conc(st, n)? as u64;
                let b = if n == 0 { 0 } else { self.addr(st, b)? };
                r.push((b, n));
            }
        } else {
            let n = self.conc(st, a(args, 2))? as u64;
            let b = self.addr(st, a(args, 1))?;
            r.push((b, n));
        }
        Ok(r)
    }

    pub fn model(&mut self, st: &mut State, name: &str, args: Vec<Val>, rty: &Ty) -> R<()> {
        if let Some(n) = name.strip_prefix("llvm.") {
            let n = n.to_string();
            return self.llvm(st, &n, args, rty);
        }
        match name {
            // ---- harness intrinsics
            "sx_symbolic" => {
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                for k in 0..n {
                    let id = st.path.nvars;
                    st.path.nvars += 1;
                    self.grow_model(st);
                    self.store_n(st, p + k, 1, var(id))?;
                }
                self.finish_call(st, None)
            }
            "sx_choose" => {
                let n = self.conc(st, a(&args, 0))?;
                if n == 0 || n > 256 {
                    return self.err("sx_choose bound");
                }
                // one input byte; the choice is enumerated right away by forking
                let id = st.path.nvars;
                st.path.nvars += 1;
                self.grow_model(st);
                let v = var(id);
                if n < 256 {
                    let q = ult(v, V::C(8, n));
                    let b = match self.sat(&st.path, q, "choose")? {
                        Some(b) => b,
                        None => return self.err("choose"),
                    };
                    self.sol.assume(&mut st.path, q, &b);
                }
                for k in 1..n {
                    let q = eq(v, V::C(8, k));
                    let mut o = st.clone();
                    self.sol.assume(&mut o.path, q, &[(id, k as u8)]);
                    self.forks += 1;
                    o.forks += 1;
                    self.finish_call(&mut o, Some(Val::V(V::C(64, k))))?;
                    self.work.push(o);
                }
                self.sol.assume(&mut st.path, eq(v, V::C(8, 0)), &[(id, 0)]);
                self.ret(st, V::C(64, 0))
            }
            "sx_assume" => {
                let c = not(eq(a(&args, 0), V::C(64, 0)));
                let c = self.sol.simp(&st.path, c);
                if c.is_true() {
                    return self.finish_call(st, None);
                }
                match self.sat(&st.path, c, "assume")? {
                    None => Err(End::Assumed),
                    Some(b) => {
                        self.sol.assume(&mut st.path, c, &b);
                        self.finish_call(st, None)
                    }
                }
            }
            "sx_assert" => {
                self.asserts += 1;
                let c = not(eq(a(&args, 0), V::C(64, 0)));
                let c = self.sol.simp(&st.path, c);
                let id = self.conc(st, a(&args, 1))?;
                if c.is_true() {
                    return self.finish_call(st, None);
                }
                self.assert_queries += 1;
                if let Some(b) = self.sat(&st.path, not(c), "assert")? {
                    let mut o = st.clone();
                    self.sol.assume(&mut o.path, not(c), &b);
                    self.violation(&o, "assert", &format!("{}", id));
                }
                match self.sat(&st.path, c, "assert")? {
                    None => Err(End::Assumed),
                    Some(b) => {
                        self.sol.assume(&mut st.path, c, &b);
                        self.finish_call(st, None)
                    }
                }
            }
            "sx_reach" => {
                let id = self.conc(st, a(&args, 0))? as u64;
                st.reached.push(id);
                self.finish_call(st, None)
            }
            "sx_expect" => {
                let id = self.conc(st, a(&args, 0))? as u64;
                self.expect.insert(id);
                self.finish_call(st, None)
            }
            "sx_trace" => {
                st.trace.push(a(&args, 0));
                self.finish_call(st, None)
            }
            "sx_trace_bytes" => {
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let l = self.get_bytes(st, p, n)?;
                st.trace.push(V::C(64, n as u128));
                for c in l.chunks(8) {
                    let v = concat(c);
                    st.trace.push(zext(v, 64));
                }
                self.finish_call(st, None)
            }
            "sx_concretize" => {
                let v = self.conc(st, a(&args, 0))?;
                self.ret(st, V::C(64, v))
            }
            "sx_part" => self.ret(st, V::C(64, self.part as u128)),
            "sx_tier" => self.ret(st, V::C(64, self.tier as u128)),
            "sx_alloc_limit" => {
                st.alloc_limit = self.conc(st, a(&args, 0))? as u64;
                self.finish_call(st, None)
            }
            "sx_string_layout" => {
                let p = self.addr(st, a(&args, 0))?;
                for k in 0..3 {
                    self.string_layout[k] = self.load_n(st, p + 8 * k as u64, 8)?.cval() as u64;
                }
                self.finish_call(st, None)
            }
            "sx_stub_fmt" => {
                self.finish_call(st, None)
            }
            "sx_file" => {
                // (path, path_len, data, len) -> nothing; creates or replaces a virtual file
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let d = self.addr(st, a(&args, 2))?;
                let l = self.conc(st, a(&args, 3))? as u64;
                let path = self.get_bytes(st, p, n)?;
                let path: Vec<u8> = path.iter().map(|v| v.cval() as u8).collect();
                let path = String::from_utf8_lossy(&path).into_owned();
                let mut o = Obj::new(0, l, Kind::Heap);
                for (k, v) in self.get_bytes(st, d, l)?.into_iter().enumerate() {
                    o.write_byte(k, v);
                }
                let f = VFile { path: path.clone(), o: Rc::new(o), exists: true, gap: (0, 0), dirty: false };
                match st.files.iter().position(|x| x.path == path) {
                    Some(k) => st.files[k] = f,
                    None => st.files.push(f),
                }
                self.finish_call(st, None)
            }
            "sx_file_len" => {
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let path: Vec<u8> = self.get_bytes(st, p, n)?.iter().map(|v| v.cval() as u8).collect();
                let path = String::from_utf8_lossy(&path).into_owned();
                let r = match st.files.iter().find(|x| x.path == path && x.exists) {
                    Some(f) => f.size(),
                    None => !0,
                };
                self.ret(st, V::C(64, r as u128))
            }
            "sx_gap" => {
                // (path, path_len, at, len): len unstored zeros at a position of a file
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let at = self.conc(st, a(&args, 2))? as u64;
                let l = self.conc(st, a(&args, 3))? as u64;
                let path: Vec<u8> = self.get_bytes(st, p, n)?.iter().map(|v| v.cval() as u8).collect();
                let path = String::from_utf8_lossy(&path).into_owned();
                match st.files.iter_mut().find(|x| x.path == path && x.exists) {
                    Some(f) if at <= f.o.size() && f.gap.1 == 0 => f.gap = (at, l),
                    _ => return self.err("sx_gap"),
                }
                self.finish_call(st, None)
            }
            "sx_ungap" => {
                // (path, path_len, at, len) -> 1 if the file had the gap, which is removed
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let at = self.conc(st, a(&args, 2))? as u64;
                let l = self.conc(st, a(&args, 3))? as u64;
                let path: Vec<u8> = self.get_bytes(st, p, n)?.iter().map(|v| v.cval() as u8).collect();
                let path = String::from_utf8_lossy(&path).into_owned();
                let r = match st.files.iter_mut().find(|x| x.path == path && x.exists) {
                    Some(f) if f.gap == (at, l) && !f.dirty => {
                        f.gap = (0, 0);
                        1
                    }
                    Some(_) => 0,
                    None => return self.err("sx_ungap: no such file"),
                };
                self.ret(st, V::C(64, r))
            }
            "sx_file_get" => {
                let p = self.addr(st, a(&args, 0))?;
                let n = self.conc(st, a(&args, 1))? as u64;
                let d = self.addr(st, a(&args, 2))?;
                let l = self.conc(st, a(&args, 3))? as u64;
                let path: Vec<u8> = self.get_bytes(st, p, n)?.iter().map(|v| v.cval() as u8).collect();
                let path = String::from_utf8_lossy(&path).into_owned();
                let o = match st.files.iter().find(|x| x.path == path && x.exists) {
                    Some(f) => f.o.clone(),
                    None => return self.err("sx_file_get: no such file"),
                };
                if st.files.iter().any(|x| x.path == path && x.gap.1 > 0) {
                    return self.err("sx_file_get: a file with a gap");
                }
                for k in 0..l.min(o.size()) {
                    let b = o.byte(k as usize);
                    self.store_n(st, d + k, 1, b)?;
                }
                self.finish_call(st, None)
            }
            "sx_fault" => {
                let mode = self.conc(st, a(&args, 0))? as u64;
                let kinds = self.conc(st, a(&args, 1))? as u64;
                let at = Some(a(&args, 2));
                let sticky = self.conc(st, a(&args, 3))? as u64;
                st.fault = Fault { mode, at, kinds, count: 0, sticky: sticky != 0 };
                self.finish_call(st, None)
            }
            "sx_fault_count" => {
                let c = st.fault.count;
                self.ret(st, V::C(64, c as u128))
            }
            // ---- memory
            "malloc" => self.heap(st, a(&args, 0), 16, false, None),
            "calloc" => {
                let n = bin(Bin::Mul, a(&args, 0), a(&args, 1));
                self.heap(st, n, 16, true, None)
            }
            "posix_memalign" | "aligned_alloc" => {
                let out = a(&args, 0);
                let al = self.conc(st, a(&args, 1))? as u64;
                let n = self.conc(st, a(&args, 2))? as u64;
                let out = self.addr(st, out)?;
                let p = st.mem.alloc(n, al, Kind::Heap);
                self.store_n(st, out, 8, V::C(64, p as u128))?;
                self.ret(st, V::C(32, 0))
            }
            "realloc" => {
                let p = self.addr(st, a(&args, 0))?;
                let os = match st.mem.objs.get(&p) {
                    Some(o) => o.size(),
                    None => return self.err("realloc of a bad pointer"),
                };
                self.heap(st, a(&args, 1), 16, false, Some((p, os)))
            }
            "free" => {
                let p = self.addr(st, a(&args, 0))?;
                if p != 0 && st.mem.objs.remove(&p).is_none() {
                    return self.err("free of a bad pointer");
                }
                self.finish_call(st, None)
            }
            "bcmp" | "memcmp" => {
                let (p, q) = (a(&args, 0), a(&args, 1));
                let n = self.conc(st, a(&args, 2))? as u64;
                if n == 0 {
                    return self.ret(st, V::C(32, 0));
                }
                let (p, q) = (self.addr(st, p)?, self.addr(st, q)?);
                let x = self.get_bytes(st, p, n)?;
                let y = self.get_bytes(st, q, n)?;
                let mut r = V::C(32, 0);
                if name == "bcmp" {
                    let mut e = V::b(true);
                    for k in 0..n as usize {
                        if x[k] != y[k] {
                            e = and(e, eq(x[k], y[k]));
                        }
                    }
                    r = ite(e, r, V::C(32, 1));
                } else {
                    for k in (0..n as usize).rev() {
                        if x[k] != y[k] {
                            r = ite(eq(x[k], y[k]), r, ite(ult(x[k], y[k]), V::c(32, !0), V::C(32, 1)));
                        }
                    }
                }
                self.ret(st, r)
            }
            "strlen" => {
                let p = self.addr(st, a(&args, 0))?;
                let s = self.c_str(st, p)?;
                self.ret(st, V::C(64, s.len() as u128))
            }
            "memchr" | "memrchr" => {
                let p = self.addr(st, a(&args, 0))?;
                let c = extract(a(&args, 1), 0, 8);
                let n = self.conc(st, a(&args, 2))? as u64;
                let l = self.get_bytes(st, p, n)?;
                let ord: Vec<usize> = if name == "memchr" { (0..n as usize).collect() } else { (0..n as usize).rev().collect() };
                for k in ord {
                    if self.decide(st, eq(l[k], c))? {
                        return self.ret(st, V::C(64, (p + k as u64) as u128));
                    }
                }
                self.ret(st, V::C(64, 0))
            }
            "memcpy" | "memmove" => {
                let n = self.conc(st, a(&args, 2))? as u64;
                let d = self.addr(st, a(&args, 0))?;
                let s = self.addr(st, a(&args, 1))?;
                self.copy(st, d, s, n)?;
                self.ret(st, V::C(64, d as u128))
            }
            "__errno_location" => {
                let e = st.errno;
                self.ret(st, V::C(64, e as u128))
            }
            "getenv" | "secure_getenv" => self.ret(st, V::C(64, 0)),
            "abort" => Err(End::Panic("abort".into())),
            // ---- files
            "open64" | "open" => {
                let p = self.addr(st, a(&args, 0))?;
                let path = String::from_utf8_lossy(&self.c_str(st, p)?).into_owned();
                let flags = self.conc(st, a(&args, 1))? as u64;
                let k = match st.files.iter().position(|f| f.path == path) {
                    Some(k) => k,
                    None => {
                        st.files.push(VFile { path, o: Rc::new(Obj::new(0, 0, Kind::Heap)), exists: false, gap: (0, 0), dirty: false });
                        st.files.len() - 1
                    }
                };
                if !st.files[k].exists {
                    if flags & 0o100 == 0 {
                        self.set_errno(st, ENOENT)?;
                        return self.ret(st, V::c(32, !0));
                    }
                    st.files[k].exists = true;
                    st.files[k].gap = (0, 0);
                    st.files[k].o = Rc::new(Obj::new(0, 0, Kind::Heap));
                } else if flags & 0o200 != 0 && flags & 0o100 != 0 {
                    self.set_errno(st, 17)?;
                    return self.ret(st, V::c(32, !0));
                }
                if flags & 0o1000 != 0 {
                    st.files[k].gap = (0, 0);
                    st.files[k].o = Rc::new(Obj::new(0, 0, Kind::Heap));
                }
                st.fds.push(Fd { file: k, pos: V::C(64, 0), open: true, append: flags & 0o2000 != 0, rd: flags & 3 != 1, wr: flags & 3 != 0, same: None });
                let n = 10 + st.fds.len() as u128 - 1;
                self.ret(st, V::C(32, n))
            }
            "close" => {
                let v = a(&args, 0);
                match self.fd(st, v)? {
                    Some(_) => {
                        let k = (v.cval() as u32 - 10) as usize;
                        st.fds[k].open = false;
                        self.ret(st, V::C(32, 0))
                    }
                    None => {
                        self.set_errno(st, EBADF)?;
                        self.ret(st, V::c(32, !0))
                    }
                }
            }
            "fcntl" | "fcntl64" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) => k,
                    None => {
                        self.set_errno(st, EBADF)?;
                        return self.ret(st, V::c(32, !0));
                    }
                };
                match self.conc(st, a(&args, 1))? {
                    0 | 1030 => {
                        let mut d = st.fds[k].clone();
                        d.same = Some(k);
                        d.open = true;
                        st.fds.push(d);
                        let n = 10 + st.fds.len() as u128 - 1;
                        self.ret(st, V::C(32, n))
                    }
                    1 | 2 => self.ret(st, V::C(32, 1)),
                    3 => {
                        let f = match (st.fds[k].rd, st.fds[k].wr) {
                            (true, true) => 2,
                            (false, _) => 1,
                            _ => 0,
                        };
                        self.ret(st, V::C(32, f))
                    }
                    _ => self.err("fcntl"),
                }
            }
            "getrandom" | "syscall" if name == "getrandom" || a(&args, 0).opt() == Some(318) => {
                let k = (name == "syscall") as usize;
                let p = self.addr(st, a(&args, k))?;
                let n = self.conc(st, a(&args, k + 1))? as u64;
                for k in 0..n {
                    self.store_n(st, p + k, 1, V::C(8, 0))?;
                }
                self.ret(st, V::C(64, n as u128))
            }
            "rename" | "unlink" => {
                let p = self.addr(st, a(&args, 0))?;
                let path = String::from_utf8_lossy(&self.c_str(st, p)?).into_owned();
                let k = match st.files.iter().position(|f| f.path == path && f.exists) {
                    Some(k) => k,
                    None => {
                        self.set_errno(st, ENOENT)?;
                        return self.ret(st, V::c(32, !0));
                    }
                };
                let mut to = String::from("\0");
                if name == "rename" {
                    let q = self.addr(st, a(&args, 1))?;
                    to = String::from_utf8_lossy(&self.c_str(st, q)?).into_owned();
                    // what was there lives on without a name
                    for (j, f) in st.files.iter_mut().enumerate() {
                        if j != k && f.path == to {
                            f.path = String::from("\0");
                        }
                    }
                }
                st.files[k].path = to;
                self.ret(st, V::C(32, 0))
            }
            "stat64" | "lstat64" | "stat" | "lstat" => {
                let p = self.addr(st, a(&args, 0))?;
                let path = String::from_utf8_lossy(&self.c_str(st, p)?).into_owned();
                let size = match st.files.iter().find(|f| f.path == path && f.exists) {
                    Some(f) => f.size(),
                    None => {
                        self.set_errno(st, ENOENT)?;
                        return self.ret(st, V::c(32, !0));
                    }
                };
                let p = self.addr(st, a(&args, 1))?;
                for j in 0..144 / 8 {
                    self.store_n(st, p + 8 * j, 8, V::C(64, 0))?;
                }
                self.store_n(st, p + 24, 4, V::C(32, 0o100644))?;
                self.store_n(st, p + 48, 8, V::C(64, size as u128))?;
                self.ret(st, V::C(32, 0))
            }
            "clock_gettime" => {
                let p = self.addr(st, a(&args, 1))?;
                self.store_n(st, p, 8, V::C(64, 1_000_000))?;
                self.store_n(st, p + 8, 8, V::C(64, 0))?;
                self.ret(st, V::C(32, 0))
            }
            "fchmod" | "chmod" | "fadvise64" | "posix_fadvise64" => self.ret(st, V::C(32, 0)),
            "fsync" | "fdatasync" | "flock" => self.ret(st, V::C(32, 0)),
            "read" | "pread64" | "readv" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) if st.fds[k].rd => k,
                    _ => return self.fail(st, EBADF),
                };
                let vecs = self.iovecs(st, name, &args)?;
                let n = vecs.iter().map(|v| v.1).sum::<u64>();
                let file = &st.files[st.fds[k].file];
                let (o, gap, size) = (file.o.clone(), file.gap, file.size());
                let pos = if name == "pread64" { a(&args, 3) } else { st.fds[k].pos };
                // past the end: end of file for every such position
                let past = not(ult(pos, V::C(64, size as u128)));
                let eof = self.decide(st, past)?;
                let pos = if eof { 0 } else { self.conc(st, pos)? as u64 };
                let f = self.fault_hit(st, 1)?;
                if f == Some(1) {
                    return self.fail(st, EIO);
                }
                if eof {
                    return self.ret(st, V::C(64, 0));
                }
                let mut n = n.min(size - pos);
                if f == Some(2) {
                    n = n.min(1);
                }
                let (d, s) = if gap.1 == 0 || pos + n <= gap.0 {
                    o.slice(pos as usize, n as usize)
                } else if pos >= gap.0 + gap.1 {
                    o.slice((pos - gap.1) as usize, n as usize)
                } else {
                    // front, zeros, rest
                    if n > 1 << 26 {
                        return self.err("a read of most of a gap");
                    }
                    let x = gap.0.saturating_sub(pos);
                    let (mut d, mut s) = o.slice(pos.min(gap.0) as usize, x as usize);
                    let z = n.min(gap.0 + gap.1 - pos);
                    d.resize(z as usize, 0);
                    if n > z {
                        let (e, t) = o.slice(gap.0 as usize, (n - z) as usize);
                        d.extend_from_slice(&e);
                        s.extend(t.into_iter().map(|(q, v)| (q + z as u32, v)));
                    }
                    (d, s)
                };
                let mut at = 0usize;
                for (buf, m) in vecs {
                    let m = (m as usize).min(n as usize - at);
                    if m == 0 {
                        continue;
                    }
                    match st.mem.find_mut(buf, m as u64) {
                        Some(b) => {
                            let off = (buf - b.base) as usize;
                            let t: Vec<(u32, V)> = s.iter().filter(|x| x.0 as usize >= at && (x.0 as usize) < at + m).map(|x| (x.0 - at as u32, x.1)).collect();
                            b.paste(off, &d[at..at + m], &t);
                        }
                        None => return self.err("read into unmapped memory"),
                    }
                    at += m;
                }
                if name != "pread64" {
                    st.fds[k].pos = V::C(64, (pos + n) as u128);
                }
                self.ret(st, V::C(64, n as u128))
            }
            "write" | "pwrite64" | "writev" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) if st.fds[k].wr => k,
                    _ => return self.fail(st, EBADF),
                };
                let vecs = self.iovecs(st, name, &args)?;
                let pos = if name == "pwrite64" { a(&args, 3) } else { st.fds[k].pos };
                let gap = st.files[st.fds[k].file].gap;
                let far = ult(V::C(64, (1 << 24) + gap.1 as u128), pos);
                if self.decide(st, far)? {
                    return Err(End::Viol("sparse".into(), format!("write far beyond the end of the file in {}", self.crate_frame(st))));
                }
                let pos = self.conc(st, pos)? as u64;
                let f = self.fault_hit(st, 2)?;
                if f == Some(1) {
                    return self.fail(st, 28);
                }
                let (mut d, mut s) = (vec![], vec![]);
                for (buf, m) in vecs {
                    let m = match f {
                        Some(2) => m.min(1 - d.len().min(1) as u64),
                        Some(3) => 0,
                        _ => m,
                    };
                    if m == 0 {
                        continue;
                    }
                    match st.mem.find(buf, m) {
                        Some(b) => {
                            let (e, t) = b.slice((buf - b.base) as usize, m as usize);
                            let at = d.len() as u32;
                            if at == 0 {
                                (d, s) = (e, t);
                            } else {
                                d.extend_from_slice(&e);
                                s.extend(t.into_iter().map(|(q, v)| (q + at, v)));
                            }
                        }
                        None => return self.err("write from unmapped memory"),
                    }
                }
                let n = d.len() as u64;
                let fi = st.fds[k].file;
                let pos = if st.fds[k].append { st.files[fi].size() } else { pos };
                if name != "pwrite64" {
                    st.fds[k].pos = V::C(64, (pos + n) as u128);
                }
                let pos = match st.files[fi].stored(pos) {
                    Some(p) if gap.1 == 0 || pos >= gap.0 + gap.1 || pos + n <= gap.0 => p,
                    _ => {
                        st.files[fi].dirty = true;
                        return self.ret(st, V::C(64, n as u128));
                    }
                };
                let o = Rc::make_mut(&mut st.files[fi].o);
                let end = (pos + n) as usize;
                if n > 0 && end > o.data.len() {
                    o.data.resize(end, 0);
                }
                if n > 0 {
                    o.paste(pos as usize, &d, &s);
                }
                self.ret(st, V::C(64, n as u128))
            }
            "lseek64" | "lseek" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) => k,
                    None => return self.fail(st, EBADF),
                };
                let off = a(&args, 1);
                let wh = self.conc(st, a(&args, 2))?;
                let size = st.files[st.fds[k].file].size();
                let base = match wh {
                    0 => V::C(64, 0),
                    1 => st.fds[k].pos,
                    2 => V::C(64, size as u128),
                    _ => return self.fail(st, EINVAL),
                };
                let np = bin(Bin::Add, base, off);
                let neg = extract(np, 63, 1);
                let neg = self.decide(st, neg)?;
                if self.fault_hit(st, 4)? == Some(1) {
                    return self.fail(st, EIO);
                }
                if neg {
                    return self.fail(st, EINVAL);
                }
                let np = self.sol.simp(&st.path, np);
                st.fds[k].pos = np;
                self.ret(st, np)
            }
            "ftruncate64" | "ftruncate" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) if st.fds[k].wr => k,
                    Some(_) => {
                        self.set_errno(st, EINVAL)?;
                        return self.ret(st, V::c(32, !0));
                    }
                    None => return self.fail(st, EBADF),
                };
                let n = a(&args, 1);
                if self.decide(st, extract(n, 63, 1))? {
                    self.set_errno(st, EINVAL)?;
                    return self.ret(st, V::c(32, !0));
                }
                let gap = st.files[st.fds[k].file].gap;
                let far = ult(V::C(64, (1 << 24) + gap.1 as u128), n);
                if self.decide(st, far)? {
                    return Err(End::Viol("sparse".into(), format!("file resized far beyond its contents in {}", self.crate_frame(st))));
                }
                let n = self.conc(st, n)? as usize;
                if self.fault_hit(st, 8)? == Some(1) {
                    self.set_errno(st, 28)?;
                    return self.ret(st, V::c(32, !0));
                }
                let fi = st.fds[k].file;
                // shrinking into or below the gap takes that part of it away
                let mut n = n;
                if gap.1 > 0 {
                    let keep = (n as u64).saturating_sub(gap.0).min(gap.1);
                    st.files[fi].gap.1 = keep;
                    n -= keep as usize;
                }
                let o = Rc::make_mut(&mut st.files[fi].o);
                if n < o.data.len() {
                    let l = o.data.len();
                    o.clear_sym(n, l - n);
                }
                o.data.resize(n, 0);
                self.ret(st, V::C(32, 0))
            }
            "fstat64" | "fstat" => {
                let k = match self.fd(st, a(&args, 0))? {
                    Some(k) => k,
                    None => {
                        self.set_errno(st, EBADF)?;
                        return self.ret(st, V::c(32, !0));
                    }
                };
                let p = self.addr(st, a(&args, 1))?;
                for j in 0..144 / 8 {
                    self.store_n(st, p + 8 * j, 8, V::C(64, 0))?;
                }
                let size = st.files[st.fds[k].file].size();
                self.store_n(st, p + 24, 4, V::C(32, 0o100644))?;
                self.store_n(st, p + 48, 8, V::C(64, size as u128))?;
                self.ret(st, V::C(32, 0))
            }
            "statx" => {
                self.set_errno(st, ENOSYS)?;
                self.ret(st, V::c(32, !0))
            }
            "gettid" | "syscall" | "copy_file_range" | "sendfile64" | "splice" => {
                self.set_errno(st, ENOSYS)?;
                let w = match rty {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                self.ret(st, V::c(w, !0))
            }
            _ => self.err(&format!("no model for external function {}", name)),
        }
    }

    fn grow_model(&mut self, st: &mut State) {
        let n = st.path.nvars as usize;
        if st.path.model.len() < n {
            let m = Rc::make_mut(&mut st.path.model);
            m.resize(n, 0);
        }
        // a fresh Rc so that evaluation memo tables never mix assignments of different lengths
    }

    fn map1(&mut self, st: &mut State, x: &Val, f: &mut dyn FnMut(V) -> V) -> R<()> {
        let r = match x {
            Val::V(v) => Val::V(f(*v)),
            Val::A(l) => Val::A(Rc::new(l.iter().map(|e| Val::V(f(e.v()))).collect())),
        };
        self.finish_call(st, Some(r))
    }
    fn map2(&mut self, st: &mut State, x: &Val, y: &Val, f: &mut dyn FnMut(V, V) -> V) -> R<()> {
        let r = match (x, y) {
            (Val::V(v), Val::V(w)) => Val::V(f(*v, *w)),
            (Val::A(l), Val::A(m)) => Val::A(Rc::new(l.iter().zip(m.iter()).map(|(e, g)| Val::V(f(e.v(), g.v()))).collect())),
            _ => return self.err("vector intrinsic"),
        };
        self.finish_call(st, Some(r))
    }

    fn llvm(&mut self, st: &mut State, n: &str, args: Vec<Val>, rty: &Ty) -> R<()> {
        let base = n.split('.').next().unwrap_or("");
        match base {
            "memcpy" | "memmove" => {
                let len = self.conc(st, a(&args, 2))? as u64;
                if len > 0 {
                    let d = self.addr(st, a(&args, 0))?;
                    let s = self.addr(st, a(&args, 1))?;
                    self.copy(st, d, s, len)?;
                }
                self.finish_call(st, None)
            }
            "memset" => {
                let len = self.conc(st, a(&args, 2))? as u64;
                if len > 0 {
                    let d = self.addr(st, a(&args, 0))?;
                    let v = a(&args, 1);
                    match st.mem.find_mut(d, len) {
                        Some(o) => {
                            let off = (d - o.base) as usize;
                            match v {
                                V::C(_, c) => {
                                    for k in 0..len as usize {
                                        o.data[off + k] = c as u8;
                                    }
                                    o.clear_sym(off, len as usize);
                                }
                                _ => {
                                    for k in 0..len as usize {
                                        o.write_byte(off + k, v);
                                    }
                                }
                            }
                        }
                        None => return self.err("memset of unmapped memory"),
                    }
                }
                self.finish_call(st, None)
            }
            "bswap" => self.map1(st, &args[0].clone(), &mut |v| {
                let w = v.w();
                let p: Vec<V> = (0..w / 8).rev().map(|k| extract(v, 8 * k, 8)).collect();
                concat(&p)
            }),
            "bitreverse" => self.map1(st, &args[0].clone(), &mut |v| {
                let w = v.w();
                let p: Vec<V> = (0..w).rev().map(|k| extract(v, k, 1)).collect();
                concat(&p)
            }),
            "ctpop" => self.map1(st, &args[0].clone(), &mut |v| {
                let w = v.w();
                match v {
                    V::C(_, c) => V::C(w, c.count_ones() as u128),
                    _ => {
                        let mut s = V::C(w, 0);
                        for k in 0..w {
                            s = bin(Bin::Add, s, zext(extract(v, k, 1), w));
                        }
                        s
                    }
                }
            }),
            "ctlz" | "cttz" => {
                let lz = base == "ctlz";
                self.map1(st, &args[0].clone(), &mut |v| {
                    let w = v.w();
                    match v {
                        V::C(_, c) => {
                            let r = if lz {
                                if c == 0 {
                                    w
                                } else {
                                    c.leading_zeros() - (128 - w)
                                }
                            } else if c == 0 {
                                w
                            } else {
                                c.trailing_zeros()
                            };
                            V::C(w, r as u128)
                        }
                        _ => {
                            let mut r = V::C(w, w as u128);
                            for k in 0..w {
                                // the last assignment wins: scan towards the significant end
                                let bit = if lz { k } else { w - 1 - k };
                                let cnt = if lz { w - 1 - k } else { w - 1 - k };
                                r = ite(extract(v, bit, 1), V::C(w, cnt as u128), r);
                            }
                            r
                        }
                    }
                })
            }
            "abs" => self.map1(st, &args[0].clone(), &mut |v| ite(extract(v, v.w() - 1, 1), bin(Bin::Sub, V::C(v.w(), 0), v), v)),
            "umin" | "umax" if self.split && a(&args, 0).w() == 64 => {
                let (x, y) = (a(&args, 0), a(&args, 1));
                let less = self.decide(st, ult(x, y))?;
                self.ret(st, if less == (base == "umin") { x } else { y })
            }
            "umin" => self.map2(st, &args[0].clone(), &args[1].clone(), &mut |x, y| ite(ult(x, y), x, y)),
            "umax" => self.map2(st, &args[0].clone(), &args[1].clone(), &mut |x, y| ite(ult(x, y), y, x)),
            "smin" => self.map2(st, &args[0].clone(), &args[1].clone(), &mut |x, y| ite(slt(x, y), x, y)),
            "smax" => self.map2(st, &args[0].clone(), &args[1].clone(), &mut |x, y| ite(slt(x, y), y, x)),
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let sat = n.contains(".sat.");
                let (x, y) = (a(&args, 0), a(&args, 1));
                let w = x.w();
                let (r, o) = overflow(base, x, y);
                if sat {
                    let r = match base {
                        "uadd" => ite(o, V::c(w, !0), r),
                        "usub" => ite(o, V::C(w, 0), r),
                        _ => {
                            let neg = extract(x, w - 1, 1);
                            ite(o, ite(neg, V::c(w, 1u128 << (w - 1)), V::c(w, mask(w) >> 1)), r)
                        }
                    };
                    return self.ret(st, r);
                }
                self.finish_call(st, Some(Val::A(Rc::new(vec![Val::V(r), Val::V(o)]))))
            }
            "fshl" | "fshr" => {
                let (x, y, z) = (a(&args, 0), a(&args, 1), a(&args, 2));
                let w = x.w();
                let k = (self.conc(st, z)? % w as u128) as u32;
                let c = if base == "fshl" {
                    // high part of (x:y) << k
                    if k == 0 {
                        x
                    } else {
                        concat(&[extract(y, w - k, k), extract(x, 0, w - k)])
                    }
                } else if k == 0 {
                    y
                } else {
                    concat(&[extract(y, k, w - k), extract(x, 0, k)])
                };
                self.ret(st, c)
            }
            "ucmp" | "scmp" => {
                let (x, y) = (a(&args, 0), a(&args, 1));
                let w = match rty {
                    Ty::Int(w) => *w,
                    _ => return self.err("ucmp"),
                };
                let (l, g) = if base == "ucmp" { (ult(x, y), ult(y, x)) } else { (slt(x, y), slt(y, x)) };
                self.ret(st, ite(l, V::c(w, !0), ite(g, V::C(w, 1), V::C(w, 0))))
            }
            "is" => self.ret(st, V::C(1, 0)), // llvm.is.constant
            "expect" => {
                let v = args[0].clone();
                self.finish_call(st, Some(v))
            }
            "threadlocal" | "launder" | "strip" | "ptrmask" | "invariant" => {
                let v = args.get(0).cloned();
                self.finish_call(st, v)
            }
            "load" => {
                // llvm.load.relative: ptr + load i32 (ptr + off)
                let p = self.addr(st, a(&args, 0))?;
                let off = a(&args, 1);
                let off = self.conc(st, off)? as u64;
                let r = self.load_n(st, p.wrapping_add(off), 4)?;
                let r = bin(Bin::Add, V::C(64, p as u128), sext(r, 64));
                self.ret(st, r)
            }
            "trap" | "debugtrap" | "ubsantrap" => Err(End::Panic("trap".into())),
            "vector" => {
                // llvm.vector.reduce.*
                let mut l = vec![];
                if let Val::A(x) = &args[0] {
                    for e in x.iter() {
                        l.push(e.v());
                    }
                }
                let op = n.split('.').nth(2).unwrap_or("");
                let mut r = l[0];
                for e in &l[1..] {
                    r = match op {
                        "add" => bin(Bin::Add, r, *e),
                        "mul" => bin(Bin::Mul, r, *e),
                        "and" => bin(Bin::And, r, *e),
                        "or" => bin(Bin::Or, r, *e),
                        "xor" => bin(Bin::Xor, r, *e),
                        "umax" => ite(ult(r, *e), *e, r),
                        "umin" => ite(ult(r, *e), r, *e),
                        _ => return self.err(&format!("llvm.{}", n)),
                    };
                }
                self.ret(st, r)
            }
            _ => self.err(&format!("no model for llvm.{}", n)),
        }
    }
}

fn overflow(op: &str, x: V, y: V) -> (V, V) {
    let w = x.w();
    match op {
        "uadd" => {
            let s = bin(Bin::Add, x, y);
            let o = match (x, y) {
                (_, V::C(_, c)) => ult(V::C(w, mask(w) - c), x),
                (V::C(_, c), _) => ult(V::C(w, mask(w) - c), y),
                _ => {
                    let ((_, xh), (_, yh)) = (x.range(), y.range());
                    match xh.checked_add(yh) {
                        Some(h) if h <= mask(w) => V::b(false),
                        _ => ult(s, x),
                    }
                }
            };
            (s, o)
        }
        "usub" => (bin(Bin::Sub, x, y), ult(x, y)),
        "sadd" | "ssub" => {
            let o = if op == "sadd" { Bin::Add } else { Bin::Sub };
            let s = bin(o, x, y);
            let e = bin(o, sext(x, w + 1), sext(y, w + 1));
            (s, not(eq(extract(e, w, 1), extract(e, w - 1, 1))))
        }
        "umul" => {
            let s = bin(Bin::Mul, x, y);
            let c = match (x, y) {
                (V::C(_, c), v) | (v, V::C(_, c)) => Some((c, v)),
                _ => None,
            };
            let o = match c {
                Some((0, _)) => V::b(false),
                Some((c, v)) => ult(V::C(w, mask(w) / c), v),
                None => {
                    let ((_, xh), (_, yh)) = (x.range(), y.range());
                    match xh.checked_mul(yh) {
                        Some(h) if h <= mask(w) => V::b(false),
                        _ => {
                            let e = bin(Bin::Mul, zext(x, 2 * w), zext(y, 2 * w));
                            not(eq(extract(e, w, w), V::C(w, 0)))
                        }
                    }
                }
            };
            (s, o)
        }
        _ => {
            let s = bin(Bin::Mul, x, y);
            let e = bin(Bin::Mul, sext(x, 2 * w), sext(y, 2 * w));
            (s, not(eq(e, sext(s, 2 * w))))
        }
    }
}
