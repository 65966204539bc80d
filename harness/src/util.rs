//! Shared pieces: an atom tree of our own (builder and parser), value generators, comparisons.
use crate::sx;
use mp4ameta::*;

#[allow(dead_code)]
pub const M: u64 = 1;

/// Independent comparison of two data values.
pub fn same_data(a: &Data, b: &Data) -> bool {
    match (a, b) {
        (Data::Reserved(x), Data::Reserved(y)) => bytes_eq(x, y),
        (Data::Utf8(x), Data::Utf8(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
        (Data::Utf16(x), Data::Utf16(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
        (Data::Jpeg(x), Data::Jpeg(y)) => bytes_eq(x, y),
        (Data::Png(x), Data::Png(y)) => bytes_eq(x, y),
        (Data::BeSigned(x), Data::BeSigned(y)) => bytes_eq(x, y),
        (Data::Bmp(x), Data::Bmp(y)) => bytes_eq(x, y),
        _ => false,
    }
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
pub fn same_ident(a: &DataIdent, b: &DataIdent) -> bool {
    match (a, b) {
        (DataIdent::Fourcc(x), DataIdent::Fourcc(y)) => bytes_eq(&x.0, &y.0),
        (DataIdent::Freeform { mean: m, name: n }, DataIdent::Freeform { mean: k, name: l }) => {
            bytes_eq(m.as_bytes(), k.as_bytes()) & bytes_eq(n.as_bytes(), l.as_bytes())
        }
        _ => false,
    }
}

/// the contents of a tag in order: every identifier with its values
pub fn contents(t: &Tag) -> Vec<(DataIdent, Data)> {
    t.data().map(|(i, d)| (i.clone(), d.clone())).collect()
}
pub fn same_contents(a: &[(DataIdent, Data)], b: &[(DataIdent, Data)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for k in 0..a.len() {
        ok &= same_ident(&a[k].0, &b[k].0) & same_data(&a[k].1, &b[k].1);
    }
    ok
}

pub fn ascii(n: usize) -> String {
    let mut v = sx::bytes(n);
    for b in v.iter_mut() {
        *b &= 0x7f;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// any unicode scalar value of the given utf-8 width (1..=4)
pub fn scalar(width: usize) -> char {
    let c = sx::u32();
    let (lo, hi) = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)][width - 1];
    sx::assume((lo <= c) & (c <= hi) & !((0xd800 <= c) & (c < 0xe000)));
    unsafe { char::from_u32_unchecked(c) }
}
/// any string of exactly n scalar values, every combination of utf-8 widths
pub fn unicode(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(scalar(1 + sx::choose(4)));
    }
    s
}
/// `n` bytes, the first and last few symbolic, the rest a fixed pattern
pub fn blob(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![0xa5; n];
    let k = n.min(8);
    sx::fill(&mut v[..k]);
    if n > 16 {
        sx::fill(&mut v[n - 8..]);
    }
    v
}
/// a string of n bytes, first and last few symbolic (ASCII), the rest fixed
pub fn text(n: usize) -> String {
    let mut v: Vec<u8> = vec![b'x'; n];
    let k = n.min(6);
    sx::fill(&mut v[..k]);
    if n > 12 {
        sx::fill(&mut v[n - 4..]);
    }
    for b in v.iter_mut() {
        *b &= 0x7f;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// a value of one of the seven types with n bytes (n characters for strings)
pub fn data(kind: usize, n: usize) -> Data {
    match kind {
        0 => Data::Reserved(blob(n)),
        1 => Data::Utf8(text(n)),
        2 => Data::Utf16(text(n)),
        3 => Data::Jpeg(blob(n)),
        4 => Data::Png(blob(n)),
        5 => Data::BeSigned(blob(n)),
        _ => Data::Bmp(blob(n)),
    }
}
pub const KINDS: usize = 7;

/// any four-character code that an item may have (not "free", which marks unused space)
pub fn fourcc() -> Fourcc {
    let mut b = [0u8; 4];
    sx::fill(&mut b);
    sx::assume((b != *b"free") & (b != *b"----"));
    Fourcc(b)
}

// ---------------------------------------------------------------- atom trees

pub struct Node {
    pub cc: [u8; 4],
    pub ext: bool,
    pub data: Vec<u8>,
    pub kids: Vec<Node>,
}
pub fn leaf(cc: &[u8; 4], data: Vec<u8>) -> Node {
    Node { cc: *cc, ext: false, data, kids: vec![] }
}
pub fn list(cc: &[u8; 4], kids: Vec<Node>) -> Node {
    Node { cc: *cc, ext: false, data: vec![], kids }
}
pub fn full(cc: &[u8; 4], data: Vec<u8>, kids: Vec<Node>) -> Node {
    Node { cc: *cc, ext: false, data, kids }
}
impl Node {
    pub fn ext(mut self, e: bool) -> Node {
        self.ext = e;
        self
    }
    pub fn size(&self) -> usize {
        let mut n = if self.ext { 16 } else { 8 } + self.data.len();
        for k in &self.kids {
            n += k.size();
        }
        n
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        let n = self.size();
        if self.ext {
            o.extend_from_slice(&1u32.to_be_bytes());
            o.extend_from_slice(&self.cc);
            o.extend_from_slice(&(n as u64).to_be_bytes());
        } else {
            o.extend_from_slice(&(n as u32).to_be_bytes());
            o.extend_from_slice(&self.cc);
        }
        o.extend_from_slice(&self.data);
        for k in &self.kids {
            k.put(o);
        }
    }
}
pub fn serial(n: &[Node]) -> Vec<u8> {
    let mut v = vec![];
    for k in n {
        k.put(&mut v);
    }
    v
}

/// an atom found in a file
pub struct At {
    pub cc: [u8; 4],
    pub pos: usize,
    pub head: usize,
    pub end: usize,
    pub kids: Vec<At>,
}
impl At {
    pub fn body(&self) -> usize {
        self.pos + self.head
    }
    pub fn kid(&self, cc: &[u8; 4]) -> Option<&At> {
        find(&self.kids, cc)
    }
}
pub fn find<'a>(l: &'a [At], cc: &[u8; 4]) -> Option<&'a At> {
    l.iter().find(|a| &a.cc == cc)
}
pub fn be32(b: &[u8], p: usize) -> u32 {
    u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]])
}
pub fn be64(b: &[u8], p: usize) -> u64 {
    (be32(b, p) as u64) << 32 | be32(b, p + 4) as u64
}
/// Atoms which exactly tile `lo..hi`; `None` when some size does not fit.
pub fn tile(b: &[u8], lo: usize, hi: usize, kids: fn(&[u8; 4], usize) -> Option<usize>, depth: usize) -> Option<Vec<At>> {
    let mut v = vec![];
    let mut p = lo;
    while p < hi {
        if hi - p < 8 {
            return None;
        }
        let cc = [b[p + 4], b[p + 5], b[p + 6], b[p + 7]];
        let mut n = be32(b, p) as u64;
        let mut head = 8;
        if n == 1 {
            if hi - p < 16 {
                return None;
            }
            n = be64(b, p + 8);
            head = 16;
        }
        if n < head as u64 || n > (hi - p) as u64 {
            return None;
        }
        let end = p + n as usize;
        let mut a = At { cc, pos: p, head, end, kids: vec![] };
        if let Some(skip) = kids(&cc, depth) {
            if end - p < head + skip {
                return None;
            }
            a.kids = tile(b, p + head + skip, end, kids, depth + 1)?;
        }
        v.push(a);
        p = end;
    }
    Some(v)
}
/// which atoms contain others, by nesting depth: Some(bytes before the first child)
fn nest(cc: &[u8; 4], depth: usize) -> Option<usize> {
    match (depth, cc) {
        (0, b"moov") | (1, b"trak") | (2, b"mdia") | (3, b"minf") | (4, b"stbl") | (1, b"udta") => Some(0),
        (2, b"meta") => Some(4),
        _ => None,
    }
}
pub fn parse_file(b: &[u8]) -> Option<Vec<At>> {
    tile(b, 0, b.len(), nest, 0)
}
fn nest_items(_cc: &[u8; 4], depth: usize) -> Option<usize> {
    if depth == 0 {
        Some(0)
    } else {
        None
    }
}
/// the items of an item list, each with its children
pub fn parse_items(b: &[u8], ilst: &At) -> Option<Vec<At>> {
    tile(b, ilst.body(), ilst.end, nest_items, 0)
}
pub fn ilst_of(l: &[At]) -> Option<&At> {
    find(l, b"moov")?.kid(b"udta")?.kid(b"meta")?.kid(b"ilst")
}

// ---------------------------------------------------------------- pieces of a file

pub fn ftyp() -> Node {
    leaf(b"ftyp", b"M4A \0\0\x02\0isomiso2".to_vec())
}
pub fn mvhd() -> Node {
    let mut v = vec![0u8; 100];
    v[12..16].copy_from_slice(&1000u32.to_be_bytes());
    v[16..20].copy_from_slice(&5000u32.to_be_bytes());
    leaf(b"mvhd", v)
}
pub fn hdlr() -> Node {
    leaf(b"hdlr", b"\0\0\0\0\0\0\0\0mdirappl\0\0\0\0\0\0\0\0\0".to_vec())
}
/// data atom: type code, payload
pub fn data_atom(code: u32, payload: &[u8]) -> Node {
    let mut v = vec![];
    v.extend_from_slice(&code.to_be_bytes());
    v.extend_from_slice(&[0; 4]);
    v.extend_from_slice(payload);
    leaf(b"data", v)
}
pub fn item(cc: &[u8; 4], code: u32, payload: &[u8]) -> Node {
    list(cc, vec![data_atom(code, payload)])
}
pub fn mean_atom(s: &[u8]) -> Node {
    let mut v = vec![0; 4];
    v.extend_from_slice(s);
    leaf(b"mean", v)
}
pub fn name_atom(s: &[u8]) -> Node {
    let mut v = vec![0; 4];
    v.extend_from_slice(s);
    leaf(b"name", v)
}
/// bytes whose first few are symbolic
pub fn some(n: usize) -> Vec<u8> {
    let mut v = vec![0x5a; n];
    let k = n.min(4);
    sx::fill(&mut v[..k]);
    v
}
/// decoder description of a track
pub fn mp4a(max: u32, avg: u32, spec: u16) -> Node {
    let mut e = vec![0u8; 4];
    e.extend_from_slice(&[3, 25, 0, 1, 0]);
    e.extend_from_slice(&[4, 17, 0x40, 0x15, 0, 0, 0]);
    e.extend_from_slice(&max.to_be_bytes());
    e.extend_from_slice(&avg.to_be_bytes());
    e.extend_from_slice(&[5, 2]);
    e.extend_from_slice(&spec.to_be_bytes());
    e.extend_from_slice(&[6, 1, 2]);
    full(b"mp4a", vec![0; 28], vec![leaf(b"esds", e)])
}
pub fn stsd(kids: Vec<Node>) -> Node {
    let mut v = vec![0u8; 4];
    v.extend_from_slice(&(kids.len() as u32).to_be_bytes());
    full(b"stsd", v, kids)
}
/// chunk offset table with zeroed entries
pub fn table(wide: bool, entries: usize) -> Node {
    let mut v = vec![0u8; 4];
    v.extend_from_slice(&(entries as u32).to_be_bytes());
    v.resize(8 + entries * if wide { 8 } else { 4 }, 0);
    leaf(if wide { b"co64" } else { b"stco" }, v)
}
pub fn trak(stbl: Vec<Node>) -> Node {
    list(
        b"trak",
        vec![leaf(b"tkhd", vec![0; 12]), list(b"mdia", vec![leaf(b"mdhd", vec![0; 8]), list(b"minf", vec![leaf(b"smhd", vec![0; 8]), list(b"stbl", stbl)])])],
    )
}

/// A family of well-formed files.
#[derive(Clone, Default)]
pub struct Spec {
    /// 0 none, 1 before moov, 2 after, 3 one on each side, 4 two after, 5 two before
    pub mdat: usize,
    /// a `free` atom next to moov
    pub free: bool,
    /// 0 none, 1 first in moov, 2 last in moov, 3 followed by another atom
    pub udta: usize,
    /// 0 none, 1 alone, 2 after another atom, 3 before another atom, 4 another atom only
    pub meta: usize,
    /// bytes added to the atoms in between
    pub pad: usize,
    /// 0 iTunes handler, 1 an empty one, 2 a longer one
    pub hdlr_kind: usize,
    /// metadata which is not that of the movie
    pub decoy: bool,
    /// a track before the others: 1 with a header only, 2 without media information, 3 without a sample table
    pub bare: usize,
    pub hdlr: bool,
    /// 0 none, 1 empty, 2 small, 3 large
    pub ilst: usize,
    pub ilst_first: bool,
    pub ilst_tail: bool,
    /// extended sizes: 1 moov 2 udta 4 meta 8 ilst 16 mdat 32 trak 64 tables 128 hdlr
    pub ext: usize,
    /// per track: (stco entries, co64 entries)
    pub traks: Vec<(Option<usize>, Option<usize>)>,
    pub mdat_len: usize,
    pub audio: bool,
}
impl Spec {
    pub fn new() -> Spec {
        Spec { mdat: 2, udta: 2, meta: 1, hdlr: true, ilst: 2, traks: vec![(Some(1), None)], mdat_len: 12, ..Default::default() }
    }
    pub fn tree(&self) -> Vec<Node> {
        let x = |b: usize| self.ext & b != 0;
        let mdat = || leaf(b"mdat", some(self.mdat_len)).ext(x(16));
        let mut top = vec![ftyp()];
        match self.mdat {
            1 | 3 => top.push(mdat()),
            5 => {
                top.push(mdat());
                top.push(mdat());
            }
            _ => {}
        }
        if self.free {
            top.push(leaf(b"free", some(9 + self.pad)));
        }
        let mut moov = vec![mvhd()];
        let udta = || -> Option<Node> {
            if self.udta == 0 {
                return None;
            }
            let mut k = vec![];
            if self.meta == 2 || self.meta == 4 {
                k.push(leaf(b"name", some(5 + self.pad)));
            }
            if self.meta > 0 && self.meta < 4 {
                let mut m = vec![];
                let ilst = || match self.ilst {
                    0 => None,
                    1 => Some(list(b"ilst", vec![]).ext(x(8))),
                    2 => Some(list(b"ilst", vec![item(b"\xa9nam", 1, ascii(4).as_bytes())]).ext(x(8))),
                    _ => Some(list(b"ilst", vec![item(b"\xa9nam", 1, ascii(4).as_bytes()), item(b"covr", 13, &some(200))]).ext(x(8))),
                };
                if self.ilst_first {
                    m.extend(ilst());
                }
                if self.hdlr {
                    m.push(match self.hdlr_kind {
                        0 => hdlr(),
                        1 => leaf(b"hdlr", vec![]),
                        _ => leaf(b"hdlr", some(41)),
                    }.ext(x(128)));
                }
                if !self.ilst_first {
                    m.extend(ilst());
                }
                if self.ilst_tail {
                    m.push(leaf(b"free", some(7)));
                }
                k.push(full(b"meta", vec![0; 4], m).ext(x(4)));
            }
            if self.meta == 3 {
                k.push(leaf(b"Xtra", some(6 + self.pad)));
            }
            Some(list(b"udta", k).ext(x(2)))
        };
        if self.udta == 1 {
            moov.extend(udta());
        }
        let foreign = || full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", vec![item(b"\xa9nam", 1, b"foreign")])]);
        if self.decoy {
            moov.push(foreign());
            moov.push(list(b"trak", vec![leaf(b"tkhd", vec![0; 12]), list(b"udta", vec![foreign()])]));
            top.insert(1, foreign());
        }
        match self.bare {
            1 => moov.push(list(b"trak", vec![leaf(b"tkhd", vec![0; 12])])),
            2 => moov.push(list(b"trak", vec![leaf(b"tkhd", vec![0; 12]), list(b"mdia", vec![leaf(b"mdhd", vec![0; 8])])])),
            3 => moov.push(list(b"trak", vec![list(b"mdia", vec![list(b"minf", vec![leaf(b"smhd", vec![0; 8])])])])),
            _ => {}
        }
        for (s, c) in &self.traks {
            let mut t = vec![];
            if self.audio {
                t.push(stsd(vec![mp4a(0x10000, 0x8000, 0x1210)]));
            }
            if let Some(n) = s {
                t.push(table(false, *n).ext(x(64)));
            }
            if let Some(n) = c {
                t.push(table(true, *n).ext(x(64)));
            }
            moov.push(trak(t).ext(x(32)));
        }
        if self.udta > 1 {
            moov.extend(udta());
        }
        if self.udta == 3 {
            moov.push(leaf(b"uuid", some(10 + self.pad)));
        }
        top.push(list(b"moov", moov).ext(x(1)));
        if self.free {
            top.push(leaf(b"skip", some(3)));
        }
        match self.mdat {
            2 | 3 => top.push(mdat()),
            4 => {
                top.push(mdat());
                top.push(leaf(b"free", some(2)));
                top.push(mdat());
            }
            _ => {}
        }
        top
    }
}

/// every table entry of a file: (position, wide)
pub fn entries(b: &[u8], l: &[At]) -> Vec<(usize, bool)> {
    let mut v = vec![];
    if let Some(m) = find(l, b"moov") {
        for t in m.kids.iter().filter(|a| &a.cc == b"trak") {
            let s = t.kid(b"mdia").and_then(|a| a.kid(b"minf")).and_then(|a| a.kid(b"stbl"));
            if let Some(s) = s {
                for k in s.kids.iter() {
                    let w = if &k.cc == b"stco" {
                        4
                    } else if &k.cc == b"co64" {
                        8
                    } else {
                        continue;
                    };
                    let n = be32(b, k.body() + 4) as usize;
                    for e in 0..n {
                        v.push((k.body() + 8 + e * w, w == 8));
                    }
                }
            }
        }
    }
    v
}
pub fn mdats(l: &[At]) -> Vec<&At> {
    l.iter().filter(|a| &a.cc == b"mdat").collect()
}
pub const F: &str = "f.m4a";

/// standard encoding of a value: type code and payload
pub fn encoded(d: &Data) -> (u32, Vec<u8>) {
    match d {
        Data::Reserved(v) => (0, v.clone()),
        Data::Utf8(s) => (1, s.as_bytes().to_vec()),
        Data::Utf16(s) => (2, utf16(s)),
        Data::Jpeg(v) => (13, v.clone()),
        Data::Png(v) => (14, v.clone()),
        Data::BeSigned(v) => (21, v.clone()),
        Data::Bmp(v) => (27, v.clone()),
    }
}
/// utf-16 big endian, written out from the definition
pub fn utf16(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            v.extend_from_slice(&(c as u16).to_be_bytes());
        } else {
            let x = c - 0x10000;
            v.extend_from_slice(&(0xd800 | (x >> 10) as u16).to_be_bytes());
            v.extend_from_slice(&(0xdc00 | (x & 0x3ff) as u16).to_be_bytes());
        }
    }
    v
}
