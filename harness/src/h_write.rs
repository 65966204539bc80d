//! Saving a tag into an existing file, over a family of well-formed files.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;

const M: u64 = 3;

/// Parts 0..=5: placement (one per media data position); 6: extended sizes; 7: tracks; 8: sizes
/// around the buffer boundaries.
fn family() -> Spec {
    let mut s = Spec::new();
    let p = sx::part();
    match p {
        0..=5 => {
            s.mdat = p;
            s.udta = sx::choose(4);
            s.pad = (3 * s.udta + p) % 8;
            if s.udta > 0 {
                s.meta = sx::choose(5);
                if s.meta > 0 && s.meta < 4 {
                    s.hdlr = sx::boolean();
                    s.ilst = sx::choose(4);
                    match sx::choose(3) {
                        1 => s.ilst_first = true,
                        2 => {
                            s.ilst_tail = true;
                            s.free = true
                        }
                        _ => {}
                    }
                }
            }
        }
        6 => {
            s.mdat = sx::pick(&[1, 2]);
            s.ext = sx::choose(256);
            s.udta = sx::pick(&[1, 2]);
            s.ilst = sx::pick(&[0, 2]);
        }
        7 => {
            s.mdat = sx::pick(&[2, 3, 1]);
            s.udta = sx::pick(&[1, 2, 0]);
            s.traks = vec![];
            for _ in 0..sx::choose(3) {
                s.traks.push(match sx::choose(6) {
                    0 => (None, None),
                    1 => (Some(0), None),
                    2 => (Some(2), None),
                    3 => (None, Some(1)),
                    4 => (None, Some(2)),
                    _ => (Some(1), Some(1)),
                });
            }
            if s.traks.len() < 2 {
                s.bare = sx::choose(4);
                s.decoy = s.bare > 1;
                s.hdlr_kind = s.bare % 3;
            }
        }
        _ => {
            s.mdat = sx::pick(&[1, 2]);
            s.mdat_len = sx::pick(&[7000, 8192, 9000, 20000]);
            s.udta = sx::pick(&[1, 2, 0]);
            s.traks = vec![(Some(sx::pick(&[1, 2100])), None)];
        }
    }
    s
}
pub const PARTS: usize = 9;

/// tags whose item list is smaller than, similar to and larger than the one in the file
fn value() -> Tag {
    let mut t = Tag::default();
    match sx::choose(if sx::part() == 8 { 4 } else { 3 }) {
        0 => {}
        1 => t.set_title(ascii(if sx::part() % 2 == 0 { 2 } else { 4 })),
        2 => {
            t.set_title(ascii(3));
            t.set_artwork(Img::jpeg(blob(300)));
            t.set_data(FreeformIdent::new("com.test", "N"), Data::BeSigned(sx::bytes(2)));
        }
        _ => t.set_artwork(Img::png(blob(sx::pick(&[8100, 8193, 17000])))),
    }
    t
}

fn start(s: &Spec) -> Vec<u8> {
    let b = serial(&s.tree());
    sx::put_file(F, &b);
    b
}

/// A file whose first media data atom has a body far bigger than what is stored of it: the bytes
/// stored, the trees of it before, and what has been left out.
struct Giant {
    a: Vec<u8>,
    at: usize,
    len: u64,
    wide: bool,
}
fn giant() -> (Spec, Giant) {
    let mut s = Spec::new();
    s.mdat = sx::pick(&[1, 3]);
    s.udta = sx::choose(4);
    s.meta = sx::pick(&[1, 2]);
    s.ilst = sx::pick(&[0, 2, 3]);
    s.audio = true;
    s.traks = vec![(Some(1), Some(2))];
    let len = sx::pick(&[0x7fff_ff00, 0x8000_0000, 0xffff_0000, 1 << 32, (1 << 32) + 0x8000_0000, (1 << 40) + 5]);
    s.ext = if len < 0xffff_0000 { sx::pick(&[0, 16]) } else { 16 };
    let a = serial(&s.tree());
    let at = match parse_file(&a) {
        Some(o) => mdats(&o)[0].body() + 5,
        None => 0,
    };
    let g = Giant { a, at, len, wide: s.ext != 0 };
    g.set();
    (s, g)
}
impl Giant {
    fn mdat(&self) -> usize {
        self.at - 5 - if self.wide { 16 } else { 8 }
    }
    /// adds to the size of the atom with the gap
    fn grow(&self, b: &mut [u8], by: u64) {
        let p = self.mdat();
        if self.wide {
            let n = be64(b, p + 8).wrapping_add(by);
            b[p + 8..p + 16].copy_from_slice(&n.to_be_bytes());
        } else {
            let n = be32(b, p).wrapping_add(by as u32);
            b[p..p + 4].copy_from_slice(&n.to_be_bytes());
        }
    }
    fn set(&self) {
        let mut b = self.a.clone();
        self.grow(&mut b, self.len);
        sx::put_file(F, &b);
        sx::gap(F, self.at, self.len);
    }
    /// the bytes stored of the saved file
    fn get(&self) -> Option<Vec<u8>> {
        if !sx::ungap(F, self.at, self.len) {
            return None;
        }
        let mut b = sx::get_file(F);
        if b.len() < self.at {
            return None;
        }
        self.grow(&mut b, 0u64.wrapping_sub(self.len));
        Some(b)
    }
}

/// saved then read: the same identifiers with the same values, and the audio description and
/// file type of the file
#[no_mangle]
pub extern "C" fn h_w_read() {
    sx::init();
    let g = if sx::part() == 9 {
        Some(giant().1)
    } else {
        let mut s = family();
        s.audio = true;
        start(&s);
        None
    };
    let tag = value();
    let want = contents(&tag);
    let before = match Tag::read_from_path(F) {
        Ok(t) => t,
        Err(_) => return check!(false, "a well-formed file can be read"),
    };
    check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    match Tag::read_from_path(F) {
        Ok(t) => {
            reached!();
            check!(same_contents(&contents(&t), &want), "the saved tag reads back as it was");
            check!(t.filetype() == before.filetype(), "saving keeps the file type");
            check!(
                (t.duration() == before.duration())
                    & (t.channel_config() == before.channel_config())
                    & (t.sample_rate() == before.sample_rate())
                    & (t.avg_bitrate() == before.avg_bitrate())
                    & (t.max_bitrate() == before.max_bitrate()),
                "saving keeps the audio information"
            );
        }
        Err(_) => check!(false, "the saved file can be read"),
    }
    if let Some(g) = g {
        check!(sx::ungap(F, g.at, g.len), "the media data is kept");
    }
    sx::trace_bytes(&sx::get_file(F));
}

fn same_span(a: &[u8], x: &At, b: &[u8], y: &At) -> bool {
    x.end - x.pos == y.end - y.pos && a[x.pos..x.end] == b[y.pos..y.end]
}
/// `new` is `old` without the listed kinds, in order; containers are compared recursively
fn preserved(a: &[u8], old: &[At], b: &[u8], new: &[At], depth: usize) -> bool {
    let exempt = |c: &[u8; 4]| match depth {
        1 => c == b"udta",
        3 => c == b"ilst" || c == b"hdlr",
        _ => false,
    };
    let o: Vec<&At> = old.iter().filter(|x| !exempt(&x.cc)).collect();
    let n: Vec<&At> = new.iter().filter(|x| !exempt(&x.cc)).collect();
    if o.len() != n.len() {
        return false;
    }
    let mut ok = true;
    for k in 0..o.len() {
        if o[k].cc != n[k].cc {
            return false;
        }
        ok &= match (depth, &o[k].cc) {
            (0, b"moov") => {
                let (u, v) = (o[k].kid(b"udta"), n[k].kid(b"udta"));
                let mut r = preserved(a, &o[k].kids, b, &n[k].kids, 1);
                let v = match v {
                    Some(v) => v,
                    None => return false,
                };
                // everything in the user data except the metadata
                let none = vec![];
                let uk = u.map_or(&none, |u| &u.kids);
                let f = |l: &'_ [At]| -> Vec<usize> { (0..l.len()).filter(|i| &l[*i].cc != b"meta").collect() };
                let (p, q) = (f(uk), f(&v.kids));
                if p.len() != q.len() {
                    return false;
                }
                for i in 0..p.len() {
                    r &= same_span(a, &uk[p[i]], b, &v.kids[q[i]]);
                }
                // inside the metadata everything but the item list, and the handler if it was there
                if let Some(m) = u.and_then(|u| u.kid(b"meta")) {
                    let w = match v.kid(b"meta") {
                        Some(w) => w,
                        None => return false,
                    };
                    r &= a[m.body()..m.body() + 4] == b[w.body()..w.body() + 4];
                    r &= preserved(a, &m.kids, b, &w.kids, 3);
                    if let Some(h) = m.kid(b"hdlr") {
                        match w.kid(b"hdlr") {
                            Some(i) => r &= same_span(a, h, b, i),
                            None => return false,
                        }
                    }
                }
                r
            }
            (1, b"trak") | (10, b"mdia") | (11, b"minf") | (12, b"stbl") => {
                let d = if depth == 1 { 10 } else { depth + 1 };
                preserved(a, &o[k].kids, b, &n[k].kids, d)
            }
            // chunk offset tables keep their version, flags and number of entries
            (13, b"stco") | (13, b"co64") => {
                let (x, y) = (o[k], n[k]);
                x.end - x.body() == y.end - y.body() && a[x.body()..x.body() + 8] == b[y.body()..y.body() + 8]
            }
            _ => same_span(a, o[k], b, n[k]),
        };
    }
    ok
}

/// everything but the metadata survives a save, byte for byte and in order
#[no_mangle]
pub extern "C" fn h_w_keep() {
    sx::init();
    let (a, b);
    if sx::part() == 9 {
        let g = giant().1;
        let tag = value();
        check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
        b = match g.get() {
            Some(b) => b,
            None => return check!(false, "the media data is kept"),
        };
        a = g.a;
    } else {
        let s = family();
        a = start(&s);
        let tag = value();
        check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
        b = sx::get_file(F);
    }
    match (parse_file(&a), parse_file(&b)) {
        (Some(o), Some(n)) => {
            reached!();
            check!(preserved(&a, &o, &b, &n, 0), "everything except the metadata is preserved");
        }
        _ => check!(false, "the saved file consists of well-nested atoms"),
    }
    sx::trace_bytes(&b);
}

/// chunk offsets keep addressing the same media byte
#[no_mangle]
pub extern "C" fn h_w_chunks() {
    sx::init();
    if sx::part() == 9 {
        return huge();
    }
    let g;
    let mut a;
    if sx::part() == 10 {
        let x = giant().1;
        a = x.a.clone();
        g = Some(x);
    } else {
        a = serial(&family().tree());
        g = None;
    }
    let old = match parse_file(&a) {
        Some(o) => o,
        None => return check!(false, "the generated file is well formed"),
    };
    let es = entries(&a, &old);
    let ms = mdats(&old);
    if ms.is_empty() || es.is_empty() {
        return;
    }
    // every entry addresses some byte of some media data atom (only the first few and the last
    // entries of long tables are symbolic)
    let mut home = vec![];
    for (k, (p, wide)) in es.iter().enumerate() {
        let m = if es.len() <= 4 || k < 2 || k + 1 == es.len() { sx::choose(ms.len()) } else { 0 };
        let (mut lo, mut hi) = (ms[m].body() as u64, ms[m].end as u64);
        if let Some(g) = &g {
            hi += g.len;
            if m > 0 {
                lo += g.len;
            }
        }
        let v = if es.len() <= 4 || k < 2 || k + 1 == es.len() {
            let v = if *wide { sx::u64() } else { sx::u32() as u64 };
            sx::assume((lo <= v) & (v < hi));
            v
        } else {
            lo + (k as u64) % (hi - lo)
        };
        if *wide {
            a[*p..*p + 8].copy_from_slice(&v.to_be_bytes());
        } else {
            a[*p..*p + 4].copy_from_slice(&(v as u32).to_be_bytes());
        }
        home.push((m, v));
    }
    let tag = value();
    let b = match g {
        None => {
            sx::put_file(F, &a);
            check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
            sx::get_file(F)
        }
        Some(mut g) => {
            // (entries after the gap and its size together stay below or beyond 2^32 here)
            g.a = a;
            g.set();
            check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
            match g.get() {
                Some(b) => b,
                None => return check!(false, "the media data is kept"),
            }
        }
    };
    let new = match parse_file(&b) {
        Some(n) => n,
        None => return check!(false, "the saved file consists of well-nested atoms"),
    };
    let (fs, ns) = (entries(&b, &new), mdats(&new));
    check!(fs.len() == es.len() && ns.len() == ms.len(), "the chunk tables keep their entries");
    reached!();
    let mut ok = true;
    for (k, (p, wide)) in fs.iter().enumerate() {
        let (m, v) = home[k];
        let w = if *wide { be64(&b, *p) } else { be32(&b, *p) as u64 };
        ok &= w == v - ms[m].body() as u64 + ns[m].body() as u64;
    }
    check!(ok, "every chunk offset still addresses the same media byte");
    sx::trace_bytes(&b);
}

/// Media data of 8 GiB of which only the start is there: offsets close to and beyond 2^32.
fn huge() {
    let mut s = Spec::new();
    s.udta = sx::choose(3);
    s.ilst = sx::pick(&[0, 3]);
    s.ext = 16;
    s.traks = vec![(Some(1), Some(1))];
    let mut a = serial(&s.tree());
    let old = match parse_file(&a) {
        Some(o) => o,
        None => return check!(false, "the generated file is well formed"),
    };
    let es = entries(&a, &old);
    let m = mdats(&old)[0];
    let (lo, hi) = (m.body() as u64, m.pos as u64 + (8 << 30));
    let (x, y) = (sx::u32(), sx::u64());
    sx::assume((lo <= x as u64) & (lo <= y) & (y < hi));
    let mut low = a.clone();
    let put = |a: &mut [u8], x: u32, y: u64| {
        a[es[0].0..es[0].0 + 4].copy_from_slice(&x.to_be_bytes());
        a[es[1].0..es[1].0 + 8].copy_from_slice(&y.to_be_bytes());
        a[m.pos + 8..m.pos + 16].copy_from_slice(&(8u64 << 30).to_be_bytes());
    };
    put(&mut a, x, y);
    put(&mut low, lo as u32, lo);
    let tag = value();
    // with small offsets the save succeeds and tells how far the media data moves
    sx::put_file(F, &low);
    check!(tag.write_to_path(F).is_ok(), "saving into a file with cut off media data succeeds");
    let diff = sx::get_file(F).len() as i64 - a.len() as i64;
    sx::put_file(F, &a);
    let r = tag.write_to_path(F);
    let mut b = sx::get_file(F);
    let fits = (x as i64 + diff) >> 32 == 0;
    reached!();
    sx::trace(r.is_ok() as u64);
    if r.is_err() {
        check!(!fits, "a save is refused only if an offset does not fit");
        return check!(bytes_eq(&a, &b), "a refused save leaves the file as it was");
    }
    check!(fits, "a save which cannot represent an offset is refused");
    let p = (m.pos as i64 + diff) as usize;
    check!(b.len() as i64 == a.len() as i64 + diff && be64(&b, p + 8) == 8 << 30, "the media data is kept");
    let n = (m.end - m.pos) as u64;
    b[p + 8..p + 16].copy_from_slice(&n.to_be_bytes());
    let new = match parse_file(&b) {
        Some(n) => n,
        None => return check!(false, "the saved file consists of well-nested atoms"),
    };
    let fs = entries(&b, &new);
    check!(
        fs.len() == 2 && be32(&b, fs[0].0) as i64 == x as i64 + diff && be64(&b, fs[1].0) as i64 == y as i64 + diff,
        "every chunk offset still addresses the same media byte"
    );
}

/// the sizes in a saved file nest exactly and the item list has the documented structure
#[no_mangle]
pub extern "C" fn h_w_form() {
    sx::init();
    let s = family();
    start(&s);
    let mut tag = value();
    if sx::part() < 6 && sx::part() % 2 == 0 {
        // all data types, text beyond ASCII
        tag.set_data(Fourcc(*b"\xa9cmt"), data(sx::choose(KINDS), 3));
        tag.add_data(Fourcc(*b"\xa9cmt"), Data::Utf16("a\u{e9}\u{20ac}\u{1f600}".into()));
        tag.add_data(Fourcc(*b"\xa9cmt"), Data::Utf8("\u{e9}\u{1f600}".into()));
    }
    check!(tag.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    let b = sx::get_file(F);
    sx::trace_bytes(&b);
    let l = match parse_file(&b) {
        Some(n) => n,
        None => return check!(false, "the saved file consists of well-nested atoms"),
    };
    let one = |l: &[At], c: &[u8; 4]| l.iter().filter(|a| &a.cc == c).count() == 1;
    let m = find(&l, b"moov");
    let u = m.and_then(|m| m.kid(b"udta"));
    let e = u.and_then(|u| u.kid(b"meta"));
    let ok = match (m, u, e) {
        (Some(m), Some(u), Some(e)) => one(&l, b"moov") & one(&m.kids, b"udta") & one(&u.kids, b"meta") & one(&e.kids, b"ilst") & one(&e.kids, b"hdlr"),
        _ => false,
    };
    check!(ok, "a saved file has exactly one item list, in a metadata atom with one handler");
    let il = match ilst_of(&l) {
        Some(i) => i,
        None => return check!(false, "a saved file has an item list"),
    };
    reached!();
    let items = match parse_items(&b, il) {
        Some(i) => i,
        None => return check!(false, "the items of a saved list nest exactly"),
    };
    check!(check_items(&b, &items, &tag), "a saved list stores every value in its standard form");
}

/// the bytes of an item list against the tag, by the standard layout
pub fn check_items(b: &[u8], items: &[At], tag: &Tag) -> bool {
    let mut want: Vec<(DataIdent, Vec<Data>)> = vec![];
    for (i, d) in contents(tag) {
        match want.last_mut() {
            Some(w) if same_ident(&w.0, &i) => w.1.push(d),
            _ => want.push((i, vec![d])),
        }
    }
    if want.len() != items.len() {
        return false;
    }
    let mut ok = true;
    for (k, (i, ds)) in want.iter().enumerate() {
        let mut kids: &[At] = &items[k].kids;
        match i {
            DataIdent::Fourcc(c) => ok &= items[k].cc == c.0,
            DataIdent::Freeform { mean, name } => {
                if kids.len() < 2 {
                    return false;
                }
                let (x, y) = (&kids[0], &kids[1]);
                ok &= (items[k].cc == *b"----") & (x.cc == *b"mean") & (y.cc == *b"name");
                ok &= bytes_eq(&b[x.body()..x.end], &[b"\0\0\0\0", mean.as_bytes()].concat());
                ok &= bytes_eq(&b[y.body()..y.end], &[b"\0\0\0\0", name.as_bytes()].concat());
                kids = &kids[2..];
            }
        }
        if kids.len() != ds.len() {
            return false;
        }
        for (x, d) in kids.iter().zip(ds) {
            let (code, raw) = encoded(d);
            let mut w = code.to_be_bytes().to_vec();
            w.extend_from_slice(&[0; 4]);
            w.extend_from_slice(&raw);
            ok &= (x.cc == *b"data") & bytes_eq(&b[x.body()..x.end], &w);
        }
    }
    ok
}

/// saving twice, and saving over another tag
#[no_mangle]
pub extern "C" fn h_w_again() {
    sx::init();
    let s = family();
    let a = start(&s);
    let first = value();
    let second = value();
    check!(second.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    let once = sx::get_file(F);
    check!(second.write_to_path(F).is_ok(), "saving again succeeds");
    let twice = sx::get_file(F);
    check!(bytes_eq(&once, &twice), "saving the same tag again changes nothing");
    sx::put_file(F, &a);
    check!(first.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    check!(second.write_to_path(F).is_ok(), "saving over another tag succeeds");
    let over = sx::get_file(F);
    reached!();
    check!(bytes_eq(&once, &over), "the result of a save does not depend on the tag saved before");
    sx::trace_bytes(&over);
}
