//! Arbitrary and damaged files: reading never fails badly, saving never damages what it refuses.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::Cursor;

const M: u64 = 6;
/// no allocation may exceed this, while no file here is longer than 600 bytes
const LIMIT: u64 = 64 << 10;

fn raw(cc: &[u8; 4], content: Vec<u8>) -> Node {
    leaf(cc, content)
}
fn nested(path: &[&[u8; 4]], mut n: Node) -> Node {
    for cc in path.iter().rev() {
        n = full(cc, if *cc == b"meta" { vec![0; 4] } else { vec![] }, vec![n]);
    }
    n
}
const STBL: [&[u8; 4]; 5] = [b"moov", b"trak", b"mdia", b"minf", b"stbl"];
const ILST: [&[u8; 4]; 4] = [b"moov", b"udta", b"meta", b"ilst"];
pub const PLACES: usize = 17;

/// A file whose atom number `place` has arbitrary content of `n` bytes; the atom and those around
/// it state the size they have.
fn filled(place: usize, n: usize) -> Vec<u8> {
    let any = sx::bytes(n);
    let mut top = vec![ftyp()];
    let in_stbl = |n: Node| nested(&STBL, n);
    let in_entry = |n: Node| nested(&STBL, stsd(vec![n]));
    top.push(match place {
        0 => return any,
        1 => {
            let mut v = serial(&top);
            v.extend(any);
            return v;
        }
        2 => raw(b"moov", any),
        3 => nested(&ILST[..1], raw(b"udta", any)),
        4 => nested(&ILST[..2], raw(b"meta", any)),
        5 => nested(&ILST[..2], full(b"meta", vec![0; 4], vec![hdlr(), raw(b"ilst", any)])),
        6 => nested(&ILST, raw(b"\xa9nam", any)),
        7 => nested(&ILST, raw(b"----", any)),
        8 => nested(&ILST, list(b"covr", vec![raw(b"data", any)])),
        9 => nested(&STBL[..1], raw(b"trak", any)),
        10 => nested(&STBL[..3], raw(b"minf", any)),
        11 => nested(&STBL[..4], raw(b"stbl", any)),
        12 => in_stbl(raw(b"stsd", any)),
        13 => in_entry(full(b"mp4a", vec![0; 28], vec![raw(b"esds", any)])),
        14 => {
            // all bytes of the time scale and the duration but one are 0 or 255
            let mut any = any;
            let (at, n) = if any.first().map_or(false, |v| *v == 1) { (20, 12) } else { (12, 8) };
            let (k, f) = (sx::choose(n), sx::pick(&[0, 255]));
            for i in 0..n {
                if i != k && at + i < any.len() {
                    any[at + i] = f;
                }
            }
            nested(&STBL[..1], raw(b"mvhd", any))
        }
        15 => in_stbl(raw(b"stco", any)),
        _ => in_stbl(raw(b"co64", any)),
    });
    serial(&top)
}
/// how many arbitrary bytes at each place
fn amount(place: usize, small: bool) -> usize {
    let t = sx::tier() > 0;
    match place {
        0 => sx::choose(if t { 20 } else { 18 }),
        14 => sx::pick(&[0, 3, 4, 19, 20, 24, 31, 32, 36, 100]),
        13 => {
            if t {
                26
            } else if small {
                18
            } else {
                sx::pick(&[18, 24])
            }
        }
        6 | 7 if small && !t => sx::pick(&[0, 7, 12]),
        8 => sx::pick(&[0, 3, 7, 8, 9, 11]),
        15 | 16 => sx::pick(&[0, 7, 8, 12, 16, 20]),
        _ => {
            if t {
                26
            } else {
                sx::pick(&[0, 7, 21])
            }
        }
    }
}

/// containers of a complete file, with the bytes before their first child
fn deep(cc: &[u8; 4], depth: usize) -> Option<usize> {
    match (depth, cc) {
        (0, b"moov") | (1, b"trak") | (2, b"mdia") | (3, b"minf") | (4, b"stbl") | (1, b"udta") | (3, b"ilst") | (4, b"\xa9nam") | (4, b"----") => Some(0),
        (2, b"meta") => Some(4),
        (5, b"stsd") => Some(8),
        (6, b"mp4a") => Some(28),
        _ => None,
    }
}
/// descriptors which nest exactly
fn descriptors(b: &[u8], depth: usize) -> bool {
    let mut p = 0;
    while p < b.len() {
        let tag = b[p];
        let mut n = 0usize;
        for k in 0..4 {
            p += 1;
            if p >= b.len() {
                return false;
            }
            n = n << 7 | (b[p] & 0x7f) as usize;
            if b[p] < 0x80 {
                break;
            }
            if k == 3 {
                return false;
            }
        }
        p += 1;
        if n > b.len() - p {
            return false;
        }
        let skip = match (depth, tag) {
            (0, 3) => 3,
            (0, _) => return false,
            (1, 4) => 13,
            (_, 5) if n < 2 => return false,
            _ => n,
        };
        if n < skip || !descriptors(&b[p + skip..p + n], depth + 1) {
            return false;
        }
        p += n;
    }
    true
}
/// Sizes nest exactly all the way down, and there is at most one place for the metadata.
fn sound(b: &[u8]) -> bool {
    fn below_list(cc: &[u8; 4], depth: usize) -> Option<usize> {
        if depth > 2 && (cc == b"ilst" || depth == 4 && cc != b"stbl") {
            return None;
        }
        deep(cc, depth)
    }
    fn every<'a>(l: &'a [At], cc: &[u8; 4], o: &mut Vec<&'a At>) {
        for a in l {
            if &a.cc == cc {
                o.push(a);
            }
            every(&a.kids, cc, o);
        }
    }
    let few = |l: &[At], c: &[u8; 4]| l.iter().filter(|a| &a.cc == c).count() < 2;
    match tile(b, 0, b.len(), below_list, 0) {
        Some(l) => {
            let mut es = vec![];
            every(&l, b"esds", &mut es);
            for a in es {
                if a.end - a.body() < 4 || !descriptors(&b[a.body() + 4..a.end], 0) {
                    return false;
                }
            }
            let m = match find(&l, b"moov") {
                Some(m) => m,
                None => return false,
            };
            let u = m.kid(b"udta");
            let e = u.and_then(|u| u.kid(b"meta"));
            few(&l, b"moov") && few(&m.kids, b"udta") && u.map_or(true, |u| few(&u.kids, b"meta")) && e.map_or(true, |e| few(&e.kids, b"ilst"))
        }
        None => false,
    }
}
/// every atom header position of a file with everything in it
fn heads(b: &[u8]) -> Vec<At> {
    fn all(l: Vec<At>, o: &mut Vec<At>) {
        for mut a in l {
            let k = std::mem::replace(&mut a.kids, vec![]);
            o.push(a);
            all(k, o);
        }
    }
    let mut o = vec![];
    all(tile(b, 0, b.len(), deep, 0).unwrap_or(vec![]), &mut o);
    o
}
fn everything(mdat_first: bool) -> Vec<u8> {
    let items = list(
        b"ilst",
        vec![
            item(b"\xa9nam", 1, b"title"),
            list(b"----", vec![mean_atom(b"m"), name_atom(b"n"), data_atom(21, b"\x01")]),
        ],
    );
    let meta = full(b"meta", vec![0; 4], vec![hdlr(), items, leaf(b"free", vec![0; 3])]);
    let stbl = vec![stsd(vec![mp4a(1000, 900, 0x1210)]), table(false, 2), table(true, 1)];
    let mut top = vec![ftyp()];
    let mdat = leaf(b"mdat", vec![7; 9]);
    let moov = list(b"moov", vec![mvhd(), trak(stbl), list(b"udta", vec![meta])]);
    if mdat_first {
        top.extend(vec![mdat, moov]);
    } else {
        top.extend(vec![moov, mdat]);
    }
    serial(&top)
}
fn order() -> bool {
    sx::tier() > 0 && sx::boolean()
}
/// One atom header damaged: any 32 bit size, or any 64 bit size written in front of the content,
/// or any type.
fn damaged(kind: usize) -> Vec<u8> {
    let mut b = everything(order());
    let hs = heads(&b);
    let a = &hs[sx::choose(hs.len())];
    match kind {
        0 => {
            let n = split(b.len() - a.pos + 20, false) as u32;
            b[a.pos..a.pos + 4].copy_from_slice(&n.to_be_bytes())
        }
        1 | 2 => {
            b[a.pos..a.pos + 4].copy_from_slice(&1u32.to_be_bytes());
            let n = split(b.len() - a.pos + 20, true).to_be_bytes();
            if kind == 1 {
                // in place of the first eight bytes of the content
                let end = (a.pos + 16).min(b.len());
                let l = end - a.pos - 8;
                b[a.pos + 8..end].copy_from_slice(&n[..l]);
            } else {
                b.splice(a.pos + 8..a.pos + 8, n);
            }
        }
        _ => sx::fill(&mut b[a.pos + 4..a.pos + 8]),
    }
    b
}
/// any number: those below `len` one by one
fn split(len: usize, wide: bool) -> u64 {
    let k = sx::choose(1 + (len + 199) / 200);
    if k > 0 {
        let n = 200 * (k - 1) + sx::choose(200);
        if n >= len {
            sx::assume(false);
        }
        n as u64
    } else {
        let n = if wide { sx::u64() } else { sx::u32() as u64 };
        sx::assume(n >= len as u64);
        n
    }
}
/// cut off anywhere
fn cut() -> Vec<u8> {
    let mut b = everything(order());
    let n = b.len();
    b.truncate(sx::choose(256).min(n) + if n > 255 { sx::choose(2) * (n - 255) } else { 0 });
    b
}
/// any one byte of the file changed to anything
fn patched() -> Vec<u8> {
    let mut b = everything(false);
    let p = sx::choose(200) + 200 * sx::choose((b.len() + 199) / 200);
    if p >= b.len() {
        sx::assume(false);
    }
    b[p] = sx::u8();
    b
}
fn any_file(small: bool) -> Vec<u8> {
    let p = sx::part();
    match p {
        0..=16 => filled(p, amount(p, small)),
        17..=20 => damaged(p - 17),
        21 => cut(),
        _ => patched(),
    }
}
pub const PARTS: usize = 23;

/// use everything a tag offers for reading
fn look(t: &Tag) -> usize {
    let mut n = t.genres().count() + t.standard_genres().count() + t.artworks().count();
    n += t.track().0.unwrap_or(0) as usize + t.disc().1.unwrap_or(0) as usize;
    n += t.media_type().is_some() as usize + t.advisory_rating().is_some() as usize + t.bpm().unwrap_or(0) as usize;
    n += t.title().map_or(0, |s| s.len()) + t.filetype().len();
    n += t.duration().is_some() as usize;
    n
}

/// any bytes can be given to the reader
#[no_mangle]
pub extern "C" fn h_any_read() {
    sx::init();
    let b = any_file(false);
    let path = sx::part() % 2 == 1;
    if path {
        sx::put_file(F, &b);
    }
    sx::alloc_limit(LIMIT);
    let r = if path { Tag::read_from_path(F) } else { Tag::read_from(&mut Cursor::new(&b)) };
    match r {
        Ok(t) => {
            reached!();
            sx::trace(look(&t) as u64);
        }
        Err(_) => reached!(),
    }
    sx::alloc_limit(0);
    sx::trace(1);
}

/// any file can be given to the writer: it is refused and untouched, or it holds the tag
#[no_mangle]
pub extern "C" fn h_any_write() {
    sx::init();
    let b = any_file(true);
    sx::put_file(F, &b);
    let mut t = Tag::default();
    match sx::choose(2) {
        0 => {}
        _ => {
            t.set_title(ascii(2));
            t.set_artwork(Img::jpeg(vec![3; 70]));
        }
    }
    let before = Tag::read_from_path(F).is_ok();
    sx::alloc_limit(LIMIT);
    let r = t.write_to_path(F);
    sx::alloc_limit(0);
    let a = sx::get_file(F);
    match r {
        Err(_) => {
            reached!();
            check!(bytes_eq(&a, &b), "a file that cannot be saved into is left as it was");
        }
        Ok(()) => {
            reached!();
            if before && sound(&b) {
                reached!();
                match Tag::read_from_path(F) {
                    Ok(u) => check!(same_contents(&contents(&u), &contents(&t)), "what was saved reads back"),
                    Err(_) => check!(false, "a file that could be read before can be read after saving"),
                }
            }
        }
    }
    sx::trace_bytes(&a);
}
