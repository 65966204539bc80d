//! Workflows over files: read, edit, save, copy; what errors tell.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::Cursor;

const M: u64 = 8;
const G: &str = "g.m4a";
type Items = Vec<(DataIdent, Vec<Data>)>;

fn value_of(kind: usize, n: usize) -> Data {
    match kind {
        1 => Data::Utf8(if n == 3 { unicode(1) } else { ascii(n) }),
        2 => Data::Utf16(if n == 3 { unicode(1) } else { ascii(n) }),
        k => data(k, n),
    }
}
/// an item in the standard form
fn node_of(id: &DataIdent, ds: &[Data]) -> Node {
    let vals = ds.iter().map(|d| {
        let (code, payload) = encoded(d);
        data_atom(code, &payload)
    });
    match id {
        DataIdent::Fourcc(c) => list(&c.0, vals.collect()),
        DataIdent::Freeform { mean, name } => list(b"----", vec![mean_atom(mean.as_bytes()), name_atom(name.as_bytes())].into_iter().chain(vals).collect()),
    }
}
fn ident_of(k: usize) -> DataIdent {
    match k {
        0 => DataIdent::Fourcc(fourcc()),
        1 => DataIdent::freeform(ascii(2), ascii(1)),
        2 => DataIdent::Fourcc(Fourcc(*b"\xa9nam")),
        3 => DataIdent::freeform("com.apple.iTunes", "ISRC"),
        _ => DataIdent::Fourcc(Fourcc(*b"trkn")),
    }
}
/// items with different identifiers
fn items(rich: bool) -> Items {
    let mut v: Items = vec![];
    let n = sx::choose(4);
    let some = sx::choose(2);
    for k in 0..n {
        let id = ident_of((k + some) % 5);
        for e in v.iter() {
            sx::assume(!same_ident(&e.0, &id));
        }
        let c = if k == 0 { 1 + sx::choose(2) } else { 1 + k % 2 };
        let ds = (0..c).map(|j| if rich && n == 1 && j == 0 { value_of(sx::choose(KINDS), sx::choose(4)) } else { value_of((2 * k + 3 * j + some) % KINDS, [3, 0, 1, 2][(k + j) % 4]) }).collect();
        v.push((id, ds));
    }
    v
}
fn flat(l: &Items) -> Vec<(DataIdent, Data)> {
    l.iter().flat_map(|e| e.1.iter().map(move |d| (e.0.clone(), d.clone()))).collect()
}
/// replaces the item list of a file
fn put_items(l: &mut Vec<Node>, new: &mut Option<Vec<Node>>, depth: usize) {
    for n in l.iter_mut() {
        if &n.cc == [b"moov", b"udta", b"meta", b"ilst"][depth] {
            if depth == 3 {
                n.kids = new.take().unwrap_or_default();
            } else {
                put_items(&mut n.kids, new, depth + 1);
            }
        }
    }
}
fn layout() -> Spec {
    let mut s = Spec::new();
    s.audio = true;
    match sx::choose(4) {
        0 => {}
        1 => {
            s.mdat = 3;
            s.udta = 1;
            s.meta = 3;
            s.traks = vec![(Some(1), Some(1))];
        }
        2 => {
            s.mdat = 1;
            s.udta = 3;
            s.meta = 2;
            s.ilst_tail = true;
            s.ext = 7;
        }
        _ => {
            s.free = true;
            s.ilst_first = true;
            s.ext = 16 + 128;
        }
    }
    s
}
fn file_with(s: &Spec, items: Vec<Node>) -> Vec<u8> {
    let mut t = s.tree();
    put_items(&mut t, &mut Some(items), 0);
    let mut b = serial(&t);
    if let Some(l) = parse_file(&b) {
        // chunk offsets address the media data
        if let Some(m) = mdats(&l).first() {
            let p = m.body() as u64;
            for (at, wide) in entries(&b, &l) {
                if wide {
                    b[at..at + 8].copy_from_slice(&p.to_be_bytes());
                } else {
                    b[at..at + 4].copy_from_slice(&(p as u32).to_be_bytes());
                }
            }
        }
    }
    b
}
/// the bytes of the items of a file
fn spans(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let l = parse_file(b)?;
    let i = parse_items(b, ilst_of(&l)?)?;
    Some(i.iter().map(|a| b[a.pos..a.end].to_vec()).collect())
}
fn same_spans(a: &Option<Vec<Vec<u8>>>, b: &[Vec<u8>]) -> bool {
    match a {
        Some(a) => a.len() == b.len() && a.iter().zip(b).fold(true, |ok, (x, y)| ok & bytes_eq(x, y)),
        None => false,
    }
}

/// reading, editing and saving
#[no_mangle]
pub extern "C" fn h_edit() {
    sx::init();
    let s = layout();
    if sx::part() == 3 {
        return unusual(&s);
    }
    let l = items(sx::part() % 3 != 1 && sx::part() != 5);
    let a = file_with(&s, l.iter().map(|e| node_of(&e.0, &e.1)).collect());
    sx::put_file(F, &a);
    let mut t = match Tag::read_from_path(F) {
        Ok(t) => t,
        Err(_) => return check!(false, "a well-formed file can be read"),
    };
    check!(same_contents(&contents(&t), &flat(&l)), "all items are read");
    match sx::part() {
        0 => {
            reached!();
            check!(t.write_to_path(F).is_ok(), "a tag can be saved back");
            check!(bytes_eq(&sx::get_file(F), &a), "saving a tag back unchanged changes nothing");
        }
        1 | 4 | 5 => {
            let mut want = l.clone();
            // one of the identifiers, or a new one
            let k = sx::choose(l.len() + 1);
            let id = if k < l.len() {
                l[k].0.clone()
            } else {
                let id = DataIdent::Fourcc(Fourcc(*b"tmpo"));
                for e in l.iter() {
                    sx::assume(!same_ident(&e.0, &id));
                }
                id
            };
            let d = value_of([0, 1, 2][sx::choose(3)], if l.len() > 1 { 2 } else { sx::choose(4) });
            match sx::part() {
                1 => {
                    t.set_data(id.clone(), d.clone());
                    if k < l.len() {
                        want[k].1 = vec![d];
                    } else {
                        want.push((id, vec![d]));
                    }
                }
                4 => {
                    t.add_data(id.clone(), d.clone());
                    if k < l.len() {
                        want[k].1.push(d);
                    } else {
                        want.push((id, vec![d]));
                    }
                }
                _ => {
                    t.remove_data_of(&id);
                    if k < l.len() {
                        want.remove(k);
                    }
                }
            }
            reached!();
            check!(t.write_to_path(F).is_ok(), "an edited tag can be saved back");
            let want: Vec<Vec<u8>> = want.iter().map(|e| serial(&[node_of(&e.0, &e.1)])).collect();
            check!(same_spans(&spans(&sx::get_file(F)), &want), "an edit changes the edited item only");
        }
        _ => {
            // into another file
            let o = layout();
            let g = file_with(&o, vec![item(b"\xa9alb", 1, ascii(5).as_bytes())]);
            sx::put_file(G, &g);
            let before = match Tag::read_from_path(G) {
                Ok(t) => t,
                Err(_) => return check!(false, "a well-formed file can be read"),
            };
            reached!();
            check!(t.write_to_path(G).is_ok(), "a tag can be saved into another file");
            let want: Vec<Vec<u8>> = l.iter().map(|e| serial(&[node_of(&e.0, &e.1)])).collect();
            check!(same_spans(&spans(&sx::get_file(G)), &want), "the other file has the same items");
            check!(bytes_eq(&sx::get_file(F), &a), "the file which was read is not changed");
            match Tag::read_from_path(G) {
                Ok(t) => check!(
                    t.filetype() == before.filetype() && t.audio_info() == before.audio_info() && same_contents(&contents(&t), &flat(&l)),
                    "the other file keeps its own information"
                ),
                Err(_) => check!(false, "the other file can be read"),
            }
        }
    }
    sx::trace_bytes(&sx::get_file(F));
}

/// item lists in a form the library does not write itself: saving keeps the values, and a second save changes nothing
fn unusual(s: &Spec) {
    let mut v = vec![];
    let n = 1 + sx::choose(3);
    for k in 0..n {
        let mut d = data_atom(1, ascii(1 + k).as_bytes());
        match sx::choose(6) {
            0 => d.data[4..8].copy_from_slice(&sx::u32().to_be_bytes()),
            1 => v.push(leaf(b"free", some(k + 1))),
            2 => d.ext = true,
            3 => {
                let x = leaf(b"junk", some(2));
                v.push(list(b"\xa9nam", vec![x, d, data_atom(0, &some(2))]).ext(k == 1));
                continue;
            }
            4 => {
                v.push(list(b"----", vec![d, name_atom(b"N"), mean_atom(ascii(1).as_bytes())]));
                continue;
            }
            _ => {
                // an incomplete freeform identifier
                v.push(list(b"gsst", vec![mean_atom(b"m"), d]));
                continue;
            }
        }
        v.push(list(if k == 1 { b"\xa9ART" } else { b"\xa9nam" }, vec![d]));
    }
    let a = file_with(s, v);
    sx::put_file(F, &a);
    let t = match Tag::read_from_path(F) {
        Ok(t) => t,
        Err(_) => return check!(false, "a well-formed file can be read"),
    };
    reached!();
    let want = contents(&t);
    check!(t.write_to_path(F).is_ok(), "a tag can be saved back");
    let b = sx::get_file(F);
    match Tag::read_from_path(F) {
        Ok(u) => {
            check!(same_contents(&contents(&u), &want) && u == t, "saving a tag back keeps all of it");
            check!(u.write_to_path(F).is_ok() && bytes_eq(&sx::get_file(F), &b), "saving it back again changes nothing");
        }
        Err(_) => check!(false, "the saved file can be read"),
    }
    sx::trace_bytes(&b);
}

// ------------------------------------------------------------------ errors

fn file_of(items: Vec<Node>) -> Vec<Node> {
    vec![
        ftyp(),
        list(b"moov", vec![mvhd(), trak(vec![stsd(vec![mp4a(1, 1, 0x1210)])]), list(b"udta", vec![full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", items)])])]),
    ]
}
/// with 64-bit sizes everywhere
pub fn widen(l: Vec<Node>) -> Vec<Node> {
    l.into_iter()
        .map(|mut n| {
            n.kids = widen(std::mem::take(&mut n.kids));
            n.ext(true)
        })
        .collect()
}
fn error(n: &[Node]) -> Option<ErrorKind> {
    Tag::read_from(&mut Cursor::new(serial(n))).err().map(|e| e.kind)
}
struct Failing<'a> {
    c: Cursor<&'a [u8]>,
    left: usize,
    kind: std::io::ErrorKind,
}
impl std::io::Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(self.kind.into());
        }
        self.left -= 1;
        self.c.read(b)
    }
}
impl std::io::Seek for Failing<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if self.left == 0 {
            return Err(self.kind.into());
        }
        self.left -= 1;
        self.c.seek(p)
    }
}

/// the kind of an error tells what is wrong
#[no_mangle]
pub extern "C" fn h_errors() {
    sx::init();
    match sx::part() {
        0 => {
            // an item with any type code, any version
            let (code, version) = (sx::u32() & 0xff_ffff, sx::u8());
            let mut d = data_atom(code, b"ab");
            d.data[0] = version;
            let k = error(&file_of(vec![list(b"\xa9nam", vec![d])]));
            let known = (code == 0) | (code == 1) | (code == 2) | (code == 13) | (code == 14) | (code == 21) | (code == 27);
            reached!();
            match k {
                None => check!(known & (version == 0), "an unknown version or type code is an error"),
                Some(ErrorKind::UnknownVersion(v)) => check!((v == version) & (v != 0), "the error tells the unknown version"),
                Some(ErrorKind::UnknownDataType(c)) => check!((c == code) & !known & (version == 0), "the error tells the unknown type code"),
                _ => check!(false, "the error tells what is unknown"),
            }
        }
        1 => {
            // versions of the other atoms
            let v = sx::u8();
            sx::assume(v != 0);
            let mut top = file_of(vec![]);
            let moov = &mut top[1];
            let place = sx::choose(6);
            match place {
                0 => {
                    sx::assume(v != 1);
                    moov.kids[0].data[0] = v
                }
                1 => moov.kids[2].kids[0].data[0] = v,
                2 | 3 => {
                    let stsd = &mut moov.kids[1].kids[1].kids[1].kids[1].kids[0];
                    if place == 2 {
                        stsd.data[0] = v;
                    } else {
                        stsd.kids[0].kids[0].data[0] = v;
                    }
                }
                _ => {
                    let mut m = mean_atom(b"m");
                    let mut n = name_atom(b"n");
                    if place == 4 {
                        m.data[0] = v;
                    } else {
                        n.data[0] = v;
                    }
                    top = file_of(vec![list(b"----", vec![m, n, data_atom(1, b"x")])]);
                }
            }
            reached!();
            match error(&top) {
                Some(ErrorKind::UnknownVersion(w)) => check!(w == v, "the error tells the unknown version"),
                _ => check!(false, "an unknown version is reported as such"),
            }
        }
        2 => {
            // something is missing
            let mut top = file_of(vec![item(b"\xa9nam", 1, b"x")]);
            let cc = {
                let mut c = [0u8; 4];
                sx::fill(&mut c);
                c
            };
            match sx::choose(5) {
                0 => {
                    sx::assume(&cc != b"ftyp");
                    top[0].cc = cc;
                    reached!();
                    check!(matches!(error(&top), Some(ErrorKind::NoTag)), "a file without file type is no MPEG-4 file");
                }
                1 => {
                    sx::assume(&cc != b"moov");
                    top[1].cc = cc;
                    reached!();
                    match error(&top) {
                        Some(ErrorKind::AtomNotFound(f)) => check!(&f.0 == b"moov", "the error tells which atom is missing"),
                        _ => check!(false, "a missing movie atom is reported as such"),
                    }
                }
                2 => {
                    sx::assume((&cc != b"data") & (&cc != b"mean") & (&cc != b"name"));
                    let l = file_of(vec![list(b"\xa9nam", vec![leaf(&cc, vec![0; 9])])]);
                    reached!();
                    match error(&l) {
                        Some(ErrorKind::AtomNotFound(f)) => check!(&f.0 == b"data", "the error tells which atom is missing"),
                        _ => check!(false, "missing data is reported as such"),
                    }
                }
                3 => {
                    sx::assume(&cc != b"esds");
                    top[1].kids[1].kids[1].kids[1].kids[1].kids[0].kids[0].kids[0].cc = cc;
                    reached!();
                    match error(&top) {
                        Some(ErrorKind::AtomNotFound(f)) => check!(&f.0 == b"esds", "the error tells which atom is missing"),
                        _ => check!(false, "a missing stream description is reported as such"),
                    }
                }
                _ => {
                    let tag = sx::u8();
                    sx::assume(tag != 3);
                    let esds = &mut top[1].kids[1].kids[1].kids[1].kids[1].kids[0].kids[0].kids[0];
                    esds.data[4] = tag;
                    reached!();
                    match error(&top) {
                        Some(ErrorKind::DescriptorNotFound(d)) => check!(d == 3, "the error tells which descriptor is missing"),
                        _ => check!(false, "a missing descriptor is reported as such"),
                    }
                }
            }
        }
        3 => {
            // malformed text
            let b = sx::u8();
            sx::assume(b >= 0x80);
            let h = sx::pick(&[0xd8u8, 0xdb, 0xdc, 0xdf]);
            let (l, wide) = match sx::choose(4) {
                0 => (file_of(vec![item(b"\xa9nam", 1, &[b'a', b])]), false),
                1 => (file_of(vec![item(b"\xa9nam", 2, &[h, sx::u8()])]), true),
                2 => (file_of(vec![list(b"----", vec![mean_atom(&[b]), name_atom(b"n"), data_atom(1, b"x")])]), false),
                _ => (file_of(vec![list(b"----", vec![mean_atom(b"m"), name_atom(&[b]), data_atom(1, b"x")])]), false),
            };
            reached!();
            match error(&l) {
                Some(ErrorKind::Utf8StringDecoding(_)) => check!(!wide, "malformed UTF-8 is reported as such"),
                Some(ErrorKind::Utf16StringDecoding(_)) => check!(wide, "malformed UTF-16 is reported as such"),
                _ => check!(false, "malformed text is reported as such"),
            }
        }
        4 => {
            // errors of the reader are passed on
            use std::io::ErrorKind as K;
            let l = file_of(vec![item(b"\xa9nam", 1, b"x"), list(b"----", vec![mean_atom(b"m"), name_atom(b"n"), data_atom(2, b"xy")])]);
            let b = serial(&if sx::choose(2) == 1 { widen(l) } else { l });
            let kind = sx::pick(&[K::Other, K::PermissionDenied, K::TimedOut, K::UnexpectedEof]);
            let left = sx::choose(200);
            let mut r = Failing { c: Cursor::new(&b), left, kind };
            match Tag::read_from(&mut r) {
                Ok(t) => {
                    reached!();
                    check!(r.left > 0 || t.data().count() == 2, "a complete read is complete")
                }
                Err(e) => {
                    reached!();
                    match e.kind {
                        ErrorKind::Io(e) => check!(e.kind() == kind, "the error of the reader is passed on"),
                        _ => check!(false, "an error of the reader is reported as such"),
                    }
                }
            }
        }
        5 => {
            // cut off files
            let mut l = file_of(vec![item(b"\xa9nam", 1, &some(5))]);
            if sx::choose(2) == 1 {
                l = widen(l);
            }
            let head = l[0].size();
            let b = serial(&l);
            let n = sx::choose(16) + 16 * sx::choose(64);
            sx::assume(n < b.len());
            reached!();
            match Tag::read_from(&mut Cursor::new(&b[..n])) {
                Ok(_) => check!(false, "a file cut off in the movie atom is an error"),
                Err(e) => match e.kind {
                    ErrorKind::Io(e) => check!(e.kind() == std::io::ErrorKind::UnexpectedEof, "the end of the file is reported as such"),
                    ErrorKind::AtomNotFound(c) => check!(&c.0 == b"moov" && n == head, "the end of the file is reported as such"),
                    _ => check!(false, "the end of the file is reported as such"),
                },
            }
        }
        6 => {
            // the numbers of the tables
            let v = sx::u8();
            reached!();
            use std::convert::TryFrom;
            match MediaType::try_from(v) {
                Ok(_) => {}
                Err(e) => match e.kind {
                    ErrorKind::UnknownMediaType(w) => check!(w == v, "the error tells the unknown code"),
                    _ => check!(false, "an unknown media type is reported as such"),
                },
            }
            match ChannelConfig::try_from(v) {
                Ok(_) => check!((1..=7).contains(&v), "codes of channel configurations are 1 to 7"),
                Err(e) => match e.kind {
                    ErrorKind::UnknownChannelConfig(w) => check!(w == v, "the error tells the unknown code"),
                    _ => check!(false, "an unknown channel configuration is reported as such"),
                },
            }
        }
        7 => {
            // sizes which cannot be
            let mut b = serial(&file_of(vec![item(b"\xa9nam", 0, &some(9)), item(b"\xa9alb", 0, &some(9))]));
            let all = match parse_file(&b) {
                Some(l) => l,
                None => return check!(false, "the generated file is well formed"),
            };
            let at = match sx::choose(8) {
                0 => 0,
                1 => find(&all, b"moov").map_or(0, |m| m.pos),
                k => match ilst_of(&all) {
                    Some(i) => [i.pos, i.pos + 8, i.pos + 16, i.pos + 8 + 33, i.pos + 16 + 33, i.pos - hdlr().size()][k - 2],
                    None => return check!(false, "the generated file has an item list"),
                },
            };
            if sx::choose(2) == 0 {
                let n = sx::u8();
                sx::assume((n < 8) & (n != 1));
                b[at..at + 4].copy_from_slice(&(n as u32).to_be_bytes());
            } else {
                // the identifier stays, the next eight bytes become a size
                let n = sx::u64();
                sx::assume((n < 16) | (n > i64::MAX as u64));
                b[at..at + 4].copy_from_slice(&1u32.to_be_bytes());
                b[at + 8..at + 16].copy_from_slice(&n.to_be_bytes());
            }
            let e = Tag::read_from(&mut Cursor::new(&b)).err().map(|e| e.kind);
            reached!();
            check!(matches!(e, Some(ErrorKind::Parsing)), "an impossible size is reported as malformed");
        }
        _ => {
            // saving: what cannot be saved tells why
            let mut s = Spec::new();
            s.traks = vec![(Some(1), None)];
            let mut a = file_with(&s, vec![item(b"\xa9nam", 1, b"x")]);
            let l = match parse_file(&a) {
                Some(l) => l,
                None => return check!(false, "the generated file is well formed"),
            };
            let at = entries(&a, &l)[0].0;
            let which = sx::choose(6);
            let v = sx::u8();
            sx::assume(v != 0);
            match which {
                3 => a[at - 8] = v,
                4 => a[at - 1] ^= v,
                5 => {
                    let m = a.windows(4).position(|w| w == b"meta").unwrap_or(0);
                    a[m + 4] = v
                },
                0 => a[at..at + 4].copy_from_slice(&0xffff_fff0u32.to_be_bytes()),
                1 => {
                    let m = find(&l, b"moov").map_or(0, |m| m.pos);
                    a[m + 4] = b'M';
                }
                _ => a[4] = b'F',
            }
            sx::put_file(F, &a);
            let mut t = Tag::default();
            t.set_title(text(100));
            let r = t.write_to_path(F);
            reached!();
            match (which, r.map_err(|e| e.kind)) {
                (0, Err(ErrorKind::UnwritableData)) | (2, Err(ErrorKind::NoTag)) => {}
                (3, Err(ErrorKind::UnknownVersion(w))) | (5, Err(ErrorKind::UnknownVersion(w))) => check!(w == v, "the error tells the unknown version"),
                (4, Err(ErrorKind::Parsing)) => {}
                (1, Err(ErrorKind::AtomNotFound(f))) => check!(&f.0 == b"moov", "the error tells which atom is missing"),
                _ => check!(false, "the error tells why a tag cannot be saved"),
            }
            check!(bytes_eq(&sx::get_file(F), &a), "a refused save leaves the file as it was");
        }
    }
}
