//! Reading: what is extracted from files built here byte by byte.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::Cursor;
use std::time::Duration;

const M: u64 = 4;

fn wrap(items: Vec<Node>) -> Vec<Node> {
    vec![
        ftyp(),
        list(b"moov", vec![mvhd(), list(b"udta", vec![full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", items)])])]),
    ]
}
pub fn read(n: &[Node]) -> Result<Tag> {
    Tag::read_from(&mut Cursor::new(serial(n)))
}
fn sym4(not: &[&[u8; 4]]) -> [u8; 4] {
    let mut b = [0u8; 4];
    sx::fill(&mut b);
    for n in not {
        sx::assume(&b != *n);
    }
    b
}
/// a data atom with explicit version, 24 bit type code and locale
fn raw_data(version: u8, code: u32, locale: u32, payload: &[u8]) -> Node {
    let mut v = vec![version];
    v.extend_from_slice(&code.to_be_bytes()[1..]);
    v.extend_from_slice(&locale.to_be_bytes());
    v.extend_from_slice(payload);
    leaf(b"data", v)
}
/// what a data atom with this type code and payload means; None: not a type that can be read
fn decoded(code: u32, p: &[u8]) -> Option<Data> {
    match code {
        0 => Some(Data::Reserved(p.to_vec())),
        13 => Some(Data::Jpeg(p.to_vec())),
        14 => Some(Data::Png(p.to_vec())),
        21 => Some(Data::BeSigned(p.to_vec())),
        27 => Some(Data::Bmp(p.to_vec())),
        _ => None,
    }
}

// ------------------------------------------------------------------ extraction

/// a single item: any identifier, version, type code, locale
fn one_item() {
    let cc = sym4(&[b"----"]);
    let n = sx::choose(5);
    let version = sx::u8();
    let code = sx::u32() & 0xff_ffff;
    let locale = sx::u32();
    let mut p = sx::bytes(n);
    for b in p.iter_mut() {
        *b &= 0x7f;
    }
    let r = read(&wrap(vec![list(&cc, vec![raw_data(version, code, locale, &p)])]));
    if cc == *b"free" {
        reached!();
        return check!(matches!(&r, Ok(t) if t.is_empty()), "unused space in the item list is skipped");
    }
    if version != 0 {
        reached!();
        return check!(r.is_err(), "an unknown data version is an error");
    }
    let want = match code {
        1 => Some(Data::Utf8(unsafe { String::from_utf8_unchecked(p.clone()) })),
        2 if n % 2 == 1 => return,
        2 => {
            reached!();
            // with bytes below 0x80 there are no surrogates
            return check!(
                matches!(&r, Ok(t) if matches!(&contents(t)[..], [(DataIdent::Fourcc(c), Data::Utf16(s))] if bytes_eq(&c.0, &cc) && bytes_eq(&utf16(s), &p))),
                "utf-16 text is decoded"
            );
        }
        c => decoded(c, &p),
    };
    match (r, want) {
        (Ok(t), Some(d)) => {
            reached!();
            sx::trace(code as u64);
            check!(same_contents(&contents(&t), &[(DataIdent::Fourcc(Fourcc(cc)), d)]), "the value is read as stored");
        }
        (Err(_), None) => reached!(),
        (Ok(_), None) => check!(false, "an unknown type code is an error"),
        (Err(_), Some(_)) => check!(false, "a value of a known type can be read"),
    }
}

/// the children of an item in any arrangement
fn children() {
    let free = sx::boolean();
    let cc = if free { *b"----" } else { sym4(&[b"----", b"free"]) };
    let mut kids = vec![];
    let (mut mean, mut name) = (None, None);
    let mut want = vec![];
    let n = 1 + sx::choose(4);
    for k in 0..n {
        match sx::choose(4) {
            0 => {
                let p = sx::bytes(k);
                let c = sx::pick(&[0u32, 21]);
                kids.push(raw_data(0, c, 0, &p));
                want.push(if c == 0 { Data::Reserved(p) } else { Data::BeSigned(p) });
            }
            1 => {
                let s = ascii(k);
                kids.push(mean_atom(s.as_bytes()));
                mean = Some(s);
            }
            2 => {
                let s = ascii(k + 1);
                kids.push(name_atom(s.as_bytes()));
                name = Some(s);
            }
            _ => kids.push(leaf(&sym4(&[b"data", b"mean", b"name"]), sx::bytes(k))),
        }
    }
    let r = read(&wrap(vec![item(b"\xa9alb", 1, b"x"), list(&cc, kids)]));
    if want.is_empty() {
        reached!();
        return check!(r.is_err(), "an item without data is an error");
    }
    let id = match (free, mean, name) {
        (true, Some(m), Some(n)) => DataIdent::Freeform { mean: m, name: n },
        (true, _, _) => DataIdent::Fourcc(Fourcc(*b"----")),
        _ => DataIdent::Fourcc(Fourcc(cc)),
    };
    let first = (DataIdent::Fourcc(Fourcc(*b"\xa9alb")), Data::Utf8("x".into()));
    let mut all = vec![first];
    all.extend(want.into_iter().map(|d| (id.clone(), d)));
    if cc == *b"\xa9alb" {
        reached!();
    }
    reached!();
    match r {
        Ok(t) => check!(same_contents(&contents(&t), &all), "all data of an item is read, unknown children are skipped"),
        Err(_) => check!(false, "an item with data can be read"),
    }
}

/// equal identifiers are merged, at the first one
fn merged() {
    let n = 2 + sx::choose(3);
    let mut items = vec![];
    let mut want: Vec<(DataIdent, Vec<Data>)> = vec![];
    for k in 0..n {
        let d = sx::bytes(1);
        let (id, node) = match sx::choose(3) {
            0 => {
                let cc = sym4(&[b"----", b"free"]);
                (DataIdent::Fourcc(Fourcc(cc)), list(&cc, vec![raw_data(0, 0, 0, &d)]))
            }
            1 => {
                let (m, e) = (ascii(1), ascii(2));
                let node = list(b"----", vec![mean_atom(m.as_bytes()), name_atom(e.as_bytes()), raw_data(0, 0, 0, &d)]);
                (DataIdent::Freeform { mean: m, name: e }, node)
            }
            _ => {
                items.push(leaf(b"free", sx::bytes(k)));
                continue;
            }
        };
        items.push(node);
        match want.iter_mut().find(|w| same_ident(&w.0, &id)) {
            Some(w) => {
                reached!();
                w.1.push(Data::Reserved(d))
            }
            None => want.push((id, vec![Data::Reserved(d)])),
        }
    }
    let mut all = vec![];
    for (i, ds) in want {
        for d in ds {
            all.push((i.clone(), d));
        }
    }
    reached!();
    match read(&wrap(items)) {
        Ok(t) => check!(same_contents(&contents(&t), &all), "values of one identifier are merged in order"),
        Err(_) => check!(false, "repeated identifiers can be read"),
    }
}

/// atoms missing or added around the item list
fn around() {
    // a sibling with any other identifier
    let extra = |on: bool, not: &[&[u8; 4]]| -> Vec<Node> {
        if on {
            vec![leaf(&sym4(not), sx::bytes(3))]
        } else {
            vec![]
        }
    };
    let level = sx::choose(6);
    let place = sx::boolean();
    let cut = sx::choose(6); // what is missing
    let e = sx::choose(2) == 1;
    let mut around = |l: usize, not: &[&[u8; 4]], inner: Vec<Node>| -> Vec<Node> {
        let mut v = vec![];
        let on = e && l == level;
        if on && place {
            v.extend(extra(true, not));
        }
        v.extend(inner);
        if on && !place {
            v.extend(extra(true, not));
        }
        v
    };
    let title = ascii(2);
    let items = vec![item(b"\xa9nam", 1, title.as_bytes())];
    let ilst = if cut == 1 { vec![] } else { vec![list(b"ilst", items)] };
    let meta = if cut == 2 { vec![] } else { vec![full(b"meta", vec![0; 4], around(0, &[b"ilst"], ilst))] };
    let udta = if cut == 3 { vec![] } else { vec![list(b"udta", around(1, &[b"meta"], meta))] };
    // metadata in other places: of a track, of the file, directly in the movie
    let other = || full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", vec![item(b"\xa9nam", 1, b"other")])]);
    let decoy = if level == 5 { 1 + sx::choose(4) } else { 0 };
    let mut inside = around(2, &[b"udta", b"trak", b"mvhd"], udta);
    match decoy {
        1 => inside.insert(0, other()),
        2 => inside.push(list(b"trak", vec![list(b"udta", vec![other()]), list(b"mdia", vec![list(b"udta", vec![other()])])])),
        3 => inside.insert(0, list(b"meco", vec![list(b"udta", vec![other()])])),
        _ => {}
    }
    let moov = if cut == 4 { vec![] } else { vec![list(b"moov", inside)] };
    let kind = ascii(5);
    let mut top = if cut == 5 { vec![] } else { vec![leaf(b"ftyp", kind.as_bytes().to_vec())] };
    if decoy == 4 && cut != 5 {
        top.push(other());
        top.push(list(b"udta", vec![other()]));
    }
    top.extend(around(3, if cut == 5 { &[b"ftyp", b"moov"] } else { &[b"moov"] }, moov));
    let r = read(&top);
    match r {
        Err(_) => {
            reached!();
            check!(cut == 4 || cut == 5, "a file with a movie atom and a file type can be read")
        }
        Ok(t) => {
            check!(cut != 4, "a file without a movie atom is an error");
            check!(cut != 5, "a file without a file type is an error");
            check!(bytes_eq(t.filetype().as_bytes(), kind.as_bytes()), "the file type is read");
            check!(t.audio_info() == &AudioInfo::default(), "no audio information without a movie header and tracks");
            if cut > 0 {
                reached!();
                check!(t.is_empty(), "a file without metadata is an empty tag");
            } else {
                reached!();
                check!(matches!(t.title(), Some(s) if bytes_eq(s.as_bytes(), title.as_bytes())), "the title is read");
                check!(contents(&t).len() == 1, "only the items of the list are read");
            }
        }
    }
}

/// versions of the metadata and name atoms
fn versions() {
    let which = sx::choose(4);
    let v = sx::u8();
    let flags = sx::bytes(3);
    let fh = |k: usize| {
        let mut f = vec![0u8; 4];
        if k == which {
            f[0] = v;
            f[1..].copy_from_slice(&flags);
        }
        f
    };
    let mut mean = fh(0);
    mean.extend_from_slice(b"m");
    let mut name = fh(1);
    name.extend_from_slice(b"n");
    let mut st = fh(3);
    st.extend_from_slice(&[0; 4]);
    let items = vec![list(b"----", vec![leaf(b"mean", mean), leaf(b"name", name), raw_data(0, 1, 0, b"v")])];
    let f = vec![
        ftyp(),
        list(b"moov", vec![trak(vec![full(b"stsd", st, vec![])]), list(b"udta", vec![full(b"meta", fh(2), vec![list(b"ilst", items)])])]),
    ];
    let r = read(&f);
    reached!();
    check!(r.is_ok() == (v == 0), "unknown versions are an error, flags are not");
}

#[no_mangle]
pub extern "C" fn h_extract() {
    sx::init();
    match sx::part() {
        0 => one_item(),
        1 => children(),
        2 => merged(),
        3 => around(),
        _ => versions(),
    }
    reached!();
}

// ------------------------------------------------------------------ 64-bit sizes

/// the values in the file: texts, numbers, rates, what is skipped
struct Inside {
    text: String,
    bytes: Vec<u8>,
    rates: (u32, u32),
    skip: u8,
}

fn ext_tree(v: &Inside, bits: usize, inner: usize) -> Vec<Node> {
    let on = |k: usize| bits >> k & 1 == 1;
    let i = |k: usize| inner >> k & 1 == 1;
    let esds = mp4a(v.rates.0, v.rates.1, 0x1190);
    // atoms to be skipped, in front and behind
    let junk = |n: usize, k: usize| leaf(b"junk", vec![v.skip; n]).ext(i(k));
    let kids = esds.kids.into_iter().map(|k| k.ext(i(5))).chain(vec![junk(3, 3)]).collect();
    let esds = Node { ext: i(4), kids, ..esds };
    let items = vec![
        list(b"\xa9nam", vec![junk(2, 7), data_atom(1, v.text.as_bytes()).ext(i(0)), data_atom(1, b"").ext(i(1)), junk(0, 5)]).ext(on(0)),
        list(b"----", vec![mean_atom(b"me").ext(i(2)), junk(4, 6), name_atom(b"na").ext(i(3)), data_atom(21, &v.bytes).ext(i(0))]).ext(on(1)),
        leaf(b"free", vec![9; 5]).ext(i(1)),
        list(b"trkn", vec![data_atom(0, &[0, 0, 0, v.bytes[0], 0, 2]).ext(i(2))]).ext(on(0)),
    ];
    let stbl = list(b"stbl", vec![junk(5, 2), full(b"stsd", vec![0, 0, 0, 0, 0, 0, 0, 3], vec![junk(16, 7), esds, junk(8, 0)]).ext(i(6)), junk(1, 4)]).ext(on(6));
    let minf = list(b"minf", vec![leaf(b"smhd", vec![0; 4]).ext(i(7)), stbl, junk(9, 1)]).ext(on(5));
    let mdia = list(b"mdia", vec![junk(8, 0), minf, junk(2, 5)]).ext(on(4));
    let tr = list(b"trak", vec![leaf(b"tkhd", vec![0; 4]).ext(i(7)), mdia, junk(6, 2)]).ext(on(3));
    let ilst = list(b"ilst", items).ext(on(2));
    vec![
        leaf(b"ftyp", b"M4A qt  ".to_vec()).ext(on(7)),
        leaf(b"free", vec![1; 3]).ext(i(7)),
        list(
            b"moov",
            vec![
                junk(1, 0),
                mvhd().ext(i(6)),
                tr,
                list(b"udta", vec![leaf(b"name", vec![2; 2]).ext(i(5)), full(b"meta", vec![0; 4], vec![hdlr().ext(i(4)), junk(7, 1), ilst, junk(1, 3)]).ext(i(3)), junk(4, 6)]).ext(i(2)),
                junk(0, 3),
            ],
        )
        .ext(on(2) != i(0)),
        junk(2, 4),
    ]
}

/// a file with `len` more bytes at one position, which are not in memory
struct Gap {
    data: Vec<u8>,
    at: u64,
    len: u64,
    pos: u64,
}
impl std::io::Read for Gap {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (end, gap) = (self.data.len() as u64, self.at + self.len);
        let room = b.len() as u64;
        let n = if self.pos >= self.at && self.pos < gap {
            let n = room.min(gap - self.pos) as usize;
            b[..n].fill(0);
            n
        } else {
            let (from, to) = if self.pos < self.at { (self.pos, self.at) } else { (self.pos - self.len, end) };
            let n = room.min(to.saturating_sub(from)) as usize;
            let from = from.min(end) as usize;
            b[..n].copy_from_slice(&self.data[from..from + n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Gap {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let to = match p {
            Start(n) => n,
            End(n) => (self.data.len() as u64 + self.len).wrapping_add(n as u64),
            Current(n) => self.pos.wrapping_add(n as u64),
        };
        if to > i64::MAX as u64 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = to;
        Ok(to)
    }
}
/// start of the k-th atom that is skipped, behind the starts of those around it, and of its content
fn skipped(l: &[Node], pos: &mut usize, k: &mut usize, chain: &mut Vec<usize>) -> Option<usize> {
    for n in l {
        let start = *pos;
        chain.push(start);
        *pos += if n.ext { 16 } else { 8 } + n.data.len();
        if [*b"junk", *b"free", *b"tkhd", *b"smhd", *b"mdat"].contains(&n.cc) {
            if *k == 0 {
                return Some(start + 16);
            }
            *k -= 1;
        }
        if let Some(p) = skipped(&n.kids, pos, k, chain) {
            return Some(p);
        }
        chain.pop();
    }
    None
}
/// an atom that is skipped may have any size
fn huge() {
    let v = Inside { text: ascii(3), bytes: sx::bytes(2), rates: (sx::u32(), sx::u32()), skip: 7 };
    let mut l = ext_tree(&v, 0, 0);
    l.insert(2, leaf(b"mdat", vec![5; 4]));
    let plain = read(&l);
    let l = crate::h_more::widen(l);
    let mut b = serial(&l);
    let mut k = sx::choose(40);
    let mut chain = vec![];
    let at = match skipped(&l, &mut 0, &mut k, &mut chain) {
        Some(p) => p as u64,
        None => return sx::assume(false),
    };
    let len = (1u64 << sx::pick(&[8, 15, 16, 31, 32, 33, 47, 61])) - sx::choose(2) as u64;
    for p in chain {
        let n = be64(&b, p + 8) + len;
        b[p + 8..p + 16].copy_from_slice(&n.to_be_bytes());
    }
    let mut r = Gap { data: b, at, len, pos: 0 };
    match (plain, Tag::read_from(&mut r)) {
        (Ok(p), Ok(t)) => {
            reached!();
            check!(same_contents(&contents(&t), &contents(&p)) && t == p, "atoms of any size can be skipped");
            sx::trace(contents(&t).len() as u64);
        }
        _ => check!(false, "files with large atoms can be read"),
    }
}

/// storing sizes in 64 bits changes nothing about what is read
#[no_mangle]
pub extern "C" fn h_ext() {
    sx::init();
    if sx::part() == 3 {
        return huge();
    }
    let (a, b) = match sx::part() {
        0 => (sx::choose(256), 0),
        1 => (0, sx::choose(256)),
        _ => (255, sx::choose(256)),
    };
    let v = Inside { text: ascii(3), bytes: sx::bytes(2), rates: (sx::u32(), sx::u32()), skip: sx::u8() };
    let plain = read(&ext_tree(&v, 0, 0));
    let r = read(&ext_tree(&v, a, b));
    match (plain, r) {
        (Ok(p), Ok(t)) => {
            reached!();
            check!(same_contents(&contents(&t), &contents(&p)), "extended sizes do not change the values read");
            check!(contents(&t).len() == 4, "extended sizes do not change the values read");
            check!(t.audio_info() == p.audio_info() && t.filetype() == p.filetype(), "extended sizes do not change the information read");
            check!(t.max_bitrate() == Some(v.rates.0) && t.avg_bitrate() == Some(v.rates.1) && t.title() == Some(&v.text) && t.total_tracks() == Some(2) && t.duration() == Some(Duration::from_secs(5)), "extended sizes do not change the information read");
            sx::trace(contents(&t).len() as u64);
        }
        _ => check!(false, "files with extended sizes can be read"),
    }
}

// ------------------------------------------------------------------ audio information

/// a number whose bytes are all `fill` but for one symbolic byte
fn one_byte(width: usize) -> u64 {
    let fill = sx::pick(&[0u8, 0xff, 0x01]);
    let mut v = 0u64;
    let at = sx::choose(width);
    let b = sx::u8();
    for k in 0..width {
        v = v << 8 | if k == at { b } else { fill } as u64;
    }
    v
}
const SCALES: [u32; 11] = [0, 1, 2, 3, 600, 1000, 44100, 48000, 90000, 1_000_000_007, u32::MAX];

fn header(version: u8, scale: u32, dur: u64, pre: &[u8], tail: usize) -> Node {
    let mut v = vec![version];
    v.extend_from_slice(pre);
    if version == 0 {
        v.resize(12, 0x77);
        v.extend_from_slice(&scale.to_be_bytes());
        v.extend_from_slice(&(dur as u32).to_be_bytes());
    } else {
        v.resize(20, 0x77);
        v.extend_from_slice(&scale.to_be_bytes());
        v.extend_from_slice(&dur.to_be_bytes());
    }
    v.resize(v.len() + tail, 0);
    leaf(b"mvhd", v)
}

fn duration() {
    let version = sx::choose(2) as u8;
    let width = if version == 0 { 4 } else { 8 };
    let (scale, dur) = if sx::boolean() {
        (sx::pick(&SCALES), one_byte(width))
    } else {
        let mask = if version == 0 { u32::MAX as u64 } else { u64::MAX };
        (one_byte(4) as u32, sx::pick(&[0u64, 1, 999, 12345, 44100 * 245 + 7, u32::MAX as u64, mask, mask / 3]))
    };
    let flags = sx::bytes(3);
    let tail = sx::pick(&[0, 5, 80]);
    let f = vec![ftyp(), list(b"moov", vec![header(version, scale, dur, &flags, tail), list(b"udta", vec![])])];
    match read(&f) {
        Ok(t) => {
            reached!();
            let want = if scale == 0 {
                Duration::default()
            } else {
                let s = scale as u64;
                Duration::new(dur / s, ((dur % s) * 1_000_000_000 / s) as u32)
            };
            check!(t.duration() == Some(want), "the duration is the exact quotient, rounded down to a nanosecond");
        }
        Err(_) => check!(false, "a movie header of version 0 or 1 can be read"),
    }
}

fn mvhd_version() {
    let v = sx::u8();
    let mut b = vec![0u8; 40];
    b[0] = v;
    let r = read(&[ftyp(), list(b"moov", vec![leaf(b"mvhd", b)])]);
    reached!();
    check!(r.is_ok() == (v < 2), "unknown movie header versions are an error");
}

/// a descriptor whose length is written with `bytes` bytes
fn desc(tag: u8, bytes: usize, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    for k in (0..bytes).rev() {
        v.push((n >> (7 * k)) as u8 & 0x7f | if k > 0 { 0x80 } else { 0 });
    }
    v.extend_from_slice(body);
    v
}
fn rates() -> [SampleRate; 13] {
    use SampleRate::*;
    [Hz96000, Hz88200, Hz64000, Hz48000, Hz44100, Hz32000, Hz24000, Hz22050, Hz16000, Hz12000, Hz11025, Hz8000, Hz7350]
}
fn channels() -> [ChannelConfig; 7] {
    use ChannelConfig::*;
    [Mono, Stereo, Three, Four, Five, FiveOne, SevenOne]
}

fn audio() {
    let (a, b, c) = (1 + sx::choose(4), 1 + sx::choose(4), 1 + sx::choose(4));
    let (max, avg, spec) = (sx::u32(), sx::u32(), sx::u16());
    let before = sx::boolean();
    let more = sx::boolean();
    let mut ds = spec.to_be_bytes().to_vec();
    if more {
        ds.extend_from_slice(&sx::bytes(2));
    }
    let mut dc = sx::bytes(5);
    dc.extend_from_slice(&max.to_be_bytes());
    dc.extend_from_slice(&avg.to_be_bytes());
    let other = |v: &mut Vec<u8>| {
        let t = sx::u8();
        sx::assume((t != 4) & (t != 5));
        let n = sx::pick(&[0usize, 3]);
        v.extend_from_slice(&desc(t, 1, &vec![0x05; n]));
    };
    if before {
        other(&mut dc);
    }
    dc.extend_from_slice(&desc(5, c, &ds));
    if more {
        other(&mut dc);
    }
    let mut es = sx::bytes(3);
    if before {
        other(&mut es);
    }
    es.extend_from_slice(&desc(4, b, &dc));
    es.extend_from_slice(&desc(6, 1, &[2]));
    let mut body = vec![0u8; 4];
    body.extend_from_slice(&desc(3, a, &es));
    let m = full(b"mp4a", sx::bytes(28), if more { vec![leaf(b"esds", body), leaf(b"xtra", vec![1; 3])] } else { vec![leaf(b"esds", body)] });
    match read(&[ftyp(), list(b"moov", vec![trak(vec![stsd(vec![m])])])]) {
        Ok(t) => {
            reached!();
            check!((t.max_bitrate() == Some(max)) & (t.avg_bitrate() == Some(avg)), "the bitrates are read");
            let f = (spec >> 7 & 15) as usize;
            let g = (spec >> 3 & 15) as usize;
            check!(t.sample_rate() == rates().get(f).copied(), "the sample rate is read");
            let want = if g == 0 { None } else { channels().get(g - 1).copied() };
            check!(t.channel_config() == want, "the channel configuration is read");
            check!(t.duration().is_none(), "no duration without a movie header");
        }
        Err(_) => check!(false, "an audio sample description can be read"),
    }
}

/// which track describes the audio
fn tracks() {
    let n = sx::choose(4);
    let mut kids = vec![];
    let mut want = None;
    for k in 0..n {
        let max = 100 + k as u32;
        let t = match sx::choose(6) {
            0 => {
                if want.is_none() {
                    want = Some(max);
                }
                trak(vec![stsd(vec![mp4a(max, 1, 0x1210)])])
            }
            1 => {
                if want.is_none() {
                    want = Some(max);
                }
                trak(vec![table(false, 1), stsd(vec![leaf(b"avc1", vec![0; 9]), mp4a(max, 1, 0x1210)]), table(true, 1)])
            }
            2 => trak(vec![stsd(vec![leaf(b"avc1", vec![0; 9])])]),
            3 => trak(vec![]),
            4 => list(b"trak", vec![leaf(b"tkhd", vec![0; 4])]),
            _ => list(b"trak", vec![list(b"mdia", vec![list(b"minf", vec![])])]),
        };
        kids.push(t);
    }
    if sx::boolean() {
        kids.insert(0, mvhd());
    } else {
        kids.push(mvhd());
    }
    match read(&[ftyp(), list(b"moov", kids)]) {
        Ok(t) => {
            reached!();
            check!(t.max_bitrate() == want, "the first audio track is described");
            check!(t.sample_rate().is_some() == want.is_some() && t.channel_config().is_some() == want.is_some(), "audio information exactly if there is an audio track");
            check!(t.duration() == Some(Duration::from_secs(5)), "the duration is read");
        }
        Err(_) => check!(false, "a file with tracks can be read"),
    }
}

/// the numbers behind sample rates and channel configurations
fn constants() {
    let hz = [96000u32, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
    let cc = [1u8, 2, 3, 4, 5, 6, 8];
    use std::convert::TryFrom;
    let b = sx::u8();
    match SampleRate::try_from(b) {
        Ok(r) => check!(b < 13 && r.hz() == hz[b as usize], "sample rate table"),
        Err(_) => check!(b >= 13, "sample rate table"),
    }
    match ChannelConfig::try_from(b) {
        Ok(r) => check!(b >= 1 && b <= 7 && r.channel_count() == cc[b as usize - 1], "channel table"),
        Err(_) => check!(b == 0 || b > 7, "channel table"),
    }
    reached!();
}

#[no_mangle]
pub extern "C" fn h_audio() {
    sx::init();
    match sx::part() {
        0 => duration(),
        1 => mvhd_version(),
        2 => audio(),
        3 => tracks(),
        _ => constants(),
    }
    reached!();
}

// ------------------------------------------------------------------ text

/// the scalar values encoded by utf-8 bytes, by the definition; None if malformed
pub fn utf8_ok(p: &[u8]) -> bool {
    let mut i = 0;
    while i < p.len() {
        let b = p[i];
        let (n, lo, hi) = if b < 0x80 {
            (0, 0, 0)
        } else if b < 0xc2 {
            return false;
        } else if b < 0xe0 {
            (1, 0x80, 0xbf)
        } else if b < 0xf0 {
            (2, if b == 0xe0 { 0xa0 } else { 0x80 }, if b == 0xed { 0x9f } else { 0xbf })
        } else if b < 0xf5 {
            (3, if b == 0xf0 { 0x90 } else { 0x80 }, if b == 0xf4 { 0x8f } else { 0xbf })
        } else {
            return false;
        };
        if i + n >= p.len() {
            return false;
        }
        for k in 1..=n {
            let c = p[i + k];
            if k == 1 && (c < lo || c > hi) || c < 0x80 || c > 0xbf {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
fn utf16_ok(p: &[u8]) -> bool {
    let mut i = 0;
    while i + 1 < p.len() {
        let u = (p[i] as u16) << 8 | p[i + 1] as u16;
        i += 2;
        if u & 0xfc00 == 0xdc00 {
            return false;
        }
        if u & 0xfc00 == 0xd800 {
            if i + 1 >= p.len() {
                return false;
            }
            let v = (p[i] as u16) << 8 | p[i + 1] as u16;
            i += 2;
            if v & 0xfc00 != 0xdc00 {
                return false;
            }
        }
    }
    true
}

/// text is decoded exactly; malformed text is an error
#[no_mangle]
pub extern "C" fn h_text() {
    sx::init();
    let max = 4 + sx::tier();
    let part = sx::part();
    match part {
        // utf-8 in a value, the parts of an identifier, and the file type
        0 | 1 | 2 | 3 => {
            let p = sx::bytes(sx::choose(max + 1));
            let ok = utf8_ok(&p);
            let r = match part {
                0 => read(&wrap(vec![item(b"\xa9nam", 1, &p)])),
                1 => read(&wrap(vec![list(b"----", vec![mean_atom(&p), name_atom(b"n"), data_atom(1, b"")])])),
                2 => read(&wrap(vec![list(b"----", vec![mean_atom(b"m"), name_atom(&p), data_atom(1, b"")])])),
                _ => read(&[leaf(b"ftyp", p.clone()), list(b"moov", vec![])]),
            };
            sx::trace(ok as u64);
            match r {
                Ok(t) => {
                    reached!();
                    check!(ok, "malformed utf-8 is an error");
                    let l = contents(&t);
                    let got = match (part, l.first()) {
                        (0, Some((_, Data::Utf8(s)))) => s.as_bytes(),
                        (1, Some((DataIdent::Freeform { mean, .. }, _))) => mean.as_bytes(),
                        (2, Some((DataIdent::Freeform { name, .. }, _))) => name.as_bytes(),
                        (3, _) => t.filetype().as_bytes(),
                        _ => return check!(false, "text is read as text"),
                    };
                    check!(bytes_eq(got, &p), "utf-8 text is read byte for byte");
                }
                Err(_) => {
                    reached!();
                    check!(!ok, "well-formed utf-8 can be read");
                }
            }
        }
        _ => {
            let p = sx::bytes(2 * sx::choose(max));
            let ok = utf16_ok(&p);
            sx::trace(ok as u64);
            match read(&wrap(vec![item(b"\xa9nam", 2, &p)])) {
                Ok(t) => {
                    reached!();
                    check!(ok, "malformed utf-16 is an error");
                    match &contents(&t)[..] {
                        [(_, Data::Utf16(s))] => check!(bytes_eq(&utf16(s), &p), "utf-16 text is read unit for unit"),
                        _ => check!(false, "text is read as text"),
                    }
                }
                Err(_) => {
                    reached!();
                    check!(!ok, "well-formed utf-16 can be read");
                }
            }
        }
    }
}
