//! Input and output: readers that deliver in pieces, devices that fail.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

const M: u64 = 7;

/// A reader over bytes which delivers them in pieces: `mode` 0 one byte at a time, 1 three at a
/// time, 2 only call `k` is short, 3 call `k` is interrupted, 4 every other call is interrupted,
/// 5 only call `k` fails.
struct Pieces<'a> {
    b: &'a [u8],
    p: u64,
    mode: usize,
    k: usize,
    n: usize,
    /// seeks and reads fail together in mode 5
    hit: bool,
}
impl<'a> Pieces<'a> {
    fn new(b: &'a [u8], mode: usize, k: usize) -> Self {
        Pieces { b, p: 0, mode, k, n: 0, hit: false }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        let mut m = o.len();
        match self.mode {
            0 => m = m.min(1),
            1 => m = m.min(3),
            2 if self.n == self.k => m = m.min(1),
            3 if self.n == self.k => return Err(std::io::ErrorKind::Interrupted.into()),
            4 if self.n % 2 == 1 => return Err(std::io::ErrorKind::Interrupted.into()),
            5 if self.n == self.k => {
                self.hit = true;
                return Err(std::io::ErrorKind::Other.into());
            }
            _ => {}
        }
        let at = self.p.min(self.b.len() as u64) as usize;
        let m = m.min(self.b.len() - at);
        o[..m].copy_from_slice(&self.b[at..at + m]);
        self.p += m as u64;
        Ok(m)
    }
}
impl Seek for Pieces<'_> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        if self.mode == 5 {
            self.n += 1;
            if self.n == self.k {
                self.hit = true;
                return Err(std::io::ErrorKind::Other.into());
            }
        }
        let (base, o) = match s {
            SeekFrom::Start(p) => {
                self.p = p;
                return Ok(p);
            }
            SeekFrom::Current(o) => (self.p, o),
            SeekFrom::End(o) => (self.b.len() as u64, o),
        };
        match base.checked_add_signed(o) {
            Some(p) => {
                self.p = p;
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// any number from 1 to n (256 at most): which operation is hit is symbolic
fn any_of(n: usize) -> usize {
    let k = sx::u8() as usize;
    sx::assume(k < n);
    1 + k
}
fn info(t: &Tag) -> (String, Option<std::time::Duration>, [u64; 4]) {
    let f = |x: Option<u32>| x.map_or(u64::MAX, |v| v as u64);
    (
        t.filetype().to_owned(),
        t.duration(),
        [t.channel_config().map_or(99, |c| c as u64), t.sample_rate().map_or(99, |c| c as u64), f(t.max_bitrate()), f(t.avg_bitrate())],
    )
}
fn same_tag(a: &Tag, b: &Tag) -> bool {
    same_contents(&contents(a), &contents(b)) && info(a) == info(b)
}
fn same(a: &Result<Tag>, b: &Result<Tag>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same_tag(a, b),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// files with every kind of content; symbolic values inside
fn sample() -> Vec<u8> {
    let mut items = vec![];
    match sx::choose(4) {
        0 => {}
        1 => items.push(item(b"\xa9nam", 1, ascii(3).as_bytes())),
        2 => items.push(item(b"\xa9alb", 2, &[0, 0x41 + (sx::u8() & 15), 0, 0x42])),
        _ => {
            let mut l = list(b"----", vec![mean_atom(ascii(2).as_bytes()), name_atom(ascii(1).as_bytes())]);
            for _ in 0..2 {
                l.kids.push(data_atom(sx::pick(&[0, 13, 14, 21, 27]), &sx::bytes(3)));
            }
            items.push(leaf(b"free", vec![0; 5]));
            items.push(l);
            items.push(item(b"covr", 13, &blob(70)));
        }
    }
    // a value of an unknown type is an error, wherever it is noticed
    if sx::choose(4) == 3 {
        items.push(item(b"bad ", 77, b"x"));
    }
    let meta = full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", items)]).ext(sx::tier() == 0 || sx::boolean());
    let t = trak(vec![stsd(vec![mp4a(sx::u32(), 5, 0x1210)]), table(false, 1)]);
    let mut top = vec![ftyp(), leaf(b"mdat", some(6)), list(b"moov", vec![mvhd(), t, list(b"udta", vec![meta])])];
    if sx::boolean() {
        top.swap(1, 2);
    }
    serial(&top)
}

/// how a reader delivers its bytes does not matter
#[no_mangle]
pub extern "C" fn h_pieces() {
    sx::init();
    let mut b = sample();
    if sx::part() == 5 {
        // the same for files cut off anywhere
        let n = b.len();
        b.truncate((n * sx::choose(40)) / 40);
    }
    let want = Tag::read_from(&mut Cursor::new(&b));
    if want.is_ok() {
        reached!();
    } else {
        reached!();
    }
    match sx::part() {
        0 | 5 => {
            let mode = if sx::part() == 5 && sx::tier() == 0 { 0 } else { sx::pick(&[0, 1, 4]) };
            let got = Tag::read_from(&mut Pieces::new(&b, mode, 0));
            check!(same(&got, &want), "reading does not depend on how many bytes arrive at once");
        }
        1 | 2 => {
            let mode = 1 + sx::part();
            let mut p = Pieces::new(&b, 9, 0);
            check!(same(&Tag::read_from(&mut p), &want), "readers of the same bytes give the same result");
            let k = any_of(p.n);
            let got = Tag::read_from(&mut Pieces::new(&b, mode, k));
            check!(same(&got, &want), "one short or interrupted read does not matter");
        }
        3 => {
            // a failing reader is an error
            let mut p = Pieces::new(&b, 5, 0);
            check!(same(&Tag::read_from(&mut p), &want), "readers of the same bytes give the same result");
            let k = any_of(p.n);
            let mut p = Pieces::new(&b, 5, k);
            let got = Tag::read_from(&mut p);
            check!(p.hit && got.is_err(), "an error of the reader is reported");
        }
        _ => {
            // from a file, and from the middle of a stream
            sx::put_file(F, &b);
            check!(same(&Tag::read_from_path(F), &want), "a file reads like its bytes");
            let n = sx::pick(&[1, 8, 33]);
            let mut c = vec![0x11; n];
            c.extend_from_slice(&b);
            let mut r = Cursor::new(&c);
            r.set_position(n as u64);
            check!(same(&Tag::read_from(&mut r), &want), "reading starts where the reader stands");
        }
    }
    sx::trace(want.is_ok() as u64);
}

/// A writer which accepts bytes in pieces; the modes are those of `Pieces`
struct Drops {
    b: Vec<u8>,
    mode: usize,
    k: usize,
    n: usize,
    hit: bool,
}
impl Write for Drops {
    fn write(&mut self, o: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        let mut m = o.len();
        match self.mode {
            0 => m = m.min(1),
            1 => m = m.min(3),
            2 if self.n == self.k => m = m.min(1),
            3 if self.n == self.k => return Err(std::io::ErrorKind::Interrupted.into()),
            4 if self.n % 2 == 1 => return Err(std::io::ErrorKind::Interrupted.into()),
            5 if self.n == self.k => {
                self.hit = true;
                return Err(std::io::ErrorKind::Other.into());
            }
            6 if self.n == self.k => {
                self.hit = true;
                return Ok(0);
            }
            _ => {}
        }
        self.b.extend_from_slice(&o[..m]);
        Ok(m)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn tag() -> Tag {
    let mut t = Tag::default();
    match sx::choose(3) {
        0 => {}
        1 => t.set_title(ascii(2)),
        _ => {
            t.set_title(ascii(3));
            t.add_data(Fourcc(*b"\xa9nam"), Data::Utf16(ascii(2)));
            t.set_artwork(Img::jpeg(blob(40)));
            t.set_data(FreeformIdent::new("com.test", "N"), Data::BeSigned(sx::bytes(2)));
            t.add_data(FreeformIdent::new("com.test", "N"), Data::Reserved(sx::bytes(4)));
            t.add_data(Fourcc(*b"covr"), Data::Png(sx::bytes(3)));
            t.add_data(Fourcc(*b"covr"), Data::Bmp(sx::bytes(2)));
        }
    }
    t
}
/// how a writer takes the bytes of a dump does not matter; its errors are reported
#[no_mangle]
pub extern "C" fn h_drops() {
    sx::init();
    let t = tag();
    let mut want = vec![];
    check!(t.dump_to(&mut want).is_ok(), "a tag can be dumped");
    let mode = sx::choose(7);
    let mut k = 0;
    if mode == 2 || mode == 3 || mode > 4 {
        let mut d = Drops { b: vec![], mode: 9, k: 0, n: 0, hit: false };
        check!(t.dump_to(&mut d).is_ok() && d.n > 0, "a tag can be dumped");
        k = any_of(d.n);
    }
    let mut d = Drops { b: vec![], mode, k, n: 0, hit: false };
    let r = t.dump_to(&mut d);
    if mode < 5 {
        reached!();
        check!(r.is_ok() && bytes_eq(&d.b, &want), "dumping does not depend on how many bytes are taken at once");
    } else {
        reached!();
        check!(d.hit && r.is_err(), "an error of the writer is reported");
    }
    sx::trace_bytes(&d.b);
}

// ------------------------------------------------------------------ failing devices

/// which fault: (mode, kinds)
fn kinds() -> (u64, u64) {
    match sx::part() % 8 {
        0 => (sx::F_ERR, sx::K_READ),
        1 => (sx::F_SHORT, sx::K_READ),
        2 => (sx::F_ERR, sx::K_WRITE),
        3 => (sx::F_SHORT, sx::K_WRITE),
        4 => (sx::F_ZERO, sx::K_WRITE),
        5 => (sx::F_ERR, sx::K_SEEK),
        6 => (sx::F_ERR, sx::K_TRUNC),
        _ => (sx::F_ERR, sx::K_READ | sx::K_WRITE | sx::K_SEEK | sx::K_TRUNC),
    }
}
/// how often an operation touches the device, without any fault
fn counted(kinds: u64, f: impl FnOnce()) -> usize {
    sx::fault(sx::F_ERR, kinds, 1 << 40, false);
    f();
    let n = sx::fault_count() as usize;
    sx::fault(0, 0, 0, false);
    n
}
/// small and (parts 8 and up) larger than the buffers
fn device_file() -> Vec<u8> {
    let mut s = Spec::new();
    s.mdat = sx::pick(&[1, 2]);
    s.audio = true;
    s.udta = sx::pick(&[2, 1, 0]);
    s.ext = if sx::boolean() { 1 | 2 | 4 } else { 0 };
    if sx::part() >= 8 {
        s.mdat = 2;
        s.ext = 0;
        s.udta = sx::pick(&[2, 0]);
        s.mdat_len = 9000;
        s.ilst = 3;
        s.traks = vec![(Some(2100), None)];
    }
    serial(&s.tree())
}

/// saving on a device which fails once, or from some point on
#[no_mangle]
pub extern "C" fn h_fault_save() {
    sx::init();
    let b = device_file();
    let (mode, what) = kinds();
    let t = tag();
    sx::put_file(F, &b);
    let mut ok = false;
    let n = counted(what, || ok = t.write_to_path(F).is_ok());
    check!(ok, "saving into a well-formed file succeeds");
    let want = sx::get_file(F);
    sx::put_file(F, &b);
    if n == 0 {
        return sx::assume(false);
    }
    // thousands of single byte reads only in the thorough check
    let sticky = (sx::part() != 9 || sx::tier() > 0) && sx::boolean();
    let k = any_of(n) as u64;
    sx::fault(mode, what, k, sticky);
    let r = t.write_to_path(F);
    let hits = sx::fault_count();
    sx::fault(0, 0, 0, false);
    let a = sx::get_file(F);
    check!(hits >= k, "the fault happens");
    match r {
        Ok(()) => {
            reached!();
            check!(bytes_eq(&a, &want), "a save that succeeds is complete");
            check!(mode == sx::F_SHORT || what & sx::K_SEEK != 0, "a failing device is reported");
        }
        Err(_) => {
            reached!();
            check!(mode != sx::F_SHORT, "short transfers are no errors");
            if what == sx::K_READ {
                check!(bytes_eq(&a, &b), "a save that could not read the file leaves it untouched");
            }
        }
    }
    sx::trace_bytes(&a);
}

/// reading from a device which fails
#[no_mangle]
pub extern "C" fn h_fault_read() {
    sx::init();
    let b = device_file();
    let (mode, what) = kinds();
    sx::put_file(F, &b);
    let mut want = None;
    let n = counted(what, || want = Tag::read_from_path(F).ok());
    let want = match want {
        Some(w) => w,
        None => return check!(false, "a well-formed file can be read"),
    };
    if n == 0 {
        return sx::assume(false);
    }
    let k = any_of(n) as u64;
    let sticky = sx::boolean();
    sx::fault(mode, what, k, sticky);
    let r = Tag::read_from_path(F);
    sx::fault(0, 0, 0, false);
    match r {
        Ok(t) => {
            reached!();
            check!(same_tag(&t, &want), "a tag that was read is complete");
            check!(mode == sx::F_SHORT || what == sx::K_SEEK, "a failing read is reported");
        }
        Err(_) => {
            reached!();
            check!(mode != sx::F_SHORT, "short transfers are no errors");
        }
    }
    check!(bytes_eq(&sx::get_file(F), &b), "reading does not change the file");
    sx::trace(n as u64);
}

/// dumping to a device which fails
#[no_mangle]
pub extern "C" fn h_fault_dump() {
    sx::init();
    let (mode, what) = kinds();
    let mut t = tag();
    if sx::part() >= 8 {
        t.add_artwork(Img::png(blob(sx::pick(&[8000, 8192, 20000]))));
    }
    let mut want = vec![];
    check!(t.dump_to(&mut want).is_ok(), "a tag can be dumped");
    let mut ok = false;
    let n = counted(what, || ok = t.dump_to_path(F).is_ok());
    check!(ok && bytes_eq(&sx::get_file(F), &want), "dumping to a file writes the same bytes");
    if n == 0 {
        return sx::assume(false);
    }
    let k = any_of(n) as u64;
    let sticky = sx::boolean();
    sx::fault(mode, what, k, sticky);
    let r = t.dump_to_path(F);
    sx::fault(0, 0, 0, false);
    match r {
        Ok(()) => {
            reached!();
            check!(bytes_eq(&sx::get_file(F), &want), "a dump that succeeds is complete");
            check!(mode == sx::F_SHORT, "a failing write is reported");
        }
        Err(_) => {
            reached!();
            check!(mode != sx::F_SHORT, "short transfers are no errors");
        }
    }
    sx::trace(n as u64);
}
