//! Paths, open files and their histories.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::fs::{File, OpenOptions};
use std::io::{BufReader, ErrorKind as Io, Seek, SeekFrom};

const M: u64 = 10;
const G: &str = "g.m4a";

fn spec() -> Spec {
    let mut s = Spec::new();
    match sx::choose(5) {
        0 => {}
        1 => s.mdat = 1,
        2 => {
            s.mdat = 3;
            s.udta = 1;
            s.meta = 3;
            s.ilst_tail = true;
        }
        3 => {
            s.udta = 0;
            s.mdat_len = 9000;
        }
        _ => {
            s.meta = 4;
            s.free = true;
        }
    }
    s
}
fn value() -> Tag {
    let mut t = Tag::default();
    match sx::choose(3) {
        0 => {}
        1 => t.set_title(ascii(3)),
        _ => {
            t.set_artwork(Img::jpeg(blob(300)));
            t.set_data(FreeformIdent::new("com.test", "N"), Data::BeSigned(sx::bytes(2)));
        }
    }
    t
}
fn open() -> File {
    OpenOptions::new().read(true).write(true).open(F).unwrap()
}
fn is_io(e: &Error, k: Io) -> bool {
    matches!(&e.kind, ErrorKind::Io(i) if i.kind() == k)
}

/// through a handle the same as by the path; several operations through one handle
fn handle() {
    let a = serial(&spec().tree());
    let (s, t) = (value(), value());
    sx::put_file(F, &a);
    check!(s.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    let one = sx::get_file(F);
    check!(t.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    let two = sx::get_file(F);
    sx::put_file(F, &a);
    let mut f = open();
    check!(s.write_to(&f).is_ok(), "saving through an open file succeeds");
    check!(bytes_eq(&sx::get_file(F), &one), "saving through an open file gives the same as by its path");
    f.seek(SeekFrom::Start(0)).unwrap();
    let r = match sx::choose(3) {
        0 => Tag::read_from(&mut f),
        1 => Tag::read_from(&mut BufReader::new(&f)),
        _ => Tag::read_from(&mut &f),
    };
    match r {
        Ok(r) => check!(same_contents(&contents(&r), &contents(&s)), "the handle reads what it saved"),
        Err(_) => check!(false, "the handle reads what it saved"),
    }
    check!(bytes_eq(&sx::get_file(F), &one), "reading does not change the file");
    f.seek(SeekFrom::Start(0)).unwrap();
    check!(t.write_to(&f).is_ok(), "saving again through the same handle succeeds");
    check!(bytes_eq(&sx::get_file(F), &two), "saving again through the same handle gives the same as by the path");
    reached!();
    sx::trace_bytes(&two);
}

/// A handle which is not at the start of the file: what lies behind it is the file, what lies
/// before it is left alone; anywhere inside a file the save is refused.
fn inside() {
    let mut s = spec();
    s.traks = vec![];
    let a = serial(&s.tree());
    let t = value();
    let k = sx::pick(&[1usize, 8, 33, 9000]);
    sx::put_file(F, &a);
    check!(t.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    let want = sx::get_file(F);
    let pre = blob(k);
    sx::put_file(F, &[&pre[..], &a].concat());
    let mut f = open();
    f.seek(SeekFrom::Start(k as u64)).unwrap();
    check!(t.write_to(&f).is_ok(), "saving into an embedded file succeeds");
    let b = sx::get_file(F);
    check!(b.len() >= k && bytes_eq(&b[..k], &pre), "saving leaves what is before the handle alone");
    check!(bytes_eq(&b[k..], &want), "an embedded file is saved into like any other");
    f.seek(SeekFrom::Start(k as u64)).unwrap();
    match Tag::read_from(&mut f) {
        Ok(r) => check!(same_contents(&contents(&r), &contents(&t)), "an embedded file reads back"),
        Err(_) => check!(false, "an embedded file reads back"),
    }
    reached!();
    sx::trace_bytes(&b);
}
fn elsewhere() {
    let a = serial(&spec().tree());
    let t = value();
    sx::put_file(F, &a);
    let mut f = open();
    let p = 1 + sx::choose(256);
    sx::assume(p <= a.len() + 40);
    // any one position in the front, or around the end
    let p = if sx::boolean() { p } else { (a.len() + 41 - p.min(80)).max(1) };
    f.seek(SeekFrom::Start(p as u64)).unwrap();
    let r = t.write_to(&f);
    check!(r.is_err(), "there is no file in the middle of one");
    check!(bytes_eq(&sx::get_file(F), &a), "a refused save leaves the file as it was");
    reached!();
}

/// handles which cannot read or cannot write
fn rights() {
    let a = serial(&spec().tree());
    let t = value();
    sx::put_file(F, &a);
    let f = if sx::boolean() { File::open(F) } else { OpenOptions::new().write(true).open(F) }.unwrap();
    let r = t.write_to(&f);
    check!(matches!(r.map_err(|e| e.kind), Err(ErrorKind::Io(_))), "saving through a handle that cannot do it is an error");
    check!(bytes_eq(&sx::get_file(F), &a), "a refused save leaves the file as it was");
    reached!();
}

/// files which are not there
fn missing() {
    let t = value();
    match Tag::read_from_path(G) {
        Err(e) => check!(is_io(&e, Io::NotFound), "a missing file is reported"),
        Ok(_) => check!(false, "a missing file is reported"),
    }
    match t.write_to_path(G) {
        Err(e) => check!(is_io(&e, Io::NotFound), "a missing file is reported"),
        Ok(_) => check!(false, "a missing file is reported"),
    }
    check!(sx::file_len(G).is_none(), "no file is created");
    let mut w = vec![];
    check!(t.dump_to(&mut w).is_ok(), "dumping succeeds");
    // over nothing, something shorter, something longer
    match sx::choose(3) {
        0 => {}
        1 => sx::put_file(G, &blob(20)),
        _ => sx::put_file(G, &blob(20000)),
    }
    check!(t.dump_to_path(G).is_ok(), "dumping to a path succeeds");
    check!(bytes_eq(&sx::get_file(G), &w), "a dump replaces the file");
    reached!();
    sx::trace_bytes(&w);
}

/// other files are not touched, and handles opened before see the result
fn others() {
    let a = serial(&spec().tree());
    let b = serial(&spec().tree());
    let t = value();
    sx::put_file(F, &a);
    sx::put_file(G, &b);
    let mut early = File::open(F).unwrap();
    check!(t.write_to_path(F).is_ok(), "saving into a well-formed file succeeds");
    check!(bytes_eq(&sx::get_file(G), &b), "other files are left alone");
    match (Tag::read_from(&mut early), Tag::read_from_path(F)) {
        (Ok(x), Ok(y)) => {
            check!(same_contents(&contents(&x), &contents(&t)) && same_contents(&contents(&y), &contents(&t)), "a save is in place");
        }
        _ => check!(false, "a save is in place"),
    }
    reached!();
}

#[no_mangle]
pub extern "C" fn h_path() {
    sx::init();
    match sx::part() {
        0 => handle(),
        1 => inside(),
        2 => elsewhere(),
        3 => rights(),
        4 => missing(),
        _ => others(),
    }
}
