//! dump -> read
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::Cursor;

const M: u64 = 2;

fn ff() -> (String, String) {
    match sx::choose(3) {
        0 => (text(sx::pick(&[0, 1, 2, 3, 4, 8, 15, 16])), text(2)),
        1 => (text(3), text(sx::pick(&[0, 1, 2, 3, 4, 5, 8, 15, 16, 255, 256, 257]))),
        _ => (text(sx::pick(&[243, 244, 245, 255, 256, 257])), text(1)),
    }
}
/// small values for tags with several of them
fn small() -> Data {
    data(sx::pick(&[0, 1, 3]), sx::pick(&[0, 2]))
}

/// every tag survives being dumped and read
#[no_mangle]
pub extern "C" fn h_dump() {
    sx::init();
    let mut tag = Tag::default();
    match sx::part() {
        // every type, short and medium, any four-character identifier
        0 => {
            let n = sx::pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 239, 240, 247, 248, 255, 256, 257]);
            tag.set_data(fourcc(), data(sx::choose(KINDS), n));
        }
        // long values
        1 => {
            let n = sx::pick(&[4095usize, 4096, 8191, 8192, 8193, 16384, 65519, 65520, 65527, 65528, 65535, 65536, 65537, 70000]);
            tag.set_data(fourcc(), data(sx::choose(KINDS), n));
        }
        // freeform identifiers of all lengths
        2 => {
            let (m, n) = ff();
            tag.set_data(FreeformIdent::new(&m, &n), data(sx::choose(KINDS), 3));
        }
        // text beyond ascii, in values and identifiers
        3 => match sx::choose(4) {
            0 => tag.set_data(fourcc(), Data::Utf8(unicode(sx::choose(3)))),
            1 => tag.set_data(fourcc(), Data::Utf16(unicode(sx::choose(3)))),
            2 => tag.set_data(FreeformIdent::new(&unicode(sx::choose(3)), "n"), Data::Utf8(String::new())),
            _ => tag.set_data(FreeformIdent::new("m", &unicode(sx::choose(3))), Data::Utf16(String::new())),
        },
        // three scalar values
        5 => {
            let s = unicode(3);
            tag.set_data(fourcc(), if sx::boolean() { Data::Utf8(s) } else { Data::Utf16(s) })
        }
        // several identifiers with several values, in the order they were added
        _ => {
            let n = sx::choose(if sx::tier() > 0 { 4 } else { 3 });
            for k in 0..n {
                let id = if sx::boolean() { DataIdent::Fourcc(fourcc()) } else { DataIdent::freeform(text(1), text(k)) };
                match id {
                    DataIdent::Fourcc(f) => tag.add_data(f, small()),
                    DataIdent::Freeform { mean, name } => tag.add_data(FreeformIdent::new(&mean, &name), small()),
                }
                if k == 1 {
                    // more values for the first
                    let first = contents(&tag)[0].0.clone();
                    let more = [small(), Data::Bmp(blob(1))];
                    match &first {
                        DataIdent::Fourcc(f) => tag.add_all_data(*f, more),
                        DataIdent::Freeform { mean, name } => tag.add_all_data(FreeformIdent::new(mean, name), more),
                    }
                }
            }
        }
    }
    let want = contents(&tag);
    let mut out = Vec::new();
    check!(tag.dump_to(&mut out).is_ok(), "dump succeeds");
    let nests = parse_file(&out).map_or(false, |l| l.len() == 2 && ilst_of(&l).map_or(false, |i| parse_items(&out, i).is_some()));
    check!(nests, "the sizes in a dump nest exactly");
    let r = Tag::read_from(&mut Cursor::new(&out));
    reached!();
    match r {
        Ok(t) => {
            sx::trace(1);
            check!(same_contents(&contents(&t), &want), "the dumped tag reads back as it was");
            check!(t.is_empty() == want.is_empty(), "a tag is empty exactly if it has no values");
        }
        Err(_) => check!(false, "the dumped tag can be read"),
    }
    sx::trace_bytes(&out[..out.len().min(200)]);
}

/// dumping to a path and to a writer give the same well-formed bytes
#[no_mangle]
pub extern "C" fn h_dump_form() {
    sx::init();
    let mut tag = Tag::default();
    let n = sx::choose(3);
    if n > 0 {
        tag.set_data(fourcc(), data(sx::choose(KINDS), sx::pick(&[3, 300])));
    }
    if n > 1 {
        let (m, k) = if sx::boolean() { (text(sx::pick(&[0, 5])), text(2)) } else { (unicode(1), unicode(1)) };
        tag.set_data(FreeformIdent::new(&m, &k), Data::Utf16(unicode(1)));
        tag.add_data(FreeformIdent::new(&m, &k), data(sx::pick(&[1, 5]), 2));
    }
    let mut out = Vec::new();
    check!(tag.dump_to(&mut out).is_ok(), "dump succeeds");
    if sx::boolean() {
        sx::put_file(F, &sx::bytes(sx::pick(&[1, 40, 2000])));
    }
    check!(tag.dump_to_path(F).is_ok(), "dump succeeds");
    check!(bytes_eq(&sx::get_file(F), &out), "dumping to a path and to a writer give the same bytes");
    let l = match parse_file(&out) {
        Some(l) => l,
        None => return check!(false, "a dump consists of well-nested atoms"),
    };
    check!(l.len() == 2 && &l[0].cc == b"ftyp" && &l[1].cc == b"moov", "a dump is a file type and a movie atom");
    let il = match ilst_of(&l) {
        Some(i) => i,
        None => return check!(false, "a dump has an item list"),
    };
    let items = match parse_items(&out, il) {
        Some(i) => i,
        None => return check!(false, "the items of a dumped list nest exactly"),
    };
    reached!();
    check!(crate::h_write::check_items(&out, &items, &tag), "a dumped list stores every value in its standard form");
    sx::trace_bytes(&out);
}
