//! Equality and copies.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::io::Cursor;

const M: u64 = 11;

fn ident_of(k: usize) -> DataIdent {
    match k {
        0 => DataIdent::Fourcc({
            let mut b = [0; 4];
            sx::fill(&mut b);
            Fourcc(b)
        }),
        1 => DataIdent::freeform(ascii(1), ascii(1)),
        _ => DataIdent::freeform(ascii(0), ascii(2)),
    }
}
fn value_of(n: usize) -> Data {
    let n = sx::choose(n);
    data(sx::choose(KINDS), n)
}
fn values() {
    let (a, b) = (value_of(4), value_of(4));
    check!((a == b) == same_data(&a, &b), "values are equal exactly if type and content are");
    check!((a != b) != (a == b) && (b == a) == (a == b), "equality is symmetric");
    let c = a.clone();
    check!(same_data(&a, &c) && a == c, "a copy of a value is equal to it");
    reached!();
}
fn idents() {
    let (a, b) = (ident_of(sx::choose(3)), ident_of(sx::choose(3)));
    check!((a == b) == same_ident(&a, &b), "identifiers are equal exactly if their parts are");
    check!((a != b) != (a == b) && (b == a) == (a == b), "equality is symmetric");
    let c = a.clone();
    check!(same_ident(&a, &c) && a == c, "a copy of an identifier is equal to it");
    let img = |k: usize| {
        let d = sx::bytes(k);
        match sx::choose(3) {
            0 => Img::bmp(d),
            1 => Img::jpeg(d),
            _ => Img::png(d),
        }
    };
    let (x, y) = (img(2), img(2));
    check!((x == y) == ((x.fmt == y.fmt) & bytes_eq(&x.data, &y.data)), "images are equal exactly if format and data are");
    check!(x.clone() == x, "a copy of an image is equal to it");
    reached!();
}
fn tag(n: usize) -> Tag {
    let mut t = Tag::default();
    for k in 0..sx::choose(n) {
        let id = ident_of((k + sx::choose(2)) % 3);
        for _ in 0..1 + sx::choose(2) {
            let d = match sx::choose(3) {
                0 => Data::Utf8(ascii(1)),
                1 => Data::Utf16(ascii(1)),
                _ => Data::BeSigned(sx::bytes(1)),
            };
            t.add_data(id.clone(), d);
        }
    }
    t
}
fn tags() {
    let (a, b) = (tag(3), tag(2 + sx::tier()));
    check!((a == b) == same_contents(&contents(&a), &contents(&b)), "tags are equal exactly if they have the same contents in the same order");
    check!((b == a) == (a == b), "equality is symmetric");
    reached!();
}
/// read from files which differ in one thing
fn files() {
    let (x, y) = (sx::u8(), sx::u8());
    let k = sx::choose(9);
    let make = |x: u8| -> Vec<u8> {
        let v = |j: usize| if j == k { x } else { 0x10 };
        let mut f = ftyp();
        f.data[3] = v(0) & 0x7f;
        let mut m = mvhd();
        m.data[18] = v(1);
        let stbl = vec![stsd(vec![mp4a(0x100 + v(2) as u32, 0x200 + v(3) as u32, 0x1200 | (v(4) as u16 & 0x78))])];
        let items = vec![item(b"\xa9nam", 1, &[v(5) & 0x7f]), list(b"----", vec![mean_atom(&[v(6) & 0x7f]), name_atom(b"n"), data_atom(0, &[v(7)])])];
        serial(&[
            f,
            list(b"moov", vec![m, trak(stbl), list(b"udta", vec![full(b"meta", vec![0; 4], vec![hdlr(), list(b"ilst", items)])])]),
            leaf(b"mdat", vec![v(8); 5]),
        ])
    };
    let (a, b) = match (Tag::read_from(&mut Cursor::new(make(x))), Tag::read_from(&mut Cursor::new(make(y)))) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return check!(false, "well-formed files can be read"),
    };
    let same = (a.filetype() == b.filetype())
        & (a.duration() == b.duration())
        & (a.channel_config() == b.channel_config())
        & (a.max_bitrate() == b.max_bitrate())
        & (a.avg_bitrate() == b.avg_bitrate())
        & same_contents(&contents(&a), &contents(&b));
    check!((a == b) == same, "tags are equal exactly if contents, file type and audio information are");
    check!((k == 8) <= same && (k == 4 || k == 8 || same == (x == y) || ((k == 0 || k == 5 || k == 6) && same == (x & 0x7f == y & 0x7f))), "reading distinguishes what differs");
    check!((a.audio_info() == b.audio_info()) == ((a.duration() == b.duration()) & (a.channel_config() == b.channel_config()) & (a.max_bitrate() == b.max_bitrate()) & (a.avg_bitrate() == b.avg_bitrate())), "audio information is compared by its values");
    reached!();
}
/// changing a copy leaves the original, and the other way round
fn copies() {
    let mut t = Tag::default();
    t.set_title(ascii(2));
    t.add_data(FreeformIdent::new("m", "n"), Data::BeSigned(sx::bytes(2)));
    t.add_data(FreeformIdent::new("m", "n"), Data::Utf16(ascii(1)));
    t.add_artwork(Img::png(sx::bytes(2)));
    let was = contents(&t);
    let c = t.clone();
    check!(same_contents(&contents(&c), &was) && c == t, "a copy of a tag is equal to it");
    let (mut x, y) = if sx::boolean() { (t, c) } else { (c, t) };
    match sx::choose(12) {
        0 => x.set_title(ascii(2)),
        1 => x.add_data(Fourcc(*b"\xa9nam"), Data::Utf8(ascii(1))),
        2 => x.remove_artworks(),
        3 => x.clear(),
        4 => x.data_mut().for_each(|(_, d)| *d = Data::Reserved(vec![7])),
        5 => x.strings_mut().for_each(|(_, s)| s.push('x')),
        6 => x.bytes_mut().for_each(|(_, s)| s.push(1)),
        7 => x.images_mut().for_each(|(_, i)| i.data.clear()),
        8 => x.take_data_of(&FreeformIdent::new("m", "n")).for_each(drop),
        9 => x.retain_data(|_, d| d.string().is_none()),
        10 => x.take_data().for_each(drop),
        _ => x.take_images().for_each(drop),
    }
    check!(same_contents(&contents(&y), &was), "changing one of two copies leaves the other alone");
    reached!();
}

#[no_mangle]
pub extern "C" fn h_eq() {
    sx::init();
    match sx::part() {
        0 => values(),
        1 => idents(),
        2 => tags(),
        3 => files(),
        _ => copies(),
    }
}
