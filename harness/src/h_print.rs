//! The printed form of tags and identifiers.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::time::Duration;

const M: u64 = 9;

/// a line, or an indented list if there are several values (only the first one if `plural` is empty)
struct Row {
    label: &'static str,
    plural: &'static str,
    id: [u8; 4],
    name: &'static str,
}
const fn row(label: &'static str, plural: &'static str, id: [u8; 4]) -> Row {
    Row { label, plural, id, name: "" }
}
const fn itunes(label: &'static str, plural: &'static str, name: &'static str) -> Row {
    Row { label, plural, id: *b"----", name }
}
/// everything that is printed, in order; rows without code are not texts
static ROWS: &[Row] = &[
    row("album artist", "album artists", *b"aART"),
    row("artist", "artists", *b"\xa9ART"),
    row("composer", "composers", *b"\xa9wrt"),
    itunes("lyricist", "lyricists", "LYRICIST"),
    row("album", "", *b"\xa9alb"),
    row("title", "", *b"\xa9nam"),
    row("genre", "genres", *b"\0\0\0\0"),
    row("year", "", *b"\xa9day"),
    row("track", "", *b"\0\0\0\0"),
    row("disc", "", *b"\0\0\0\0"),
    row("artwork", "artworks", *b"\0\0\0\0"),
    row("advisory rating", "", *b"\0\0\0\0"),
    row("media type", "", *b"\0\0\0\0"),
    row("grouping", "groupings", *b"\xa9grp"),
    row("description", "descriptions", *b"desc"),
    row("comment", "comments", *b"\xa9cmt"),
    row("category", "categories", *b"catg"),
    row("keyword", "keywords", *b"keyw"),
    row("copyright", "", *b"cprt"),
    row("encoder", "", *b"\xa9too"),
    row("tv show name", "", *b"tvsh"),
    row("tv network name", "", *b"tvnn"),
    row("tv episode name", "", *b"tven"),
    row("tv episode", "", *b"\0\0\0\0"),
    row("tv season", "", *b"\0\0\0\0"),
    row("bpm", "", *b"\0\0\0\0"),
    row("movement", "", *b"\xa9mvn"),
    row("work", "", *b"\xa9wrk"),
    row("movement count", "", *b"\0\0\0\0"),
    row("movement index", "", *b"\0\0\0\0"),
    row("duration", "", *b"\0\0\0\0"),
    row("channel config", "", *b"\0\0\0\0"),
    row("sample rate", "", *b"\0\0\0\0"),
    row("average bitrate", "", *b"\0\0\0\0"),
    row("maximum bitrate", "", *b"\0\0\0\0"),
    row("show movement", "", *b"\0\0\0\0"),
    row("gapless playback", "", *b"\0\0\0\0"),
    row("compilation", "", *b"\0\0\0\0"),
    itunes("isrc", "", "ISRC"),
    row("lyrics", "", *b"\xa9lyr"),
];
fn at(label: &str) -> usize {
    ROWS.iter().position(|r| r.label == label).unwrap_or(0)
}
fn ident(r: &Row) -> DataIdent {
    if r.name.is_empty() {
        DataIdent::Fourcc(Fourcc(r.id))
    } else {
        DataIdent::freeform("com.apple.iTunes", r.name)
    }
}
/// what is expected: the printed values of every row
struct Page {
    rows: Vec<Vec<String>>,
    free: Vec<(DataIdent, Vec<&'static str>)>,
    ftyp: String,
}
impl Page {
    fn new() -> Self {
        Self { rows: ROWS.iter().map(|_| vec![]).collect(), free: vec![], ftyp: String::new() }
    }
    fn text(&self) -> Vec<u8> {
        let mut o = vec![];
        for (r, v) in ROWS.iter().zip(&self.rows) {
            if v.len() > 1 && !r.plural.is_empty() {
                o.extend_from_slice(r.plural.as_bytes());
                o.extend_from_slice(b":\n");
                for s in v {
                    o.extend_from_slice(b"    ");
                    o.extend_from_slice(s.as_bytes());
                    o.push(b'\n');
                }
            } else if let Some(s) = v.first() {
                o.extend_from_slice(r.label.as_bytes());
                // flags have no value
                if !["show movement", "gapless playback", "compilation"].contains(&r.label) {
                    o.extend_from_slice(b": ");
                    o.extend_from_slice(s.as_bytes());
                }
                o.push(b'\n');
            }
        }
        for (id, v) in &self.free {
            if let DataIdent::Freeform { mean, name } = id {
                o.extend_from_slice(b"----:");
                o.extend_from_slice(mean.as_bytes());
                o.push(b':');
                o.extend_from_slice(name.as_bytes());
                o.extend_from_slice(b":\n");
                for s in v {
                    o.extend_from_slice(b"    ");
                    o.extend_from_slice(s.as_bytes());
                    o.push(b'\n');
                }
            }
        }
        o.extend_from_slice(b"filetype: ");
        o.extend_from_slice(self.ftyp.as_bytes());
        o.push(b'\n');
        o
    }
}
/// decimal digits
fn dec(mut n: u64) -> String {
    let mut v = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    unsafe { String::from_utf8_unchecked(v) }
}
fn join(l: &[&str]) -> String {
    let mut s = String::new();
    for x in l {
        s.push_str(x);
    }
    s
}
fn judge(t: &Tag, p: &Page) {
    reached!();
    let s = t.to_string();
    check!(bytes_eq(s.as_bytes(), &p.text()), "a tag is printed line by line");
    sx::trace_bytes(s.as_bytes());
}

#[no_mangle]
pub extern "C" fn h_print() {
    sx::init();
    let mut p = Page::new();
    let mut t = Tag::default();
    match sx::part() {
        0 => {
            // texts: one row with up to three values, among others
            let k = sx::choose(ROWS.len());
            sx::assume(ROWS[k].id != [0; 4]);
            let others = sx::choose(2) == 1;
            if others {
                for l in ["lyrics", "keyword", "album artist"] {
                    if at(l) != k {
                        t.add_data(ident(&ROWS[at(l)]), Data::Utf8("x".into()));
                        p.rows[at(l)].push("x".into());
                    }
                }
            }
            let n = sx::choose(4);
            for j in 0..n {
                let s = if ROWS[k].name.is_empty() { if j == 1 { unicode(1) } else { ascii(j + 1) } } else { ["q", "", "zz"][j].into() };
                let d = if j == 0 { Data::Utf8(s.clone()) } else { value(2 - j % 2, &s) };
                t.add_data(ident(&ROWS[k]), d);
                p.rows[k].push(s);
                if j == 0 && ROWS[k].name.is_empty() && sx::choose(2) == 1 {
                    // not a text
                    t.add_data(ident(&ROWS[k]), Data::Reserved(vec![1]));
                }
            }
            if !ROWS[k].name.is_empty() && n > 0 {
                let v = ["Data::Utf8(\"q\")", "Data::Utf8(\"\")", "Data::Utf16(\"zz\")"];
                p.free.push((ident(&ROWS[k]), v[..n].to_vec()));
            }
        }
        1 => {
            // genres: codes first, then names
            let mut names = vec![];
            for _ in 0..sx::choose(3) {
                let c = sx::u8();
                sx::assume(c < 90);
                t.add_standard_genre(c as u16);
                if c > 0 && c as usize <= STANDARD_GENRES.len() {
                    names.push(String::from(STANDARD_GENRES[c as usize - 1]));
                }
            }
            for _ in 0..sx::choose(3) {
                let s = ascii(2);
                t.add_custom_genre(s.clone());
                names.push(s);
            }
            p.rows[at("genre")] = names;
        }
        2 => {
            // track and disc
            let (n, m) = (sx::u16(), sx::u16());
            if sx::choose(2) == 0 {
                sx::assume((n < 120) & (m < 12));
            } else {
                sx::assume((n < 2) & (m > 65500));
            }
            let track = sx::choose(2) == 0;
            let v = Data::Reserved(vec![0, 0, (n >> 8) as u8, n as u8, (m >> 8) as u8, m as u8, 0, 0]);
            t.set_data(Fourcc(if track { *b"trkn" } else { *b"disk" }), v);
            let r = &mut p.rows[at(if track { "track" } else { "disc" })];
            match (n, m) {
                (0, 0) => {}
                (n, 0) => r.push(dec(n as u64)),
                (0, m) => r.push(join(&["? of ", &dec(m as u64)])),
                (n, m) => r.push(join(&[&dec(n as u64), " of ", &dec(m as u64)])),
            }
        }
        3 => {
            // numbers and flags
            let k = sx::choose(5);
            let l = ["bpm", "movement count", "movement index", "tv episode", "tv season"][k];
            let n = [0, 950, if k < 3 { 65_280 } else { 99_900 }, if k < 3 { 9_990 } else { u32::MAX - 255 }][sx::choose(4)] + sx::u8() as u32;
            match k {
                0 => t.set_bpm(n as u16),
                1 => t.set_movement_count(n as u16),
                2 => t.set_movement_index(n as u16),
                3 => t.set_tv_episode(n),
                _ => t.set_tv_season(n),
            }
            p.rows[at(l)].push(dec(n as u64));
            let b = if n < 1000 { sx::choose(8) } else { 0 };
            if b & 1 != 0 {
                t.set_compilation();
                p.rows[at("compilation")].push(String::new());
            }
            if b & 2 != 0 {
                t.set_gapless_playback();
                p.rows[at("gapless playback")].push(String::new());
            }
            if b & 4 != 0 {
                t.set_show_movement();
                p.rows[at("show movement")].push(String::new());
            }
        }
        4 => {
            // pictures: kind and rounded size
            let mut v = vec![];
            let c = sx::choose(4);
            for _ in 0..c {
                let n = if c == 1 { [0, 1, 1023, 1024, 2047, 2048, 1_048_575, 1_048_576, 3 << 20][sx::choose(9)] } else { sx::pick(&[9usize, 99, 1500]) };
                let (d, s) = match sx::choose(3) {
                    0 => (Data::Jpeg(vec![7; n]), "jpeg "),
                    1 => (Data::Png(vec![7; n]), "png "),
                    _ => (Data::Bmp(vec![7; n]), "bmp "),
                };
                let (n, unit) = if n < 1024 { (n, "") } else if n < 1 << 20 { (n >> 10, "k") } else { (n >> 20, "M") };
                v.push(join(&[s, &dec(n as u64), unit]));
                t.add_data(Fourcc(*b"covr"), d);
            }
            p.rows[at("artwork")] = v;
        }
        5 => {
            // information about the audio
            let mut i = AudioInfo::default();
            if sx::choose(2) == 1 {
                let c = sx::choose(7);
                use ChannelConfig::*;
                i.channel_config = Some([Mono, Stereo, Three, Four, Five, FiveOne, SevenOne][c]);
                p.rows[at("channel config")].push(["Mono", "Stereo", "3.0", "4.0", "5.0", "5.1", "7.1"][c].into());
                let c = sx::choose(13);
                use SampleRate::*;
                i.sample_rate = Some([Hz96000, Hz88200, Hz64000, Hz48000, Hz44100, Hz32000, Hz24000, Hz22050, Hz16000, Hz12000, Hz11025, Hz8000, Hz7350][c]);
                let hz = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350][c];
                p.rows[at("sample rate")].push(join(&[&dec(hz), "Hz"]));
            }
            for k in 0..2 {
                if sx::choose(2) == 1 {
                    let n = sx::u32();
                    sx::assume((n < 5000) | (n > u32::MAX - 4000));
                    let s = join(&[&dec(n as u64 / 1024), "kbps"]);
                    if k == 0 {
                        i.avg_bitrate = Some(n);
                        p.rows[at("average bitrate")].push(s);
                    } else {
                        i.max_bitrate = Some(n);
                        p.rows[at("maximum bitrate")].push(s);
                    }
                }
            }
            let f = ascii(5);
            p.ftyp = f.clone();
            t = Tag::new(f, i, vec![]);
        }
        6 => {
            // durations: hours, minutes and seconds; less than a second in the largest fitting unit
            let mut i = AudioInfo::default();
            let x = sx::u8() as u64;
            let base = [0u64, 1, 59, 999, 60, 599, 3500, 3599, 35_999, 90_000][sx::choose(10)];
            let unit = sx::choose(4);
            let (d, s) = match unit {
                0 => {
                    let n = base + x;
                    sx::assume(n < 1000);
                    (Duration::new(0, n as u32), join(&[&dec(n), "ns"]))
                }
                1 => {
                    let n = base + x;
                    sx::assume((n > 0) & (n < 1000));
                    (Duration::new(0, (n * 1000 + 999) as u32), join(&[&dec(n), "\u{b5}s"]))
                }
                2 => {
                    let n = base + x;
                    sx::assume((n > 0) & (n < 1000));
                    (Duration::new(0, (n * 1_000_000 + 5) as u32), join(&[&dec(n), "ms"]))
                }
                _ => {
                    let n = base + x;
                    sx::assume(n > 0);
                    let (h, m, sec) = (n / 3600, n / 60 % 60, n % 60);
                    let two = |v: u64| if v < 10 { join(&["0", &dec(v)]) } else { dec(v) };
                    let s = if h > 0 {
                        join(&[&dec(h), ":", &two(m), ":", &two(sec)])
                    } else if m > 0 {
                        join(&[&dec(m), ":", &two(sec)])
                    } else {
                        join(&[&dec(sec), "s"])
                    };
                    (Duration::new(n, 999_999_999), s)
                }
            };
            i.duration = Some(d);
            p.rows[at("duration")].push(s);
            t = Tag::new(String::new(), i, vec![]);
        }
        7 => {
            // tables
            let n = sx::u8();
            if sx::choose(2) == 0 {
                t.set_data(Fourcc(*b"stik"), Data::Reserved(vec![n]));
                let s = match n {
                    0 => "Movie",
                    1 => "Normal",
                    2 => "Audiobook",
                    5 => "Whacked Bookmark",
                    6 => "Music Video",
                    9 => "Short Film",
                    10 => "TV-Show",
                    11 => "Booklet",
                    _ => "",
                };
                if !s.is_empty() {
                    p.rows[at("media type")].push(s.into());
                }
            } else {
                t.set_data(Fourcc(*b"rtng"), Data::Reserved(vec![n]));
                p.rows[at("advisory rating")].push(match n {
                    0 => "Inoffensive",
                    2 => "Clean",
                    _ => "Explicit",
                }.into());
            }
        }
        8 => {
            // freeform items of any kind, after all the others; unknown codes are not printed
            for k in 0..sx::choose(3) {
                let id = DataIdent::freeform(ascii(k + 1), if k == 0 { ascii(2) } else { unicode(1) });
                let mut v = vec![];
                for _ in 0..1 + sx::choose(2) {
                    let (d, s) = match sx::choose(7) {
                        0 => (Data::Reserved(vec![]), "Data::Reserved([])"),
                        1 => (Data::Utf8("a b".into()), "Data::Utf8(\"a b\")"),
                        2 => (Data::Utf16("".into()), "Data::Utf16(\"\")"),
                        3 => (Data::Jpeg(vec![1, 2]), "Data::Jpeg"),
                        4 => (Data::Png(vec![]), "Data::Png"),
                        5 => (Data::BeSigned(vec![1, 200]), "Data::BeSigned([1, 200])"),
                        _ => (Data::Bmp(vec![3]), "Data::Bmp"),
                    };
                    t.add_data(id.clone(), d);
                    v.push(s);
                }
                p.free.push((id, v));
                t.set_data(Fourcc(*b"zzzz"), Data::Utf8("not shown".into()));
                t.set_album("q");
                p.rows[at("album")] = vec!["q".into()];
            }
        }
        _ => {
            // identifiers: bytes are shown as characters of the same number
            let c = fourcc();
            let mut want = String::new();
            for b in c.0.iter() {
                want.push(*b as char);
            }
            reached!();
            check!(bytes_eq(c.to_string().as_bytes(), want.as_bytes()), "a code is printed as its characters");
            check!(bytes_eq(DataIdent::Fourcc(c).to_string().as_bytes(), want.as_bytes()), "an identifier is printed as its code");
            let (m, n) = (ascii(2), unicode(1));
            let want = join(&["----:", &m, ":", &n]);
            check!(bytes_eq(FreeformIdent::new(&m, &n).to_string().as_bytes(), want.as_bytes()), "a freeform identifier is printed as its parts");
            check!(bytes_eq(DataIdent::freeform(m, n).to_string().as_bytes(), want.as_bytes()), "a freeform identifier is printed as its parts");
            return;
        }
    }
    judge(&t, &p);
}
fn value(k: usize, s: &str) -> Data {
    if k == 1 {
        Data::Utf8(s.into())
    } else {
        Data::Utf16(s.into())
    }
}
