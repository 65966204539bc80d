//! The tag as a container: generic data operations, typed accessors, identifiers.
use crate::sx;
use crate::util::*;
use crate::{check, reached};
use mp4ameta::*;
use std::convert::TryFrom;

const M: u64 = 5;

// ------------------------------------------------------------------ model of the store

type Store = Vec<(DataIdent, Vec<Data>)>;

fn bytes_of(d: &Data) -> Option<&Vec<u8>> {
    match d {
        Data::Reserved(v) | Data::BeSigned(v) => Some(v),
        _ => None,
    }
}
fn str_of(d: &Data) -> Option<&String> {
    match d {
        Data::Utf8(s) | Data::Utf16(s) => Some(s),
        _ => None,
    }
}
fn img_of(d: &Data) -> Option<(usize, &Vec<u8>)> {
    match d {
        Data::Bmp(v) => Some((0, v)),
        Data::Jpeg(v) => Some((1, v)),
        Data::Png(v) => Some((2, v)),
        _ => None,
    }
}
fn fmt_of(f: &ImgFmt) -> usize {
    match f {
        ImgFmt::Bmp => 0,
        ImgFmt::Jpeg => 1,
        ImgFmt::Png => 2,
    }
}
/// a value of one of the three classes (bytes, text, image); the variant depends on `v`
fn of_class(class: usize, v: usize, n: usize) -> Data {
    match (class, v % 6) {
        (0, 0) | (0, 2) | (0, 4) => Data::Reserved(sx::bytes(n)),
        (0, _) => Data::BeSigned(sx::bytes(n)),
        (1, 0) | (1, 2) | (1, 4) => Data::Utf8(ascii(n)),
        (1, _) => Data::Utf16(ascii(n)),
        (_, 0) | (_, 3) => Data::Jpeg(sx::bytes(n)),
        (_, 1) | (_, 4) => Data::Png(sx::bytes(n)),
        _ => Data::Bmp(sx::bytes(n)),
    }
}
fn pos(m: &Store, id: &DataIdent) -> Option<usize> {
    m.iter().position(|e| same_ident(&e.0, id))
}
fn flat(m: &Store) -> Vec<(DataIdent, Data)> {
    let mut v = vec![];
    for (i, ds) in m {
        for d in ds {
            v.push((i.clone(), d.clone()));
        }
    }
    v
}
fn same_list(a: &[Data], b: &[Data]) -> bool {
    let mut ok = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        ok &= same_data(x, y);
    }
    ok
}
fn any_id(k: usize) -> DataIdent {
    if sx::boolean() {
        DataIdent::Fourcc(fourcc())
    } else {
        DataIdent::freeform(ascii(1), ascii(k % 2))
    }
}
/// any tag with up to two identifiers
fn any_store(tag: &mut Tag) -> Store {
    let mut m: Store = vec![];
    let n = sx::choose(3);
    for k in 0..n {
        let id = any_id(k);
        if let Some(_) = pos(&m, &id) {
            sx::assume(false);
        }
        let mut ds = vec![];
        let c = if k == 0 || sx::tier() > 0 { 1 + sx::choose(2) } else { 1 };
        for j in 0..c {
            let d = of_class(sx::choose(3), k + j + sx::part(), [1, 0, 2, 1][k + j + sx::part() % 2]);
            ds.push(d.clone());
            tag.add_data(id.clone(), d);
        }
        m.push((id, ds));
    }
    if n == 2 && sx::boolean() {
        // a third one with three values
        let id = DataIdent::fourcc(*b"thrd");
        if let Some(_) = pos(&m, &id) {
            sx::assume(false);
        }
        let ds: Vec<Data> = (0..3).map(|k| of_class((k + sx::part()) % 3, k, k)).collect();
        tag.add_all_data(id.clone(), ds.clone());
        m.push((id, ds));
    }
    m
}
/// an identifier in one of its three forms
macro_rules! with {
    ($id:expr, $form:expr, $i:ident, $e:expr) => {
        match ($id, $form) {
            (DataIdent::Fourcc(c), false) => {
                let $i = *c;
                $e
            }
            (DataIdent::Freeform { mean, name }, false) => {
                let $i = FreeformIdent::new(mean, name);
                $e
            }
            (id, _) => {
                let $i = id.clone();
                $e
            }
        }
    };
}
fn low(b: &[u8]) -> bool {
    b.first().map_or(true, |c| *c < 0x40)
}
/// drop identifiers without values
fn tidy(m: &mut Store) {
    m.retain(|e| !e.1.is_empty());
}
fn few() -> Vec<Data> {
    let n = sx::choose(3);
    (0..n).map(|k| of_class(sx::choose(3), k + 1, 1)).collect()
}

/// one operation on any tag, against the model
#[no_mangle]
pub extern "C" fn h_store() {
    sx::init();
    let mut t = Tag::default();
    let mut m = any_store(&mut t);
    let steps = 1 + sx::tier();
    for s in 0..steps {
        let op = if s == 0 { sx::part() } else { sx::choose(6) };
        step(&mut t, &mut m, op);
    }
    reached!();
    check!(same_contents(&contents(&t), &flat(&m)), "the tag holds exactly the values put into it, in order");
    check!(t.is_empty() == m.is_empty(), "a tag is empty exactly if it has no values");
    sx::trace(m.len() as u64);
}
pub const STORE_OPS: usize = 16;

fn step(t: &mut Tag, m: &mut Store, op: usize) {
    let id = any_id(0);
    let form = sx::boolean();
    let p = pos(m, &id);
    match op {
        0 => {
            let d = of_class(sx::choose(3), 0, 1);
            with!(&id, form, i, t.set_data(i, d.clone()));
            match p {
                Some(p) => m[p].1 = vec![d],
                None => m.push((id, vec![d])),
            }
        }
        1 => {
            let ds = few();
            with!(&id, form, i, t.set_all_data(i, ds.clone()));
            match p {
                Some(p) => m[p].1 = ds,
                None => m.push((id, ds)),
            }
            tidy(m);
        }
        2 => {
            let d = of_class(sx::choose(3), 2, 1);
            with!(&id, form, i, t.add_data(i, d.clone()));
            match p {
                Some(p) => m[p].1.push(d),
                None => m.push((id, vec![d])),
            }
        }
        3 => {
            let ds = few();
            with!(&id, form, i, t.add_all_data(i, ds.clone()));
            match p {
                Some(p) => m[p].1.extend(ds),
                None => m.push((id, ds)),
            }
            tidy(m);
        }
        4 => {
            with!(&id, form, i, t.remove_data_of(&i));
            if let Some(p) = p {
                m.remove(p);
            }
        }
        5 => {
            let got: Vec<Data> = with!(&id, form, i, t.take_data_of(&i).collect());
            let want = p.map(|p| m.remove(p).1).unwrap_or_default();
            check!(same_list(&got, &want), "taking returns all values of the identifier");
        }
        // removal by class
        6 => {
            let class = sx::choose(3);
            with!(
                &id,
                form,
                i,
                match class {
                    0 => t.remove_bytes_of(&i),
                    1 => t.remove_strings_of(&i),
                    _ => t.remove_images_of(&i),
                }
            );
            if let Some(p) = p {
                m[p].1.retain(|d| match class {
                    0 => bytes_of(d).is_none(),
                    1 => str_of(d).is_none(),
                    _ => img_of(d).is_none(),
                });
                tidy(m);
            }
        }
        // retention for one identifier
        7 => {
            let class = sx::choose(4);
            with!(
                &id,
                form,
                i,
                match class {
                    0 => t.retain_bytes_of(&i, |b| low(b)),
                    1 => t.retain_strings_of(&i, |s| low(s.as_bytes())),
                    2 => t.retain_images_of(&i, |g| low(g.data) || g.fmt.is_png()),
                    _ => t.retain_data_of(&i, |d| bytes_of(d).map_or(true, |b| low(b))),
                }
            );
            if let Some(p) = p {
                m[p].1.retain(|d| keep(d, class));
                tidy(m);
            }
        }
        // retention everywhere
        8 => {
            let class = sx::choose(4);
            let other = id.clone();
            match class {
                0 => t.retain_bytes(|i, b| low(b) || same_ident(i, &other)),
                1 => t.retain_strings(|i, s| low(s.as_bytes()) || same_ident(i, &other)),
                2 => t.retain_images(|i, g| low(g.data) || g.fmt.is_png() || same_ident(i, &other)),
                _ => t.retain_data(|i, d| bytes_of(d).map_or(true, |b| low(b)) || same_ident(i, &other)),
            }
            for e in m.iter_mut() {
                if !same_ident(&e.0, &id) {
                    e.1.retain(|d| keep(d, class));
                }
            }
            tidy(m);
        }
        // changes in place, for one identifier
        9 => {
            let class = sx::choose(4);
            with!(
                &id,
                form,
                i,
                match class {
                    0 => t.bytes_mut_of(&i).for_each(|b| b.push(7)),
                    1 => t.strings_mut_of(&i).for_each(|s| s.push('!')),
                    2 => t.images_mut_of(&i).for_each(|g| g.data.push(8)),
                    _ => t.data_mut_of(&i).for_each(change),
                }
            );
            if let Some(p) = p {
                m[p].1.iter_mut().for_each(|d| alter(d, class));
            }
        }
        // changes in place, everywhere
        10 => {
            let class = sx::choose(4);
            match class {
                0 => t.bytes_mut().for_each(|(_, b)| b.push(7)),
                1 => t.strings_mut().for_each(|(_, s)| s.push('!')),
                2 => t.images_mut().for_each(|(_, g)| g.data.push(8)),
                _ => t.data_mut().for_each(|(_, d)| change(d)),
            }
            for e in m.iter_mut() {
                e.1.iter_mut().for_each(|d| alter(d, class));
            }
        }
        // taking one class of values removes the identifier
        11 => {
            let all = p.map(|p| m.remove(p).1).unwrap_or_default();
            match sx::choose(3) {
                0 => {
                    let got: Vec<Vec<u8>> = with!(&id, form, i, t.take_bytes_of(&i).collect());
                    let want: Vec<Vec<u8>> = all.iter().filter_map(bytes_of).cloned().collect();
                    check!(got == want, "taking returns all byte values of the identifier");
                }
                1 => {
                    let got: Vec<String> = with!(&id, form, i, t.take_strings_of(&i).collect());
                    let want: Vec<String> = all.iter().filter_map(str_of).cloned().collect();
                    check!(got == want, "taking returns all strings of the identifier");
                }
                _ => {
                    let got: Vec<ImgBuf> = with!(&id, form, i, t.take_images_of(&i).collect());
                    let want: Vec<(usize, &Vec<u8>)> = all.iter().filter_map(img_of).collect();
                    let got: Vec<(usize, &Vec<u8>)> = got.iter().map(|g| (fmt_of(&g.fmt), &g.data)).collect();
                    check!(got == want, "taking returns all images of the identifier");
                }
            }
        }
        12 => {
            t.clear();
            m.clear();
        }
        // queries for one identifier
        13 => {
            let all = p.map(|p| m[p].1.clone()).unwrap_or_default();
            with!(&id, form, i, {
                let got: Vec<Data> = t.data_of(&i).cloned().collect();
                check!(same_list(&got, &all), "all values of an identifier are returned in order");
                let got: Vec<&[u8]> = t.bytes_of(&i).collect();
                let want: Vec<&[u8]> = all.iter().filter_map(bytes_of).map(|v| &v[..]).collect();
                check!(got == want, "all byte values of an identifier are returned");
                let got: Vec<&str> = t.strings_of(&i).collect();
                let want: Vec<&str> = all.iter().filter_map(str_of).map(|v| &v[..]).collect();
                check!(got == want, "all strings of an identifier are returned");
                let got: Vec<(usize, &[u8])> = t.images_of(&i).map(|g| (fmt_of(&g.fmt), g.data)).collect();
                let want: Vec<(usize, &[u8])> = all.iter().filter_map(img_of).map(|(f, v)| (f, &v[..])).collect();
                check!(got == want, "all images of an identifier are returned");
            });
        }
        // queries over everything
        14 => {
            let f = flat(m);
            let got: Vec<(DataIdent, Data)> = t.bytes().map(|(i, b)| (i.clone(), Data::Reserved(b.to_vec()))).collect();
            let want: Vec<(DataIdent, Data)> = f.iter().filter_map(|(i, d)| Some((i.clone(), Data::Reserved(bytes_of(d)?.clone())))).collect();
            check!(same_contents(&got, &want), "all byte values are returned with their identifiers");
            let got: Vec<(DataIdent, Data)> = t.strings().map(|(i, b)| (i.clone(), Data::Utf8(b.to_string()))).collect();
            let want: Vec<(DataIdent, Data)> = f.iter().filter_map(|(i, d)| Some((i.clone(), Data::Utf8(str_of(d)?.clone())))).collect();
            check!(same_contents(&got, &want), "all strings are returned with their identifiers");
            let got: Vec<(DataIdent, Data)> = t.images().map(|(i, g)| (i.clone(), [Data::Bmp, Data::Jpeg, Data::Png][fmt_of(&g.fmt)](g.data.to_vec()))).collect();
            let want: Vec<(DataIdent, Data)> = f.iter().filter(|(_, d)| img_of(d).is_some()).cloned().collect();
            check!(same_contents(&got, &want), "all images are returned with their identifiers");
        }
        // consuming queries
        _ => {
            let f = flat(m);
            let u = t.clone();
            check!(u == *t, "a clone equals the tag it was made from");
            let class = sx::choose(4);
            let got: Vec<(DataIdent, Data)> = match class {
                0 => u.take_bytes().map(|(i, b)| ((*i).clone(), Data::Reserved(b))).collect(),
                1 => u.take_strings().map(|(i, s)| ((*i).clone(), Data::Utf8(s))).collect(),
                2 => u.take_images().map(|(i, g)| ((*i).clone(), Data::from(g))).collect(),
                _ => u.take_data().map(|(i, d)| ((*i).clone(), d)).collect(),
            };
            let want: Vec<(DataIdent, Data)> = f
                .iter()
                .filter_map(|(i, d)| {
                    let d = match class {
                        0 => Data::Reserved(bytes_of(d)?.clone()),
                        1 => Data::Utf8(str_of(d)?.clone()),
                        2 => img_of(d).map(|_| d.clone())?,
                        _ => d.clone(),
                    };
                    Some((i.clone(), d))
                })
                .collect();
            check!(same_contents(&got, &want), "consuming a tag returns its values with their identifiers");
        }
    }
}
fn keep(d: &Data, class: usize) -> bool {
    match class {
        0 | 3 => bytes_of(d).map_or(true, |b| low(b)),
        1 => str_of(d).map_or(true, |s| low(s.as_bytes())),
        _ => img_of(d).map_or(true, |(f, b)| low(b) || f == 2),
    }
}
fn change(d: &mut Data) {
    *d = Data::Utf16("changed".into())
}
fn alter(d: &mut Data, class: usize) {
    match (class, d) {
        (0, Data::Reserved(v)) | (0, Data::BeSigned(v)) => v.push(7),
        (1, Data::Utf8(s)) | (1, Data::Utf16(s)) => s.push('!'),
        (2, Data::Bmp(v)) | (2, Data::Jpeg(v)) | (2, Data::Png(v)) => v.push(8),
        (3, d) => *d = Data::Utf16("changed".into()),
        _ => {}
    }
}

// ------------------------------------------------------------------ the view of a single value

/// accessors of a single value of every type
#[no_mangle]
pub extern "C" fn h_value() {
    sx::init();
    let kind = sx::choose(KINDS);
    let n = sx::choose(4);
    let mut d = if (kind == 1 || kind == 2) && sx::part() == 1 {
        let s = unicode(sx::choose(3));
        if kind == 1 {
            Data::Utf8(s)
        } else {
            Data::Utf16(s)
        }
    } else {
        data(kind, n)
    };
    let c = d.clone();
    check!(d == c && same_data(&d, &c), "a clone equals the value");
    let (_, raw) = encoded(&d);
    check!(d.len() == raw.len() as u64 && d.is_empty() == raw.is_empty(), "the length is that of the stored form in bytes");
    check!(
        d.is_reserved() == (kind == 0)
            && d.is_utf8() == (kind == 1)
            && d.is_utf16() == (kind == 2)
            && d.is_jpeg() == (kind == 3)
            && d.is_png() == (kind == 4)
            && d.is_be_signed() == (kind == 5)
            && d.is_bmp() == (kind == 6),
        "exactly one type test holds"
    );
    check!(
        d.is_bytes() == (kind == 0 || kind == 5) && d.is_string() == (kind == 1 || kind == 2) && d.is_image() == (kind == 3 || kind == 4 || kind == 6),
        "exactly one class test holds"
    );
    let b: Option<&[u8]> = match &d {
        Data::Reserved(v) | Data::Jpeg(v) | Data::Png(v) | Data::BeSigned(v) | Data::Bmp(v) => Some(v),
        _ => None,
    };
    let only = |k: usize| if k == kind { b } else { None };
    check!(
        d.reserved() == only(0) && d.jpeg() == only(3) && d.png() == only(4) && d.be_signed() == only(5) && d.bmp() == only(6),
        "each typed view returns the bytes of its own type"
    );
    let s = str_of(&d).map(|s| &s[..]);
    check!(d.utf8() == if kind == 1 { s } else { None } && d.utf16() == if kind == 2 { s } else { None }, "each text view returns the text of its own type");
    check!(d.bytes() == bytes_of(&d).map(|v| &v[..]) && d.string() == s, "class views");
    check!(d.image().map(|g| (fmt_of(&g.fmt), g.data)) == img_of(&d).map(|(f, v)| (f, &v[..])), "the image view has format and bytes");
    check!(d.image_data() == img_of(&d).map(|(_, v)| &v[..]), "the image view has the bytes");
    check!(c.clone().into_bytes() == bytes_of(&c).cloned() && c.clone().into_string() == str_of(&c).cloned(), "consuming views");
    check!(
        c.clone().into_image().map(|g| (fmt_of(&g.fmt), g.data)) == img_of(&c).map(|(f, v)| (f, v.clone())) && c.clone().into_image_data() == img_of(&c).map(|x| x.1.clone()),
        "consuming image views"
    );
    if let Some(g) = c.clone().into_image() {
        check!(same_data(&Data::from(g), &c), "an image converts back to the same value");
    }
    check!(
        d.bytes_mut().is_some() == c.is_bytes() && d.string_mut().is_some() == c.is_string() && d.image_mut().is_some() == c.is_image() && d.image_data_mut().is_some() == c.is_image(),
        "mutable views exist exactly for their class"
    );
    let class = if c.is_bytes() { 0 } else if c.is_string() { 1 } else { 2 };
    let mut e = c.clone();
    alter(&mut e, class);
    if let Some(v) = d.bytes_mut() {
        v.push(7)
    }
    if let Some(v) = d.string_mut() {
        v.push('!')
    }
    if let Some(v) = d.image_data_mut() {
        v.push(8)
    }
    check!(same_data(&d, &e), "mutable views change the value itself");
    // equality is by type and content
    let f = data(sx::choose(KINDS), 1);
    check!((f == c) == same_data(&f, &c), "values are equal exactly if type and content are");
    reached!();
}

// ------------------------------------------------------------------ identifiers

#[no_mangle]
pub extern "C" fn h_ident() {
    sx::init();
    let mk = || -> DataIdent {
        if sx::boolean() {
            let mut b = [0u8; 4];
            sx::fill(&mut b);
            DataIdent::Fourcc(Fourcc(b))
        } else {
            match sx::part() {
                0 => DataIdent::freeform(ascii(sx::choose(3)), ascii(sx::choose(3))),
                1 => DataIdent::freeform(unicode(1), unicode(1)),
                _ => DataIdent::freeform(text(sx::pick(&[5, 16])), text(sx::pick(&[5, 16]))),
            }
        }
    };
    let (a, b) = (mk(), mk());
    let want = same_ident(&a, &b);
    check!((a == b) == want, "identifiers are equal exactly if all their parts are");
    check!(ident::idents_match(&a, &b) == want && ident::idents_match(&b, &a) == want, "matching identifiers are equal ones");
    match &a {
        DataIdent::Fourcc(c) => {
            check!((*c == b) == want, "a four-character code equals the identifier made of it");
            check!(ident::idents_match(c, &b) == want, "matching identifiers are equal ones");
            check!(same_ident(&DataIdent::from(*c), &a) && same_ident(&DataIdent::fourcc(c.0), &a), "conversion keeps the code");
            check!(matches!(a.fourcc(), Some(f) if bytes_eq(&f.0, &c.0)) && a.freeform().is_none() && **c == c.0, "a code identifier has a code only");
            check!(matches!(Ident::fourcc(c), Some(f) if bytes_eq(&f.0, &c.0)) && Ident::freeform(c).is_none(), "a code identifier has a code only");
        }
        DataIdent::Freeform { mean, name } => {
            let f = FreeformIdent::new(mean, name);
            check!((f == b) == want, "a freeform identifier equals the identifier made of it");
            check!(ident::idents_match(&f, &b) == want, "matching identifiers are equal ones");
            check!(same_ident(&DataIdent::from(&f), &a) && same_ident(&DataIdent::from(f.clone()), &a), "conversion keeps mean and name");
            check!(a.fourcc().is_none() && matches!(a.freeform(), Some(g) if g.mean == mean && g.name == name), "a freeform identifier has mean and name only");
            check!(Ident::fourcc(&f).is_none() && Ident::freeform(&f) == Some(f.clone()), "a freeform identifier has mean and name only");
        }
    }
    sx::trace(want as u64);
    reached!();
}

// ------------------------------------------------------------------ typed accessors

/// A tag with an item of another identifier and, possibly, several values under this one.
fn mixed(id: &DataIdent) -> (Tag, Vec<Data>) {
    let mut t = Tag::default();
    t.add_data(Fourcc(*b"oth1"), Data::Utf8("one".into()));
    let mut l = vec![];
    let n = sx::choose(3);
    for k in 0..n {
        let d = of_class(sx::choose(3), k, sx::choose(2 + 3 * (k % 2)));
        t.add_data(id.clone(), d.clone());
        l.push(d);
    }
    t.add_data(Fourcc(*b"oth2"), Data::Reserved(vec![2]));
    (t, l)
}
/// the values under an identifier are exactly these, and nothing else changed
fn holds(t: &Tag, id: &DataIdent, want: &[Data]) -> bool {
    let mut mine = vec![];
    let mut rest = vec![];
    for (i, d) in contents(t) {
        if same_ident(&i, id) {
            mine.push(d)
        } else {
            rest.push((i, d))
        }
    }
    same_list(&mine, want)
        & same_contents(&rest, &[(DataIdent::fourcc(*b"oth1"), Data::Utf8("one".into())), (DataIdent::fourcc(*b"oth2"), Data::Reserved(vec![2]))])
}
fn texts(l: &[Data]) -> Vec<String> {
    l.iter().filter_map(str_of).cloned().collect()
}
fn itunes(name: &str) -> DataIdent {
    DataIdent::freeform("com.apple.iTunes", name)
}
fn code(c: &[u8; 4]) -> DataIdent {
    DataIdent::fourcc(*c)
}

macro_rules! single {
    ($id:expr, $get:ident, $set:ident, $take:ident, $remove:ident) => {{
        let id: DataIdent = $id;
        let (mut t, l) = mixed(&id);
        let first = texts(&l).first().cloned();
        check!(t.$get().map(str::to_owned) == first, concat!(stringify!($get), " is the first text stored under its identifier"));
        match sx::choose(3) {
            0 => {
                let s = ascii(2);
                t.$set(s.clone());
                check!(holds(&t, &id, &[Data::Utf8(s.clone())]), concat!(stringify!($set), " stores exactly the text under its identifier"));
                check!(t.$get() == Some(&s[..]), concat!(stringify!($get), " is what was set"));
            }
            1 => {
                check!(t.$take() == first, concat!(stringify!($take), " returns the first text"));
                check!(holds(&t, &id, &[]), concat!(stringify!($take), " removes all values"));
            }
            _ => {
                t.$remove();
                check!(holds(&t, &id, &[]) && t.$get().is_none(), concat!(stringify!($remove), " removes all values"));
            }
        }
    }};
}
macro_rules! multiple {
    ($id:expr, $all:ident, $get:ident, $take_all:ident, $take:ident, $set_all:ident, $set:ident, $add_all:ident, $add:ident, $remove:ident) => {{
        let id: DataIdent = $id;
        let (mut t, l) = mixed(&id);
        let have = texts(&l);
        check!(t.$all().map(str::to_owned).collect::<Vec<_>>() == have, concat!(stringify!($all), " are the texts stored under their identifier"));
        check!(t.$get().map(str::to_owned) == have.first().cloned(), concat!(stringify!($get), " is the first text"));
        let n = sx::choose(3);
        let new: Vec<String> = (0..n).map(|k| ascii(k)).collect();
        let stored: Vec<Data> = new.iter().map(|s| Data::Utf8(s.clone())).collect();
        match sx::choose(7) {
            0 => {
                t.$set_all(new);
                check!(holds(&t, &id, &stored), concat!(stringify!($set_all), " stores exactly the texts"));
            }
            1 if n > 0 => {
                t.$set(new[0].clone());
                check!(holds(&t, &id, &stored[..1]), concat!(stringify!($set), " stores exactly the text"));
            }
            2 => {
                t.$add_all(new);
                check!(holds(&t, &id, &[l, stored].concat()), concat!(stringify!($add_all), " appends the texts"));
            }
            3 if n > 0 => {
                t.$add(new[0].clone());
                check!(holds(&t, &id, &[&l[..], &stored[..1]].concat()), concat!(stringify!($add), " appends the text"));
            }
            4 => {
                check!(t.$take_all().collect::<Vec<_>>() == have, concat!(stringify!($take_all), " returns all texts"));
                check!(holds(&t, &id, &[]), concat!(stringify!($take_all), " removes all values"));
            }
            5 => {
                check!(t.$take() == have.first().cloned(), concat!(stringify!($take), " returns the first text"));
                check!(holds(&t, &id, &[]), concat!(stringify!($take), " removes all values"));
            }
            _ => {
                t.$remove();
                check!(holds(&t, &id, &[]) && t.$get().is_none(), concat!(stringify!($remove), " removes all values"));
            }
        }
    }};
}
macro_rules! flag {
    ($id:expr, $get:ident, $set:ident, $remove:ident) => {{
        let id: DataIdent = $id;
        let (mut t, l) = mixed(&id);
        let want = l.iter().filter_map(bytes_of).next().map_or(false, |v| v.first() == Some(&1));
        check!(t.$get() == want, concat!(stringify!($get), " is set exactly if the first byte stored is 1"));
        if sx::boolean() {
            t.$set();
            check!(holds(&t, &id, &[Data::BeSigned(vec![1])]) && t.$get(), concat!(stringify!($set), " stores 1"));
        } else {
            t.$remove();
            check!(holds(&t, &id, &[]) && !t.$get(), concat!(stringify!($remove), " removes all values"));
        }
    }};
}
macro_rules! number {
    ($id:expr, $ty:ident, $get:ident, $set:ident, $remove:ident) => {{
        let id: DataIdent = $id;
        let (mut t, l) = mixed(&id);
        const N: usize = std::mem::size_of::<$ty>();
        let mut want = None;
        if let Some(v) = l.iter().filter_map(bytes_of).next() {
            if v.len() >= N {
                let mut x: $ty = 0;
                for k in 0..N {
                    x = x << 8 | v[k] as $ty;
                }
                want = Some(x);
            }
        }
        check!(t.$get() == want, concat!(stringify!($get), " is the big-endian number stored"));
        if sx::boolean() {
            let x = sx::u32() as $ty;
            t.$set(x);
            check!(holds(&t, &id, &[Data::BeSigned(x.to_be_bytes().to_vec())]) && t.$get() == Some(x), concat!(stringify!($set), " stores the big-endian number"));
        } else {
            t.$remove();
            check!(holds(&t, &id, &[]) && t.$get().is_none(), concat!(stringify!($remove), " removes all values"));
        }
    }};
}

fn media() {
    use MediaType::*;
    let table = [(0u8, Movie), (1, Normal), (2, AudioBook), (5, WhackedBookmark), (6, MusicVideo), (9, ShortFilm), (10, TvShow), (11, Booklet)];
    let id = code(b"stik");
    let (mut t, l) = mixed(&id);
    let want = l.iter().filter_map(bytes_of).next().and_then(|v| v.first().copied()).and_then(|b| table.iter().find(|e| e.0 == b).map(|e| e.1));
    check!(t.media_type() == want, "the media type is the one with the stored code");
    if sx::boolean() {
        let (c, m) = table[sx::choose(8)];
        t.set_media_type(m);
        check!(holds(&t, &id, &[Data::Reserved(vec![c])]) && t.media_type() == Some(m), "setting the media type stores its code");
    } else {
        t.remove_media_type();
        check!(holds(&t, &id, &[]) && t.media_type().is_none(), "removing the media type removes all values");
    }
    let b = sx::u8();
    check!(MediaType::try_from(b).ok() == table.iter().find(|e| e.0 == b).map(|e| e.1), "media type codes");
}
fn advisory() {
    use AdvisoryRating::*;
    let id = code(b"rtng");
    let (mut t, l) = mixed(&id);
    let name = |b: u8| match b {
        2 => Clean,
        0 => Inoffensive,
        _ => Explicit,
    };
    let want = l.iter().filter_map(bytes_of).next().and_then(|v| v.first().copied()).map(name);
    check!(t.advisory_rating() == want, "the advisory rating is the one with the stored code");
    if sx::boolean() {
        let (c, r) = [(2u8, Clean), (0, Inoffensive), (4, Explicit)][sx::choose(3)];
        t.set_advisory_rating(r);
        check!(holds(&t, &id, &[Data::Reserved(vec![c])]) && t.advisory_rating() == Some(r), "setting the advisory rating stores its code");
    } else {
        t.remove_advisory_rating();
        check!(holds(&t, &id, &[]) && t.advisory_rating().is_none(), "removing the advisory rating removes all values");
    }
}
fn artwork() {
    let id = code(b"covr");
    let (mut t, l) = mixed(&id);
    let have: Vec<Data> = l.iter().filter(|d| img_of(d).is_some()).cloned().collect();
    let img = |g: ImgBuf| Data::from(g);
    let see = see_img;
    check!(same_list(&t.artworks().map(see).collect::<Vec<_>>(), &have), "the artworks are the images stored under their identifier");
    check!(same_list(&t.artwork().map(see).into_iter().collect::<Vec<_>>(), &have[..have.len().min(1)]), "the artwork is the first image");
    let n = sx::choose(3);
    let new: Vec<ImgBuf> = (0..n).map(|k| Img::new([ImgFmt::Png, ImgFmt::Bmp, ImgFmt::Jpeg][sx::choose(3)].clone(), sx::bytes(k))).collect();
    let stored: Vec<Data> = new.iter().cloned().map(img).collect();
    match sx::choose(7) {
        0 => {
            t.set_artworks(new);
            check!(holds(&t, &id, &stored), "setting artworks stores exactly them");
        }
        1 if n > 0 => {
            t.set_artwork(new[0].clone());
            check!(holds(&t, &id, &stored[..1]), "setting the artwork stores exactly it");
        }
        2 => {
            t.add_artworks(new);
            check!(holds(&t, &id, &[l, stored].concat()), "adding artworks appends them");
        }
        3 if n > 0 => {
            t.add_artwork(new[0].clone());
            check!(holds(&t, &id, &[&l[..], &stored[..1]].concat()), "adding an artwork appends it");
        }
        4 => {
            check!(same_list(&t.take_artworks().map(img).collect::<Vec<_>>(), &have), "taking artworks returns all images");
            check!(holds(&t, &id, &[]), "taking artworks removes all values");
        }
        5 => {
            check!(same_list(&t.take_artwork().map(img).into_iter().collect::<Vec<_>>(), &have[..have.len().min(1)]), "taking the artwork returns the first image");
            check!(holds(&t, &id, &[]), "taking the artwork removes all values");
        }
        _ => {
            t.remove_artworks();
            check!(holds(&t, &id, &[]) && t.artwork().is_none(), "removing artworks removes all values");
        }
    }
}
fn see_img(g: ImgRef) -> Data {
    match g.fmt {
        ImgFmt::Bmp => Data::Bmp(g.data.to_vec()),
        ImgFmt::Jpeg => Data::Jpeg(g.data.to_vec()),
        ImgFmt::Png => Data::Png(g.data.to_vec()),
    }
}

#[no_mangle]
pub extern "C" fn h_access() {
    sx::init();
    match sx::part() {
        0 => match sx::choose(12) {
            0 => single!(code(b"\xa9alb"), album, set_album, take_album, remove_album),
            1 => single!(code(b"cprt"), copyright, set_copyright, take_copyright, remove_copyright),
            2 => single!(code(b"\xa9too"), encoder, set_encoder, take_encoder, remove_encoder),
            3 => single!(code(b"\xa9lyr"), lyrics, set_lyrics, take_lyrics, remove_lyrics),
            4 => single!(code(b"\xa9mvn"), movement, set_movement, take_movement, remove_movement),
            5 => single!(code(b"\xa9nam"), title, set_title, take_title, remove_title),
            6 => single!(code(b"tven"), tv_episode_name, set_tv_episode_name, take_tv_episode_name, remove_tv_episode_name),
            7 => single!(code(b"tvnn"), tv_network_name, set_tv_network_name, take_tv_network_name, remove_tv_network_name),
            8 => single!(code(b"tvsh"), tv_show_name, set_tv_show_name, take_tv_show_name, remove_tv_show_name),
            9 => single!(code(b"\xa9wrk"), work, set_work, take_work, remove_work),
            10 => single!(code(b"\xa9day"), year, set_year, take_year, remove_year),
            _ => single!(itunes("ISRC"), isrc, set_isrc, take_isrc, remove_isrc),
        },
        1 => match sx::choose(5) {
            0 => multiple!(code(b"aART"), album_artists, album_artist, take_album_artists, take_album_artist, set_album_artists, set_album_artist, add_album_artists, add_album_artist, remove_album_artists),
            1 => multiple!(code(b"\xa9ART"), artists, artist, take_artists, take_artist, set_artists, set_artist, add_artists, add_artist, remove_artists),
            2 => multiple!(code(b"catg"), categories, category, take_categories, take_category, set_categories, set_category, add_categories, add_category, remove_categories),
            3 => multiple!(code(b"\xa9cmt"), comments, comment, take_comments, take_comment, set_comments, set_comment, add_comments, add_comment, remove_comments),
            _ => multiple!(code(b"\xa9wrt"), composers, composer, take_composers, take_composer, set_composers, set_composer, add_composers, add_composer, remove_composers),
        },
        2 => match sx::choose(5) {
            0 => multiple!(code(b"\xa9gen"), custom_genres, custom_genre, take_custom_genres, take_custom_genre, set_custom_genres, set_custom_genre, add_custom_genres, add_custom_genre, remove_custom_genres),
            1 => multiple!(code(b"desc"), descriptions, description, take_descriptions, take_description, set_descriptions, set_description, add_descriptions, add_description, remove_descriptions),
            2 => multiple!(code(b"\xa9grp"), groupings, grouping, take_groupings, take_grouping, set_groupings, set_grouping, add_groupings, add_grouping, remove_groupings),
            3 => multiple!(code(b"keyw"), keywords, keyword, take_keywords, take_keyword, set_keywords, set_keyword, add_keywords, add_keyword, remove_keywords),
            _ => multiple!(itunes("LYRICIST"), lyricists, lyricist, take_lyricists, take_lyricist, set_lyricists, set_lyricist, add_lyricists, add_lyricist, remove_lyricists),
        },
        3 => match sx::choose(8) {
            0 => flag!(code(b"cpil"), compilation, set_compilation, remove_compilation),
            1 => flag!(code(b"pgap"), gapless_playback, set_gapless_playback, remove_gapless_playback),
            2 => flag!(code(b"shwm"), show_movement, set_show_movement, remove_show_movement),
            3 => number!(code(b"tmpo"), u16, bpm, set_bpm, remove_bpm),
            4 => number!(code(b"\xa9mvc"), u16, movement_count, set_movement_count, remove_movement_count),
            5 => number!(code(b"\xa9mvi"), u16, movement_index, set_movement_index, remove_movement_index),
            6 => number!(code(b"tves"), u32, tv_episode, set_tv_episode, remove_tv_episode),
            _ => number!(code(b"tvsn"), u32, tv_season, set_tv_season, remove_tv_season),
        },
        _ => match sx::choose(3) {
            0 => media(),
            1 => advisory(),
            _ => artwork(),
        },
    }
    reached!();
}

// ------------------------------------------------------------------ track and disc numbers

fn num(v: &[u8], at: usize) -> Option<u16> {
    if v.len() < at + 2 {
        return None;
    }
    let n = (v[at] as u16) << 8 | v[at + 1] as u16;
    if n == 0 {
        None
    } else {
        Some(n)
    }
}
fn some_num(n: u16) -> Option<u16> {
    if n == 0 {
        None
    } else {
        Some(n)
    }
}
macro_rules! tuple {
    ($cc:expr, $get:ident, $get_n:ident, $get_t:ident, $set:ident, $set_n:ident, $set_t:ident, $rm:ident, $rm_n:ident, $rm_t:ident) => {{
        let id = code($cc);
        let mut t = Tag::default();
        t.add_data(Fourcc(*b"oth1"), Data::Utf8("one".into()));
        // nothing, or any bytes, possibly after a value which is no number
        let (mut n, mut m) = (None, None);
        let state = sx::choose(5);
        if state == 3 {
            t.add_data(id.clone(), Data::Utf8(ascii(1)));
        }
        if state > 0 {
            let v = sx::bytes(sx::choose(9));
            n = num(&v, 2);
            m = num(&v, 4);
            t.add_data(id.clone(), if state == 1 { Data::Reserved(v) } else { Data::BeSigned(v) });
        }
        let second = Data::Reserved(vec![0, 0, 9, sx::u8(), 9, 9, 0, 0]);
        if state == 4 {
            // the first pair is the one that counts
            t.add_data(id.clone(), second.clone());
        }
        t.add_data(Fourcc(*b"oth2"), Data::Reserved(vec![2]));
        check!(t.$get() == (n, m) && t.$get_n() == n && t.$get_t() == m, "number and total are those stored, 0 means none");
        let (x, y) = (sx::u16(), sx::u16());
        let op = sx::choose(6);
        let want = match op {
            0 => {
                t.$set(x, y);
                (some_num(x), some_num(y))
            }
            1 => {
                t.$set_n(x);
                (some_num(x), m)
            }
            2 => {
                t.$set_t(y);
                (n, some_num(y))
            }
            3 => {
                t.$rm();
                (None, None)
            }
            4 => {
                t.$rm_n();
                (None, m)
            }
            _ => {
                t.$rm_t();
                (n, None)
            }
        };
        check!(t.$get() == want && t.$get_n() == want.0 && t.$get_t() == want.1, "setting or removing one number leaves the other as it was");
        let left: Vec<Data> = t.data_of(&id).cloned().collect();
        if op < 3 {
            let b = left.iter().filter_map(bytes_of).next();
            check!(
                match b {
                    Some(b) => num(b, 2) == want.0 && num(b, 4) == want.1,
                    None => false,
                },
                "the numbers are stored in their standard places"
            );
            if state == 0 {
                let w = [0, 0, if op == 2 { 0 } else { (x >> 8) as u8 }, if op == 2 { 0 } else { x as u8 }, if op == 1 { 0 } else { (y >> 8) as u8 }, if op == 1 { 0 } else { y as u8 }];
                check!(same_list(&left, &[Data::Reserved(w.to_vec())]), "a new pair is stored in its standard form");
            }
        }
        if state == 4 && (op < 3 || want != (None, None)) {
            check!(left.len() == 2 && same_data(&left[1], &second), "further pairs are untouched");
        }
        if op >= 3 && want == (None, None) {
            check!(left.is_empty(), "nothing is stored when both numbers are removed");
        }
        check!(holds(&t, &id, &left), "other values are untouched");
    }};
}

#[no_mangle]
pub extern "C" fn h_tuple() {
    sx::init();
    match sx::part() {
        0 => tuple!(b"trkn", track, track_number, total_tracks, set_track, set_track_number, set_total_tracks, remove_track, remove_track_number, remove_total_tracks),
        _ => tuple!(b"disk", disc, disc_number, total_discs, set_disc, set_disc_number, set_total_discs, remove_disc, remove_disc_number, remove_total_discs),
    }
    reached!();
}

// ------------------------------------------------------------------ genres

/// the ID3v1 genres, letters and digits only
const ID3V1: &str = "blues classicrock country dance disco funk grunge hiphop jazz metal newage oldies other pop rhythmandblues rap reggae rock techno industrial \
    alternative ska deathmetal pranks soundtrack eurotechno ambient triphop vocal jazzfunk fusion trance classical instrumental acid house game \
    soundclip gospel noise alternativerock bass soul punk space meditative instrumentalpop instrumentalrock ethnic gothic darkwave \
    technoindustrial electronic popfolk eurodance dream southernrock comedy cult gangsta top40 christianrap popfunk jungle nativeus cabaret \
    newwave psychedelic rave showtunes trailer lofi tribal acidpunk acidjazz polka retro musical rocknroll hardrock";
fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

#[no_mangle]
pub extern "C" fn h_genre() {
    sx::init();
    let (std_id, own_id) = (code(b"gnre"), code(b"\xa9gen"));
    let mut t = Tag::default();
    t.add_data(Fourcc(*b"oth1"), Data::Utf8("one".into()));
    let mut codes = vec![];
    let mut names: Vec<String> = vec![];
    let mut std_data = vec![];
    let (few, own) = (sx::choose(4), sx::choose(4));
    sx::assume(few + own < 5);
    for k in 0..few {
        let n = if k == 2 { 2 } else { [2, 2, 3, 1, 0][sx::choose(if k == 0 { 5 } else { 2 })] };
        let mut v = sx::bytes(n);
        if n >= 2 && (k == 1 || few + own > 2) {
            // the second code from a few, and all of them if there are many
            v[0] = 0;
            v[1] = if few + own > 3 { [0, 80, 7][k] } else { sx::pick(&[0, 1, 80, 81]) };
        }
        if k == 2 {
            v.copy_from_slice(&[0, 7]);
        }
        if n >= 2 {
            codes.push((v[0] as u16) << 8 | v[1] as u16);
        }
        let d = if (few + own > 2 && k == 0) || (few + own < 3 && sx::boolean()) { Data::Reserved(v) } else { Data::BeSigned(v) };
        t.add_data(std_id.clone(), d.clone());
        std_data.push(d);
    }
    for k in 0..own {
        let s = ascii((k + 1) % 3);
        t.add_data(own_id.clone(), if k == 0 { Data::Utf8(s.clone()) } else { Data::Utf16(s.clone()) });
        names.push(s);
    }
    let own_data: Vec<Data> = t.data_of(&own_id).cloned().collect();
    t.add_data(Fourcc(*b"oth2"), Data::Reserved(vec![2]));
    let mut all: Vec<String> = vec![];
    for c in codes.iter() {
        if (1..=80).contains(c) {
            let k = sx::concretize(*c as u64 - 1) as usize;
            let name = STANDARD_GENRES[k];
            check!(plain(name) == ID3V1.split(' ').nth(k).unwrap_or(""), "the standard table has the ID3v1 genres in order");
            all.push(name.to_owned());
        }
    }
    all.extend(names.iter().cloned());
    check!(t.standard_genres().collect::<Vec<_>>() == codes && t.standard_genre() == codes.first().copied(), "the standard genres are the codes stored");
    let got: Vec<String> = t.genres().map(str::to_owned).collect();
    check!(got == all, "the genres are the names of the standard ones, then the custom ones");
    check!(t.genre().map(str::to_owned) == all.first().cloned(), "the genre is the first of all genres");
    let op = sx::part();
    let new: Vec<String> = (0..sx::choose(3)).map(|k| ascii(k)).collect();
    let num: Vec<u16> = new.iter().map(|_| sx::u16()).collect();
    let (mut want_std, mut want_own) = (std_data, own_data);
    let u8s = |l: &[String]| -> Vec<Data> { l.iter().map(|s| Data::Utf8(s.clone())).collect() };
    let cds = |l: &[u16]| -> Vec<Data> { l.iter().map(|s| Data::Reserved(s.to_be_bytes().to_vec())).collect() };
    match op {
        0 => {
            check!(t.take_genres().collect::<Vec<_>>() == all, "taking genres returns all of them");
            want_own = vec![];
        }
        1 => {
            check!(t.take_genre() == all.first().cloned(), "taking the genre returns the first");
            want_own = vec![];
        }
        2 => {
            t.set_genre("g");
            want_own = vec![Data::Utf8("g".into())];
            want_std = vec![];
            check!(t.genre() == Some("g"), "the genre is the one set");
        }
        3 => {
            t.set_genres(new.clone());
            want_own = u8s(&new);
            want_std = vec![];
        }
        4 => {
            t.add_genre("g");
            want_own.push(Data::Utf8("g".into()));
        }
        5 => {
            t.remove_genres();
            want_own = vec![];
            want_std = vec![];
        }
        6 => {
            let c = sx::u16();
            if sx::boolean() {
                t.set_standard_genre(c);
                want_std = cds(&[c]);
            } else {
                t.add_standard_genre(c);
                want_std.extend(cds(&[c]));
            }
        }
        7 => {
            if sx::boolean() {
                t.set_standard_genres(num.clone());
                want_std = cds(&num);
            } else {
                t.add_standard_genres(num.clone());
                want_std.extend(cds(&num));
            }
        }
        8 => {
            t.remove_standard_genres();
            want_std = vec![];
        }
        _ => match sx::choose(7) {
            0 => {
                t.set_custom_genre("g");
                want_own = vec![Data::Utf8("g".into())];
            }
            1 => {
                t.set_custom_genres(new.clone());
                want_own = u8s(&new);
            }
            2 => {
                t.add_custom_genre("g");
                want_own.push(Data::Utf8("g".into()));
            }
            3 => {
                t.add_custom_genres(new.clone());
                want_own.extend(u8s(&new));
            }
            4 => {
                check!(t.take_custom_genres().collect::<Vec<_>>() == names, "taking custom genres returns all of them");
                want_own = vec![];
            }
            5 => {
                check!(t.take_custom_genre() == names.first().cloned(), "taking the custom genre returns the first");
                want_own = vec![];
            }
            _ => {
                t.remove_custom_genres();
                want_own = vec![];
            }
        },
    }
    let a: Vec<Data> = t.data_of(&std_id).cloned().collect();
    let b: Vec<Data> = t.data_of(&own_id).cloned().collect();
    check!(same_list(&a, &want_std), "the standard genres stored after a change");
    check!(same_list(&b, &want_own), "the custom genres stored after a change");
    t.remove_data_of(&std_id);
    check!(holds(&t, &own_id, &want_own), "other values are untouched");
    reached!();
}
