//! Histories over owned values.

use crate::core::{class, class_index, pc, pc_index, same_length};
use crate::json::Json;
use crate::util::*;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef, Length};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// The i-th octet of a source.
pub fn pattern(src: u64, i: u64) -> u8 {
    (src.wrapping_mul(0x51) ^ i.wrapping_mul(0x2f) ^ (i >> 8).wrapping_mul(0x95) ^ (i >> 16)) as u8 ^ 0x3c
}

pub fn source(src: u64, from: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| pattern(src, from + i)).collect()
}

fn segments(j: &Json) -> Vec<u8> {
    let mut v = Vec::new();
    for s in j.arr() {
        let s = s.arr();
        v.extend(source(s[0].int() as u64, s[1].int() as u64, s[2].us()));
    }
    v
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A number that differs from case to case, to vary what the specification leaves open.
pub fn salt(text: &Json) -> u64 {
    let mut h = DefaultHasher::new();
    format!("{:?}", text).hash(&mut h);
    h.finish()
}

#[allow(clippy::large_enum_variant)]
enum Obj {
    None,
    Der(Der),
    Ber(Ber),
    Id(Id),
    Con(Contents),
}

impl Obj {
    fn octets(&self) -> &[u8] {
        match self {
            Obj::None => &[],
            Obj::Der(d) => d.as_ref(),
            Obj::Ber(b) => b.as_ref(),
            Obj::Id(i) => i.as_ref(),
            Obj::Con(c) => c.as_ref(),
        }
    }
}

/// The octets an object ought to have.
struct Want {
    kind: String,
    id: Vec<u8>,
    len: Vec<u8>,
    contents: Vec<u8>,
}

impl Want {
    fn new(j: &Json) -> Want {
        let kind = j.get("kind").str().to_string();
        if kind == "none" {
            return Want { kind, id: vec![], len: vec![], contents: vec![] };
        }
        Want { kind, id: j.get("id").bytes(), len: j.get("len").bytes(), contents: segments(j.get("segs")) }
    }

    fn octets(&self) -> Vec<u8> {
        [&self.id[..], &self.len, &self.contents].concat()
    }

    fn length(&self) -> Length {
        if self.kind == "berind" {
            Length::Indefinite
        } else {
            Length::Definite(self.contents.len())
        }
    }

    fn id(&self) -> Id {
        unsafe { Id::from_bytes_unchecked(&self.id) }
    }

    fn contents(&self) -> &ContentsRef {
        (&self.contents[..]).into()
    }

    /// Builds it, in one of several ways.
    fn build(&self, way: u64) -> Obj {
        let id = &*self.id();
        let c = self.contents();
        let mid = self.contents.len() / 3;
        let pieces = [&self.contents[..mid], &self.contents[mid..]];
        match (self.kind.as_str(), way % 4) {
            ("der", 0) => Obj::Der(Der::new(id, c)),
            ("der", 1) => {
                let mut d = Der::with_id_length(id, c.len());
                d.mut_contents().as_mut().copy_from_slice(c.as_ref());
                Obj::Der(d)
            }
            ("der", 2) => Obj::Der(Der::from_id_iterator(id, pieces.iter())),
            ("der", _) => Obj::Der(Der::parse(&mut &self.octets()[..]).expect("parse of a built element")),
            ("ber", 0) => Obj::Ber(Ber::new(id, c)),
            ("ber", 1) => {
                let mut d = Ber::with_id_length(id, c.len());
                d.mut_contents().as_mut().copy_from_slice(c.as_ref());
                Obj::Ber(d)
            }
            ("ber", 2) => Obj::Ber(Ber::from_id_iterator(id, pieces.iter())),
            ("ber", _) => Obj::Ber(Ber::parse(&mut &self.octets()[..]).expect("parse of a built element")),
            ("berind", 0) => Obj::Ber(unsafe { Ber::new_indefinite(id, c) }),
            ("berind", 1) => {
                let mut d = unsafe { Ber::with_id_length_indefinite(id, c.len()) };
                d.mut_contents().as_mut().copy_from_slice(c.as_ref());
                Obj::Ber(d)
            }
            ("berind", 2) => Obj::Ber(unsafe { Ber::from_id_iterator_indefinite(id, pieces.iter()) }),
            ("berind", _) => Obj::Ber(unsafe { Ber::from_bytes_unchecked(&self.octets()) }),
            ("id", 0) => Obj::Id(Id::parse(&mut &self.id[..]).expect("parse of an identifier")),
            ("id", _) => match id.number() {
                Ok(n) => Obj::Id(Id::new(id.class(), id.pc(), n)),
                Err(_) => Obj::Id(id.to_owned()),
            },
            ("con", 0) => Obj::Con(Contents::from(&self.contents[..])),
            ("con", 1) => Obj::Con(Contents::from(self.contents.clone())),
            ("con", _) => Obj::Con(c.to_owned()),
            ("none", _) => Obj::None,
            (k, _) => panic!("harness: kind {}", k),
        }
    }
}

pub fn check(prop: &str, case: &Json, cx: &mut Cx) {
    let hist = case.get("h").arr();
    let way = salt(case);
    let first = hist[0].get("st").arr();
    let mut slots: Vec<Obj> = first.iter().map(|j| Want::new(j).build(way)).collect();
    if prop == "P14" {
        return copies(hist, slots, way, cx);
    }
    compare(prop, "after make", &slots, first, cx);
    for (n, step) in hist[1..].iter().enumerate() {
        apply(&mut slots, step, way.rotate_left(7 * n as u32));
        let what = format!("after step {} ({})", n + 1, step.get("op").str());
        compare(prop, &what, &slots, step.get("st").arr(), cx);
    }
    if prop == "P03" && first.len() == 1 {
        in_slice(hist, way, cx);
    }
    if prop == "P13" {
        consume(slots, way, cx);
    }
}

/// Turns the values themselves, with the room their history left them, into vectors.
fn consume(slots: Vec<Obj>, way: u64, cx: &mut Cx) {
    for o in slots {
        let octets = o.octets().to_vec();
        let v = match o {
            Obj::Der(d) if way % 2 == 0 => d.into_vec(),
            Obj::Der(d) => Ber::from(d).into_vec(),
            Obj::Ber(d) => d.into_vec(),
            _ => continue,
        };
        cx.ck(v == octets, || format!("at the end: into_vec is {:02x?} want {:02x?}", short(&v), short(&octets)));
    }
}

/// Copies have the octets of the original, an edit stays in its slot, and
/// comparisons see the octets only.
fn copies(hist: &[Json], mut slots: Vec<Obj>, way: u64, cx: &mut Cx) {
    alike("after make", &slots, way, cx);
    for (n, step) in hist[1..].iter().enumerate() {
        let before: Vec<Vec<u8>> = slots.iter().map(|o| o.octets().to_vec()).collect();
        apply(&mut slots, step, way.rotate_left(7 * n as u32));
        let (s, op) = (step.get("s").us() - 1, step.get("op").str());
        let what = format!("after step {} ({})", n + 1, op);
        for (i, o) in slots.iter().enumerate() {
            if i != s {
                cx.ck(o.octets() == &before[i][..], || format!("{}: the other value changed", what));
            } else if op == "copy" {
                let from = step.get("from").us() - 1;
                cx.ck(o.octets() == &before[from][..], || format!("{}: the copy differs", what));
            }
        }
        alike(&what, &slots, way.wrapping_add(n as u64), cx);
    }
    consume(slots, way, cx);
}

fn alike(what: &str, slots: &[Obj], way: u64, cx: &mut Cx) {
    for o in slots {
        let octets = o.octets().to_vec();
        owned_and_borrowed(what, o, cx);
        equality(what, o, &with_octets(o, &octets, way), true, cx);
        let mut other = octets.clone();
        match other.len() {
            0 => other.push(0),
            n => other[way as usize % n] ^= 1,
        }
        if !matches!(o, Obj::Id(_)) || IdRef::parse(&mut &other[..]).is_ok_and(|i| i.len() == other.len()) {
            equality(what, o, &with_octets(o, &other, way), false, cx);
        }
        if !matches!(o, Obj::Id(_)) {
            other.clone_from(&octets);
            other.push(0);
            equality(what, o, &with_octets(o, &other, way), false, cx);
        }
    }
    if slots.len() == 2 {
        let same = slots[0].octets() == slots[1].octets();
        equality(what, &slots[0], &slots[1], same, cx);
    }
}

fn apply(slots: &mut [Obj], step: &Json, way: u64) {
    let s = step.get("s").us() - 1;
    let src = || step.get("src").int() as u64;
    match step.get("op").str() {
        "push" => match &mut slots[s] {
            Obj::Der(d) => d.push(pattern(src(), 0)),
            Obj::Ber(d) => d.push(pattern(src(), 0)),
            _ => panic!("harness: push"),
        },
        "extend" => {
            let v = source(src(), 0, step.get("n").us());
            match &mut slots[s] {
                Obj::Der(d) => d.extend_from_slice(&v),
                Obj::Ber(d) => d.extend_from_slice(&v[..]),
                _ => panic!("harness: extend"),
            }
        }
        "truncate" => match &mut slots[s] {
            Obj::Der(d) => d.truncate(step.get("n").us()),
            Obj::Ber(d) => d.truncate(step.get("n").us()),
            _ => panic!("harness: truncate"),
        },
        "poke" => {
            let (at, v) = (step.get("n").us(), pattern(src(), 0));
            match &mut slots[s] {
                Obj::Der(d) if way % 3 == 0 => d.disassemble_mut().2[at] = v,
                Obj::Der(d) => d.mut_contents()[at] = v,
                Obj::Ber(d) if way % 3 == 0 => d.disassemble_mut().2[at] = v,
                Obj::Ber(d) => d.mut_contents()[at] = v,
                Obj::Con(c) if way % 3 == 0 => AsMut::<[u8]>::as_mut(c)[at] = v,
                Obj::Con(c) => c[at] = v,
                _ => panic!("harness: poke"),
            }
        }
        op @ ("class" | "pc") => {
            let n = step.get("n").us();
            let id: &mut IdRef = match &mut slots[s] {
                Obj::Der(d) if way % 3 == 0 => d.disassemble_mut().0,
                Obj::Der(d) => d.mut_id(),
                Obj::Ber(d) if way % 3 == 0 => d.disassemble_mut().0,
                Obj::Ber(d) => d.mut_id(),
                Obj::Id(i) => i,
                _ => panic!("harness: {}", op),
            };
            if op == "class" {
                id.set_class(class(n));
            } else {
                id.set_pc(pc(n));
            }
        }
        "number" => match &mut slots[s] {
            Obj::Id(i) => i.set_number(step.get("num").num().into()),
            _ => panic!("harness: number"),
        },
        "copy" => {
            let how = step.get("how").str();
            let new = copy(&slots[step.get("from").us() - 1], how, way);
            slots[s] = new;
        }
        op => panic!("harness: operation {}", op),
    }
}

/// A vector whose capacity may exceed its length.
fn roomy(mut v: Vec<u8>, way: u64) -> Vec<u8> {
    match way % 3 {
        0 => v.reserve(100),
        1 => v.shrink_to_fit(),
        _ => (),
    }
    v
}

fn copy(o: &Obj, how: &str, way: u64) -> Obj {
    match (o, how) {
        (Obj::Der(d), "clone") => Obj::Der(d.clone()),
        (Obj::Der(d), "owned") if way % 2 == 0 => Obj::Der(Der::from(AsRef::<DerRef>::as_ref(d))),
        (Obj::Der(d), "owned") => Obj::Der((**d).to_owned()),
        (Obj::Der(d), "vec") => Obj::Der(unsafe { Der::from_vec_unchecked(roomy(d.clone().into_vec(), way)) }),
        (Obj::Der(d), "bytes") => Obj::Der(unsafe { Der::from_bytes_unchecked(d.as_ref()) }),
        (Obj::Der(d), "into") => match way % 3 {
            0 => Obj::Ber(Ber::from(d.clone())),
            1 => Obj::Ber(Ber::from(&**d)),
            _ => Obj::Ber(<&BerRef>::from(&**d).to_owned()),
        },
        (Obj::Ber(d), "clone") => Obj::Ber(d.clone()),
        (Obj::Ber(d), "owned") if way % 2 == 0 => Obj::Ber(Ber::from(AsRef::<BerRef>::as_ref(d))),
        (Obj::Ber(d), "owned") => Obj::Ber((**d).to_owned()),
        (Obj::Ber(d), "vec") => Obj::Ber(unsafe { Ber::from_vec_unchecked(roomy(d.clone().into_vec(), way)) }),
        (Obj::Ber(d), "bytes") => Obj::Ber(unsafe { Ber::from_bytes_unchecked(d.as_ref()) }),
        (Obj::Id(d), "clone") => Obj::Id(d.clone()),
        (Obj::Id(d), "owned") if way % 2 == 0 => Obj::Id(Id::from(AsRef::<IdRef>::as_ref(d))),
        (Obj::Id(d), "owned") => Obj::Id((**d).to_owned()),
        (Obj::Id(d), "bytes") => Obj::Id(unsafe { Id::from_bytes_unchecked(d.as_ref()) }),
        (Obj::Con(d), "clone") => Obj::Con(d.clone()),
        (Obj::Con(d), "owned") if way % 2 == 0 => Obj::Con(Contents::from(AsRef::<ContentsRef>::as_ref(d))),
        (Obj::Con(d), "owned") => Obj::Con((**d).to_owned()),
        (Obj::Con(d), "vec") => Obj::Con(Contents::from(roomy(AsRef::<[u8]>::as_ref(d).to_vec(), way))),
        (Obj::Con(d), "bytes") => Obj::Con(Contents::from(AsRef::<[u8]>::as_ref(d))),
        (_, how) => panic!("harness: copy {}", how),
    }
}

fn compare(prop: &str, what: &str, slots: &[Obj], st: &[Json], cx: &mut Cx) {
    for (o, w) in slots.iter().zip(st.iter().map(Want::new)) {
        let octets = w.octets();
        cx.ck(o.octets() == &octets[..], || {
            format!("{}: {} is {:02x?} want {:02x?}", what, w.kind, short(o.octets()), short(&octets))
        });
        if prop != "P03" || o.octets() != &octets[..] {
            continue;
        }
        match o {
            Obj::Der(d) => parts(what, &w, d.id(), d.length(), d.contents(), cx),
            Obj::Ber(d) => parts(what, &w, d.id(), d.length(), d.contents(), cx),
            Obj::Id(i) => components(what, i, cx),
            _ => (),
        }
    }
}

fn with_octets(o: &Obj, v: &[u8], way: u64) -> Obj {
    unsafe {
        match o {
            Obj::None => Obj::None,
            Obj::Der(_) if way % 2 == 0 => Obj::Der(Der::from_vec_unchecked(roomy(v.to_vec(), way))),
            Obj::Der(_) => Obj::Der(Der::from_bytes_unchecked(v)),
            Obj::Ber(_) if way % 2 == 0 => Obj::Ber(Ber::from_vec_unchecked(roomy(v.to_vec(), way))),
            Obj::Ber(_) => Obj::Ber(Ber::from_bytes_unchecked(v)),
            Obj::Id(_) => Obj::Id(Id::from_bytes_unchecked(v)),
            Obj::Con(_) if way % 2 == 0 => Obj::Con(Contents::from(roomy(v.to_vec(), way))),
            Obj::Con(_) => Obj::Con(Contents::from(v)),
        }
    }
}

fn short(b: &[u8]) -> Vec<u8> {
    b[..b.len().min(40)].to_vec()
}

fn parts(what: &str, w: &Want, id: &IdRef, length: Length, contents: &ContentsRef, cx: &mut Cx) {
    cx.ck(AsRef::<[u8]>::as_ref(id) == &w.id[..], || format!("{}: identifier", what));
    cx.ck(same_length(length, w.length()), || format!("{}: length {:?} want {:?}", what, length, w.length()));
    cx.ck(AsRef::<[u8]>::as_ref(contents) == &w.contents[..], || format!("{}: contents", what));
    components(what, id, cx);
}

/// The components of an identifier, read off its octets.
fn components(what: &str, id: &IdRef, cx: &mut Cx) {
    let b: &[u8] = id.as_ref();
    cx.ck(class_index(id.class()) == usize::from(b[0] >> 6), || format!("{}: class", what));
    cx.ck(pc_index(id.pc()) == usize::from(b[0] >> 5 & 1), || format!("{}: flag", what));
    let want = if b.len() == 1 {
        Some(u128::from(b[0] & 31))
    } else {
        let mut n = Some(0u128);
        for o in &b[1..] {
            n = n.and_then(|n| n.checked_mul(128)).map(|n| n | u128::from(o & 127));
        }
        n
    };
    cx.ck(id.number().ok().map(|n| n.get()) == want, || format!("{}: number {:?}", what, id.number()));
}

/// Equality and hash of two values of one kind, owned and borrowed.
fn equality(what: &str, a: &Obj, b: &Obj, want: bool, cx: &mut Cx) {
    macro_rules! both {
        ($a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            cx.ck((a == b) == want && (b == a) == want && (a != b) != want, || format!("{}: equality is not {}", what, want));
            cx.ck((**a == **b) == want, || format!("{}: equality of the references is not {}", what, want));
            cx.ck((*a == &**b) == want && (**a == *b) == want, || format!("{}: mixed equality is not {}", what, want));
            if want {
                cx.ck(hash_of(a) == hash_of(b), || format!("{}: hashes differ", what));
                cx.ck(hash_of(&**a) == hash_of(&**b), || format!("{}: hashes of the references differ", what));
            }
        }};
    }
    match (a, b) {
        (Obj::Der(a), Obj::Der(b)) => both!(a, b),
        (Obj::Ber(a), Obj::Ber(b)) => both!(a, b),
        (Obj::Id(a), Obj::Id(b)) => both!(a, b),
        (Obj::Con(a), Obj::Con(b)) => both!(a, b),
        _ => (),
    }
}

/// A borrowed value is looked up by the hash of the owned one.
fn owned_and_borrowed(what: &str, o: &Obj, cx: &mut Cx) {
    let (a, b) = match o {
        Obj::None => return,
        Obj::Der(d) => (hash_of(d), hash_of(&**d)),
        Obj::Ber(d) => (hash_of(d), hash_of(&**d)),
        Obj::Id(d) => (hash_of(d), hash_of(&**d)),
        Obj::Con(d) => (hash_of(d), hash_of(&**d)),
    };
    cx.ck(a == b, || format!("{}: hash of the reference differs", what));
    let same = match o {
        Obj::None => true,
        Obj::Der(d) => AsRef::<DerRef>::as_ref(d) == d && d.clone().into_vec() == o.octets(),
        Obj::Ber(d) => AsRef::<BerRef>::as_ref(d) == d && d.clone().into_vec() == o.octets(),
        Obj::Id(d) => AsRef::<IdRef>::as_ref(d) == d,
        Obj::Con(d) => AsRef::<ContentsRef>::as_ref(d) == d,
    };
    cx.ck(same, || format!("{}: a borrowed form differs", what));
}

/// The same in-place history on an element between neighbours in one slice.
fn in_slice(hist: &[Json], way: u64, cx: &mut Cx) {
    const LEFT: &[u8] = &[0x55, 0x1f, 0xff];
    const RIGHT: &[u8] = &[0xff, 0x80, 0x00];
    let w = Want::new(&hist[0].get("st").arr()[0]);
    if w.kind == "con" || hist[1..].iter().any(|s| !matches!(s.get("op").str(), "class" | "pc" | "poke")) {
        return;
    }
    let mut all = [LEFT, &w.octets(), RIGHT].concat();
    let n = w.octets().len();
    for (k, step) in hist[1..].iter().enumerate() {
        let w = Want::new(&step.get("st").arr()[0]);
        let at = step.get("n").us();
        let op = step.get("op").str();
        let whole = k % 2 == 0;
        {
            let mut cur = if whole { &mut all[LEFT.len()..] } else { &mut all[LEFT.len()..LEFT.len() + n] };
            let edit_id = |id: &mut IdRef| if op == "class" { id.set_class(class(at)) } else { id.set_pc(pc(at)) };
            match w.kind.as_str() {
                "id" => edit_id(IdRef::parse_mut(&mut cur).expect("an identifier")),
                "der" => {
                    let d = DerRef::parse_mut(&mut cur).expect("an element");
                    match op {
                        "poke" => d.mut_contents()[at] = pattern(step.get("src").int() as u64, 0),
                        _ if way % 2 == 0 => edit_id(d.mut_id()),
                        _ => edit_id(d.disassemble_mut().0),
                    }
                }
                _ => {
                    let d = if w.kind == "ber" {
                        BerRef::parse_mut(&mut cur).expect("an element")
                    } else {
                        unsafe { BerRef::from_mut_bytes_unchecked(&mut cur[..n]) }
                    };
                    match op {
                        "poke" => d.mut_contents()[at] = pattern(step.get("src").int() as u64, 0),
                        _ if way % 2 == 0 => edit_id(d.mut_id()),
                        _ => edit_id(d.disassemble_mut().0),
                    }
                }
            }
        }
        let want = [LEFT, &w.octets(), RIGHT].concat();
        cx.ck(all == want, || format!("in a slice, after {}: {:02x?} want {:02x?}", op, short(&all), short(&want)));
    }
}
