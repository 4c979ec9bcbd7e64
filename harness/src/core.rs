//! Identifier, length, framing and scalar behaviours of bsn1.

use crate::json::Json;
use crate::mem;
use crate::util::*;
use bsn1::{
    Ber, BerRef, ClassTag, Contents, ContentsRef, Der, DerRef, Error, Id, IdRef, Length, PCTag,
    TagNumber,
};
use std::cmp::Ordering;

pub fn check(prop: &str, c: &Json, cx: &mut Cx) {
    match c.get("k").str() {
        "idp" => id_parse(prop, c, cx),
        "idb" => id_build(c, cx),
        "idc" => id_constants(c, cx),
        "lenp" => len_parse(c, cx),
        "lenb" => len_build(c, cx),
        "lenc" => len_cmp(c, cx),
        "tlv" => {
            let input = c.get("in").bytes();
            let n = input.len();
            tlv(prop, c, input, n, cx)
        }
        "run" => {
            let mut input = Vec::new();
            for r in c.get("rle").arr() {
                let unit = r.arr()[0].bytes();
                for _ in 0..r.arr()[1].us() {
                    input.extend_from_slice(&unit);
                }
            }
            let n = c.get("n").us();
            tlv(prop, c, input, n, cx)
        }
        "rd" => reader(c, cx),
        "inte" => int_encode(prop, c, cx),
        "intd" => int_decode(c, cx),
        "bool" => boolean(prop, c, cx),
        k => panic!("harness: unknown case {}", k),
    }
}

pub fn class(n: usize) -> ClassTag {
    [ClassTag::Universal, ClassTag::Application, ClassTag::ContextSpecific, ClassTag::Private][n]
}

pub fn pc(n: usize) -> PCTag {
    [PCTag::Primitive, PCTag::Constructed][n]
}

pub fn class_index(c: ClassTag) -> usize {
    match c {
        ClassTag::Universal => 0,
        ClassTag::Application => 1,
        ClassTag::ContextSpecific => 2,
        ClassTag::Private => 3,
    }
}

pub fn pc_index(p: PCTag) -> usize {
    match p {
        PCTag::Primitive => 0,
        PCTag::Constructed => 1,
    }
}

fn components(id: &IdRef, cl: usize, p: usize, num: Result<u128, &'static str>, cx: &mut Cx) {
    cx.eq("class", class_index(id.class()), cl);
    cx.eq("pc", pc_index(id.pc()), p);
    cx.eq("class flags", [id.is_universal(), id.is_application(), id.is_context_specific(), id.is_private()], [cl == 0, cl == 1, cl == 2, cl == 3]);
    cx.eq("pc flags", [id.is_primitive(), id.is_constructed()], [p == 0, p == 1]);
    cx.eq("number", id.number().map(|n| n.get()).map_err(|e| kind(&e)), num);
}

/* ------------------------------ identifiers ------------------------------ */

fn id_parse(prop: &str, c: &Json, cx: &mut Cx) {
    let input = c.get("in").bytes();
    let want = c.get("res").str();
    let ok = want == "ok";
    let suffixes = if want == "UnterminatedBytes" { &SUFFIXES[..1] } else { &SUFFIXES[..] };

    for suffix in suffixes {
        let buf = [&input[..], suffix].concat();

        let mut cur = &buf[..];
        let r = IdRef::parse(&mut cur);
        if prop == "P08" {
            slice_cursor(&buf, cur, ok, input.len(), cx);
        } else {
            cx.eq("IdRef::parse", res(&r), want);
        }
        if let Ok(id) = r {
            if ok && prop != "P08" {
                let b: &[u8] = id.as_ref();
                cx.eq("id octets", b, &input[..]);
                cx.eq("id len", id.len(), input.len());
                if prop == "P02" {
                    let num = if c.get("over").bool() { Err("OverFlow") } else { Ok(c.get("num").num()) };
                    components(id, c.get("class").us(), c.get("pc").us(), num, cx);
                }
            }
        }

        let mut copy = buf.clone();
        let base = copy.as_ptr();
        let mut cur = &mut copy[..];
        let r = IdRef::parse_mut(&mut cur);
        let got = res(&r);
        let octets = r.map(|id| AsRef::<[u8]>::as_ref(&*id).to_vec()).ok();
        if prop == "P08" {
            mut_cursor(&buf, base, cur.as_ptr(), cur.len(), ok, input.len(), cx);
            cx.ck(copy == buf, || "parse_mut changed the octets".into());
        } else {
            cx.eq("IdRef::parse_mut", got, want);
            if ok {
                cx.eq("parse_mut octets", octets, Some(input.clone()));
            }
            let mut rd = &buf[..];
            let r = Id::parse(&mut rd);
            cx.eq("Id::parse", res(&r), want);
            if let (Ok(id), true) = (&r, ok) {
                let b: &[u8] = id.as_ref();
                cx.eq("Id::parse octets", b, &input[..]);
                cx.eq("Id::parse rest", rd, suffix);
            }
        }
    }
}

fn id_build(c: &Json, cx: &mut Cx) {
    let num = c.get("num").num();
    let mut all: Vec<Vec<u8>> = Vec::new();
    for (i, want) in c.get("ids").arr().iter().enumerate() {
        let want = want.bytes();
        let (cl, p) = (i / 2, i % 2);
        let mut numbers = vec![TagNumber::from(num)];
        if let Ok(n) = u8::try_from(num) {
            numbers.push(n.into());
        }
        if let Ok(n) = u16::try_from(num) {
            numbers.push(n.into());
        }
        if let Ok(n) = u32::try_from(num) {
            numbers.push(n.into());
        }
        if let Ok(n) = u64::try_from(num) {
            numbers.push(n.into());
        }
        if let Ok(n) = usize::try_from(num) {
            numbers.push(n.into());
        }
        for n in numbers {
            cx.eq("TagNumber::get", n.get(), num);
            let id = Id::new(class(cl), pc(p), n);
            let b: &[u8] = id.as_ref();
            cx.eq("Id::new", b, &want[..]);
            components(&id, cl, p, Ok(num), cx);
        }
        let buf = [&want[..], &[0x81, 0x00]].concat();
        let mut cur = &buf[..];
        match IdRef::parse(&mut cur) {
            Ok(id) => {
                let b: &[u8] = id.as_ref();
                cx.eq("parsed back", b, &want[..]);
                components(id, cl, p, Ok(num), cx);
            }
            Err(e) => cx.ck(false, || format!("built identifier does not parse: {:?}", e)),
        }
        all.push(AsRef::<[u8]>::as_ref(&*Id::new(class(cl), pc(p), num.into())).to_vec());
    }
    let n = all.len();
    all.sort();
    all.dedup();
    cx.eq("distinct identifiers", all.len(), n);
}

fn id_constants(c: &Json, cx: &mut Cx) {
    let table: [(&str, &IdRef); 11] = [
        ("eoc", IdRef::eoc()),
        ("boolean", IdRef::boolean()),
        ("integer", IdRef::integer()),
        ("octet_string", IdRef::octet_string()),
        ("octet_string_constructed", IdRef::octet_string_constructed()),
        ("null", IdRef::null()),
        ("real", IdRef::real()),
        ("utf8_string", IdRef::utf8_string()),
        ("utf8_string_constructed", IdRef::utf8_string_constructed()),
        ("sequence", IdRef::sequence()),
        ("set", IdRef::set()),
    ];
    for (name, id) in table {
        let b: &[u8] = id.as_ref();
        cx.eq(name, b, &c.get("ids").get(name).bytes()[..]);
    }
}

/* -------------------------------- lengths -------------------------------- */

fn length_of(j: &Json) -> Length {
    if j.get("def").bool() {
        Length::Definite(j.get("num").num() as usize)
    } else {
        Length::Indefinite
    }
}

/// Equality that also holds for the indefinite length.
pub fn same_length(a: Length, b: Length) -> bool {
    match (a, b) {
        (Length::Indefinite, Length::Indefinite) => true,
        (Length::Definite(x), Length::Definite(y)) => x == y,
        _ => false,
    }
}

fn len_predicates(l: Length, cx: &mut Cx) {
    let def = matches!(l, Length::Definite(_));
    cx.eq("is_definite", l.is_definite(), def);
    cx.eq("is_indefinite", l.is_indefinite(), !def);
    cx.eq("definite", l.definite(), if let Length::Definite(n) = l { Some(n) } else { None });
}

fn len_parse(c: &Json, cx: &mut Cx) {
    let input = c.get("in").bytes();
    let want = c.get("res").str();
    let suffixes = if want == "UnterminatedBytes" { &SUFFIXES[..1] } else { &SUFFIXES[..] };
    for suffix in suffixes {
        let buf = [&input[..], suffix].concat();
        let mut cur = &buf[..];
        let r = Length::parse(&mut cur);
        cx.eq("Length::parse", res(&r), want);
        if let (Ok(l), "ok") = (&r, want) {
            cx.ck(same_length(*l, length_of(c.get("len"))), || format!("parsed length {:?}", l));
            cx.eq("rest", cur, suffix);
            len_predicates(*l, cx);
            cx.eq("to_bytes", l.to_bytes().to_vec(), input.clone());
            cx.eq("len", l.len(), input.len());
        }
    }
}

fn len_build(c: &Json, cx: &mut Cx) {
    let l = length_of(c.get("len"));
    let out = c.get("out").bytes();
    cx.eq("to_bytes", l.to_bytes().to_vec(), out.clone());
    cx.eq("len", l.len(), out.len());
    len_predicates(l, cx);
    let buf = [&out[..], &[0x80]].concat();
    let mut cur = &buf[..];
    match Length::parse(&mut cur) {
        Ok(m) => {
            cx.ck(same_length(l, m), || format!("parsed back {:?}", m));
            cx.eq("rest", cur, &[0x80][..]);
        }
        Err(e) => cx.ck(false, || format!("built length does not parse: {:?}", e)),
    }
}

fn len_cmp(c: &Json, cx: &mut Cx) {
    let (a, b) = (length_of(c.get("a")), length_of(c.get("b")));
    let want = match c.get("cmp").str() {
        "less" => Some(Ordering::Less),
        "equal" => Some(Ordering::Equal),
        "greater" => Some(Ordering::Greater),
        _ => None,
    };
    cx.eq("partial_cmp", a.partial_cmp(&b), want);
    cx.eq("eq", a == b, want == Some(Ordering::Equal));
    #[allow(clippy::nonminimal_bool)]
    {
        cx.eq("ne", a != b, want != Some(Ordering::Equal));
    }
    cx.eq("lt", a < b, want == Some(Ordering::Less));
    cx.eq("le", a <= b, matches!(want, Some(Ordering::Less | Ordering::Equal)));
    cx.eq("gt", a > b, want == Some(Ordering::Greater));
    cx.eq("ge", a >= b, matches!(want, Some(Ordering::Greater | Ordering::Equal)));
    cx.eq("encoded a", a.to_bytes().to_vec(), c.get("ea").bytes());
    cx.eq("encoded b", b.to_bytes().to_vec(), c.get("eb").bytes());
    cx.eq("encoded size a", a.len(), c.get("ea").bytes().len());
    len_predicates(a, cx);
    len_predicates(b, cx);
}

/* -------------------------------- framing -------------------------------- */

fn slice_cursor(buf: &[u8], cur: &[u8], ok: bool, n: usize, cx: &mut Cx) {
    let off = (cur.as_ptr() as usize).wrapping_sub(buf.as_ptr() as usize);
    let want = if ok { n } else { 0 };
    cx.eq("cursor after a shared parse (offset, octets left)", (off, cur.len()), (want, buf.len() - want));
}

fn mut_cursor(buf: &[u8], base: *const u8, cur: *const u8, left: usize, ok: bool, n: usize, cx: &mut Cx) {
    let off = (cur as usize).wrapping_sub(base as usize);
    let want = if ok { n } else { 0 };
    cx.eq("cursor after a mutable parse (offset, octets left)", (off, left), (want, buf.len() - want));
}

macro_rules! framing {
    ($name:ident, $ref_:ty, $owned:ty) => {
        fn $name(prop: &str, buf: &[u8], n: usize, want: &str, i: usize, l: usize, cx: &mut Cx) {
            let ok = want == "ok";
            let element = &buf[..n];
            let parts = |cx: &mut Cx, what: &str, id: &IdRef, length: Length, contents: &ContentsRef| {
                let b: &[u8] = id.as_ref();
                cx.ck(b == &element[..i], || format!("{} identifier {:?}", what, b));
                let c: &[u8] = contents.as_ref();
                cx.ck(c == &element[i + l..], || format!("{} contents {} octets", what, c.len()));
                let wl = if element[i] == 0x80 { Length::Indefinite } else { Length::Definite(n - i - l) };
                cx.ck(same_length(length, wl), || format!("{} length {:?} want {:?}", what, length, wl));
            };

            // A shared slice.
            let mut cur = &buf[..];
            let r = <$ref_>::parse(&mut cur);
            match prop {
                "P05" | "P06" => {
                    cx.eq("parse", res(&r), want);
                    if let (Ok(v), true) = (&r, ok) {
                        let b: &[u8] = v.as_ref();
                        cx.ck(b == element, || format!("parse: element of {} octets, want {}", b.len(), n));
                        parts(cx, "accessors", v.id(), v.length(), v.contents());
                        let (a, b, c) = v.disassemble();
                        parts(cx, "disassemble", a, b, c);
                    }
                }
                "P08" => slice_cursor(buf, cur, ok, n, cx),
                _ => (),
            }

            // A mutable slice.
            let mut copy = buf.to_vec();
            let base = copy.as_ptr();
            {
                let mut cur = &mut copy[..];
                let r = <$ref_>::parse_mut(&mut cur);
                match prop {
                    "P05" | "P06" => {
                        cx.eq("parse_mut", res(&r), want);
                        if let (Ok(v), true) = (r, ok) {
                            let b: &[u8] = (*v).as_ref();
                            cx.ck(b == element, || "parse_mut: element".into());
                            parts(cx, "accessors", v.id(), v.length(), v.contents());
                            let (a, b, c) = v.disassemble_mut();
                            parts(cx, "disassemble_mut", a, b, c);
                        }
                    }
                    "P08" => mut_cursor(buf, base, cur.as_ptr(), cur.len(), ok, n, cx),
                    _ => (),
                }
            }
            if prop == "P08" {
                cx.ck(copy == buf, || "parse_mut changed the octets".into());
                return;
            }

            // A reader.
            let readers: Vec<Scripted> = if prop == "P07" {
                let m = if buf.len() > 4096 { 1009 } else { 5 };
                vec![
                    Scripted::chunked(buf, usize::MAX, false),
                    Scripted::chunked(buf, 1, false),
                    Scripted::chunked(buf, 2, true),
                    Scripted::chunked(buf, m, false),
                ]
            } else {
                vec![Scripted::chunked(buf, usize::MAX, false)]
            };
            for mut rd in readers {
                let before = mem::reset_peak();
                let r = <$owned>::parse(&mut rd);
                if prop == "P09" {
                    let used = mem::peak() - before;
                    cx.ck(used <= (1 << 18) + 16 * buf.len() as isize, || {
                        format!("parsing {} octets from a reader held {} octets", buf.len(), used)
                    });
                    continue;
                }
                cx.eq("parse from a reader", res(&r), want);
                if let (Ok(v), true) = (&r, ok) {
                    let b: &[u8] = v.as_ref();
                    cx.ck(b == element, || format!("reader: element of {} octets, want {}", b.len(), n));
                    cx.eq("octets taken from the reader", rd.pos, n);
                    if prop != "P07" {
                        parts(cx, "owned accessors", v.id(), v.length(), v.contents());
                    }
                }
            }

            // From in-memory octets as a reader.
            if prop == "P07" || prop == "P05" || prop == "P06" {
                let mut rd = buf;
                let r = <$owned>::parse(&mut rd);
                cx.eq("parse from a slice as a reader", res(&r), want);
                if ok {
                    cx.eq("octets left in the reader", rd.len(), buf.len() - n);
                }
            }
        }
    };
}

framing!(framing_der, DerRef, Der);
framing!(framing_ber, BerRef, Ber);

fn tlv(prop: &str, c: &Json, input: Vec<u8>, n: usize, cx: &mut Cx) {
    let want = c.get("res").str();
    let (i, l) = (c.get("i").us(), c.get("l").us());
    let n = if want == "ok" { n } else { 0 };
    let mode = c.get("m").str();
    let suffixes = if want == "UnterminatedBytes" || input.len() > 5000 {
        &SUFFIXES[..1]
    } else if prop == "P07" || prop == "P09" {
        &SUFFIXES[..2]
    } else {
        &SUFFIXES[..]
    };
    for suffix in suffixes {
        let buf = [&input[..], suffix].concat();
        match mode {
            "der" => framing_der(prop, &buf, n, want, i, l, cx),
            _ => framing_ber(prop, &buf, n, want, i, l, cx),
        }
    }
    if prop == "P09" {
        hostile(&input, cx);
    }
}

/// Everything that takes untrusted octets must return.
fn hostile(input: &[u8], cx: &mut Cx) {
    let _ = IdRef::parse(&mut &input[..]);
    let _ = Id::parse(&mut &input[..]).map(|id| id.number());
    let _ = Length::parse(&mut &input[..]);
    let contents: &ContentsRef = input.into();
    let _ = (contents.to_integer::<i8>(), contents.to_integer::<u8>(), contents.to_integer::<i16>(), contents.to_integer::<u16>());
    let _ = (contents.to_integer::<i32>(), contents.to_integer::<u32>(), contents.to_integer::<i64>(), contents.to_integer::<u64>());
    let _ = (contents.to_integer::<i128>(), contents.to_integer::<u128>(), contents.to_integer::<isize>(), contents.to_integer::<usize>());
    let _ = (contents.to_bool_ber(), contents.to_bool_der());
    if let Ok(v) = BerRef::parse(&mut &input[..]) {
        let _ = (v.id().number(), v.length(), v.contents().len());
    }
    cx.checks += 1;
}

fn reader(c: &Json, cx: &mut Cx) {
    let data = c.get("in").bytes();
    let want = c.get("res").str();
    let n = c.get("n").us();
    let sched: Vec<(u8, bool)> = c
        .get("sched")
        .arr()
        .iter()
        .map(|p| (p.arr()[0].int() as u8, p.arr()[1].int() == 1))
        .collect();
    let fail = c.get("fail").int();
    let mut rd = Scripted { data: &data, pos: 0, sched, fail: usize::try_from(fail).ok() };
    let (got, octets): (&str, Option<Vec<u8>>) = match c.get("m").str() {
        "id" => {
            let r = Id::parse(&mut rd);
            (res(&r), r.ok().map(|v| AsRef::<[u8]>::as_ref(&*v).to_vec()))
        }
        "len" => {
            let r = Length::parse(&mut rd);
            (res(&r), r.ok().map(|v| v.to_bytes().to_vec()))
        }
        "der" => {
            let r = Der::parse(&mut rd);
            (res(&r), r.ok().map(|v| v.into_vec()))
        }
        _ => {
            let r = Ber::parse(&mut rd);
            (res(&r), r.ok().map(|v| v.into_vec()))
        }
    };
    cx.eq("outcome", got, want);
    if want == "ok" {
        cx.eq("octets", octets, Some(data[..n].to_vec()));
        cx.eq("octets taken from the reader", rd.pos, n);
    }
}

/* -------------------------------- scalars -------------------------------- */

macro_rules! int_enc {
    ($prop:expr, $cx:expr, $v:expr, $want:expr, $t:ty) => {{
        const N: usize = std::mem::size_of::<$t>();
        let mut a = [0u8; N];
        a.copy_from_slice(&$v);
        let v = <$t>::from_be_bytes(a);
        let want: &[u8] = &$want;
        if $prop == "P10" {
            let c = Contents::from(v);
            let b: &[u8] = c.as_ref();
            $cx.eq(concat!("Contents::from ", stringify!($t)), b, want);
            $cx.eq(concat!("back to ", stringify!($t)), c.to_integer::<$t>().map_err(|e| kind(&e)), Ok(v));
            $cx.eq("unchecked", unsafe { c.to_integer_unchecked::<$t>() }, v);
        }
        let d = Der::from(v);
        let e = Ber::from(v);
        let octets = [&[2, want.len() as u8], want].concat();
        $cx.eq(concat!("Der::from ", stringify!($t)), AsRef::<[u8]>::as_ref(&d), &octets[..]);
        $cx.eq(concat!("Ber::from ", stringify!($t)), AsRef::<[u8]>::as_ref(&e), &octets[..]);
    }};
}

/// Octets of a machine word.
const WORD: usize = std::mem::size_of::<usize>();

fn int_encode(prop: &str, c: &Json, cx: &mut Cx) {
    let v = c.get("v").bytes();
    let (i, u) = (c.get("i").bytes(), c.get("u").bytes());
    match c.get("w").us() {
        1 => {
            int_enc!(prop, cx, v, i, i8);
            int_enc!(prop, cx, v, u, u8);
        }
        2 => {
            int_enc!(prop, cx, v, i, i16);
            int_enc!(prop, cx, v, u, u16);
        }
        4 => {
            int_enc!(prop, cx, v, i, i32);
            int_enc!(prop, cx, v, u, u32);
        }
        8 => {
            int_enc!(prop, cx, v, i, i64);
            int_enc!(prop, cx, v, u, u64);
        }
        16 => {
            int_enc!(prop, cx, v, i, i128);
            int_enc!(prop, cx, v, u, u128);
        }
        w => panic!("harness: width {}", w),
    }
    if c.get("w").us() == WORD {
        int_enc!(prop, cx, v, i, isize);
        int_enc!(prop, cx, v, u, usize);
    }
}

macro_rules! int_dec {
    ($cx:expr, $contents:expr, $want:expr, $t:ty) => {{
        let r: Result<$t, Error> = $contents.to_integer();
        let got = match &r {
            Ok(v) => ("ok", v.to_be_bytes().to_vec()),
            Err(e) => (kind(e), Vec::new()),
        };
        let want = ($want.arr()[0].str(), $want.arr()[1].bytes());
        $cx.eq(concat!("to_integer ", stringify!($t)), got, want);
    }};
}

fn int_decode(c: &Json, cx: &mut Cx) {
    let input = c.get("in").bytes();
    let contents: &ContentsRef = (&input[..]).into();
    let (i, u) = (c.get("i").arr(), c.get("u").arr());
    int_dec!(cx, contents, i[0], i8);
    int_dec!(cx, contents, i[1], i16);
    int_dec!(cx, contents, i[2], i32);
    int_dec!(cx, contents, i[3], i64);
    int_dec!(cx, contents, i[WORD.trailing_zeros() as usize], isize);
    int_dec!(cx, contents, i[4], i128);
    int_dec!(cx, contents, u[0], u8);
    int_dec!(cx, contents, u[1], u16);
    int_dec!(cx, contents, u[2], u32);
    int_dec!(cx, contents, u[3], u64);
    int_dec!(cx, contents, u[WORD.trailing_zeros() as usize], usize);
    int_dec!(cx, contents, u[4], u128);
}

fn boolean(prop: &str, c: &Json, cx: &mut Cx) {
    let input = c.get("in").bytes();
    let contents: &ContentsRef = (&input[..]).into();
    let decoded = if prop == "P11" { vec![("ber", contents.to_bool_ber()), ("der", contents.to_bool_der())] } else { vec![] };
    for (rule, got) in decoded {
        let w = c.get(rule);
        cx.eq(rule, res(&got), w.get("res").str());
        if let (Ok(b), "ok") = (got, w.get("res").str()) {
            cx.eq(rule, b, w.get("v").bool());
        }
    }
    for (b, key) in [(true, "t"), (false, "f")] {
        let want = c.get(key).bytes();
        let tlv = [&[1, want.len() as u8], &want[..]].concat();
        cx.eq("Contents::from", AsRef::<[u8]>::as_ref(&Contents::from(b)), &want[..]);
        cx.eq("&ContentsRef::from", AsRef::<[u8]>::as_ref(<&ContentsRef>::from(b)), &want[..]);
        cx.eq("Der::from", AsRef::<[u8]>::as_ref(&Der::from(b)), &tlv[..]);
        cx.eq("Ber::from", AsRef::<[u8]>::as_ref(&Ber::from(b)), &tlv[..]);
        cx.eq("DerRef::boolean", AsRef::<[u8]>::as_ref(DerRef::boolean(b)), &tlv[..]);
    }
}
