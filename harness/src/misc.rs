//! Building elements, cursors over slices, orders and errors.

use crate::core::same_length;
use crate::json::Json;
use crate::obj::{hash_of, source};
use crate::util::*;
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, Error, Id, IdRef, Length};
use std::cmp::Ordering;
use std::fmt;

pub fn check(prop: &str, c: &Json, cx: &mut Cx) {
    match c.get("k").str() {
        "bld" => build(c, cx),
        "cur" => cursor(prop, c, cx),
        "idcmp" => id_order(c, cx),
        "err" => error(c, cx),
        k => panic!("harness: unknown case {}", k),
    }
}

fn build(c: &Json, cx: &mut Cx) {
    let kind = c.get("kind").str();
    let (ido, leno) = (c.get("id").bytes(), c.get("len").bytes());
    let pieces: Vec<Vec<u8>> =
        c.get("pieces").arr().iter().enumerate().map(|(i, n)| source(i as u64 + 1, 0, n.us())).collect();
    let contents = pieces.concat();
    let octets = [&ido[..], &leno, &contents].concat();
    let id = &*Id::parse(&mut &ido[..]).expect("an identifier");
    let cref: &ContentsRef = (&contents[..]).into();

    macro_rules! built {
        ($what:expr, $v:expr, $ref_:ty, $owned:ty) => {{
            let v = $v;
            let b: &[u8] = v.as_ref();
            cx.ck(b == &octets[..], || format!("{}: {} octets {:02x?}", $what, b.len(), &b[..b.len().min(30)]));
            if b == &octets[..] {
                let (i, l, c) = v.disassemble();
                let wl = if kind == "berind" { Length::Indefinite } else { Length::Definite(contents.len()) };
                for (i, l, c) in [(i, l, c), (v.id(), v.length(), v.contents())] {
                    cx.ck(i == id, || format!("{}: identifier", $what));
                    cx.ck(same_length(l, wl), || format!("{}: length {:?}", $what, l));
                    cx.ck(c == cref, || format!("{}: contents", $what));
                }
                if kind != "berind" {
                    let mut cur = &octets[..];
                    cx.ck(matches!(<$ref_>::parse(&mut cur), Ok(p) if p == &*v) && cur.is_empty(), || {
                        format!("{}: does not parse back", $what)
                    });
                    cx.ck(matches!(<$owned>::parse(&mut &octets[..]), Ok(p) if p == v), || {
                        format!("{}: does not parse back from a reader", $what)
                    });
                }
            }
        }};
    }

    match kind {
        "der" => {
            built!("new", Der::new(id, cref), DerRef, Der);
            let mut d = Der::with_id_length(id, contents.len());
            cx.eq("reserved contents", d.contents().len(), contents.len());
            d.mut_contents().as_mut().copy_from_slice(&contents);
            built!("with_id_length", d, DerRef, Der);
            built!("from_id_iterator", Der::from_id_iterator(id, pieces.iter()), DerRef, Der);
            built!("from_id_iterator", Der::from_id_iterator(id, pieces.iter().filter(|_| true).map(|p| &p[..])), DerRef, Der);
        }
        "ber" => {
            built!("new", Ber::new(id, cref), BerRef, Ber);
            let mut d = Ber::with_id_length(id, contents.len());
            cx.eq("reserved contents", d.contents().len(), contents.len());
            d.mut_contents().as_mut().copy_from_slice(&contents);
            built!("with_id_length", d, BerRef, Ber);
            built!("from_id_iterator", Ber::from_id_iterator(id, pieces.iter()), BerRef, Ber);
            built!("from_id_iterator", Ber::from_id_iterator(id, pieces.iter().filter(|_| true).map(|p| &p[..])), BerRef, Ber);
            built!("Ber::from(Der)", Ber::from(Der::new(id, cref)), BerRef, Ber);
        }
        _ => unsafe {
            built!("new_indefinite", Ber::new_indefinite(id, cref), BerRef, Ber);
            let mut d = Ber::with_id_length_indefinite(id, contents.len());
            cx.eq("reserved contents", d.contents().len(), contents.len());
            d.mut_contents().as_mut().copy_from_slice(&contents);
            built!("with_id_length_indefinite", d, BerRef, Ber);
            built!("from_id_iterator_indefinite", Ber::from_id_iterator_indefinite(id, pieces.iter()), BerRef, Ber);
        },
    }
    if kind != "berind" && ido == [4] {
        built!("Der::from(&[u8])", Der::from(&contents[..]), DerRef, Der);
        built!("Ber::from(&[u8])", Ber::from(&contents[..]), BerRef, Ber);
        let text: String = contents.iter().map(|b| char::from(b & 0x7f)).collect();
        let want = [&[0x0c], &leno[..], text.as_bytes()].concat();
        cx.ck(AsRef::<[u8]>::as_ref(&Der::from(&text[..])) == &want[..], || "Der::from(&str)".into());
        cx.ck(AsRef::<[u8]>::as_ref(&Ber::from(&text[..])) == &want[..], || "Ber::from(&str)".into());
    }
}

/// Parsers applied one after another to one slice.
fn cursor(prop: &str, c: &Json, cx: &mut Cx) {
    let buf = c.get("in").bytes();
    let ops: Vec<(&str, &str, usize)> = c
        .get("ops")
        .arr()
        .iter()
        .map(|o| (o.arr()[0].str(), o.arr()[1].str(), o.arr()[2].us()))
        .collect();

    if prop == "P08" {
        let mut cur = &buf[..];
        let mut pos = 0;
        for (p, want, at) in &ops {
            let r = match *p {
                "id" => IdRef::parse(&mut cur).map(|v| v.as_ref()),
                "der" => DerRef::parse(&mut cur).map(|v| v.as_ref()),
                _ => BerRef::parse(&mut cur).map(|v| v.as_ref()),
            };
            let r: Result<&[u8], Error> = r;
            cx.eq("outcome", res(&r), *want);
            if let (Ok(v), "ok") = (&r, *want) {
                cx.eq("element", *v, &buf[pos..*at]);
            }
            pos = *at;
            cx.eq("cursor", ((cur.as_ptr() as usize).wrapping_sub(buf.as_ptr() as usize), cur.len()), (pos, buf.len() - pos));
        }

        let mut copy = buf.clone();
        let base = copy.as_ptr() as usize;
        let mut cur = &mut copy[..];
        for (p, want, at) in &ops {
            let got = match *p {
                "id" => res(&IdRef::parse_mut(&mut cur)),
                "der" => res(&DerRef::parse_mut(&mut cur)),
                _ => res(&BerRef::parse_mut(&mut cur)),
            };
            cx.eq("outcome of a mutable parse", got, *want);
            cx.eq("cursor of a mutable parse", ((cur.as_ptr() as usize).wrapping_sub(base), cur.len()), (*at, buf.len() - *at));
        }
        cx.eq("octets after mutable parses", &copy, &buf);
        return;
    }

    // The same through a reader, as long as it succeeds.
    for chunk in [usize::MAX, 1, 3] {
        let mut rd = Scripted::chunked(&buf, chunk, chunk == 3);
        let mut pos = 0;
        for (p, want, at) in &ops {
            let r: Result<Vec<u8>, Error> = match *p {
                "id" => Id::parse(&mut rd).map(|v| AsRef::<[u8]>::as_ref(&v).to_vec()),
                "der" => Der::parse(&mut rd).map(Der::into_vec),
                _ => Ber::parse(&mut rd).map(Ber::into_vec),
            };
            cx.eq("outcome from a reader", res(&r), *want);
            if *want != "ok" {
                break;
            }
            cx.eq("element from a reader", r.ok(), Some(buf[pos..*at].to_vec()));
            pos = *at;
            cx.eq("octets taken", rd.pos, pos);
        }
    }
}

fn id_order(c: &Json, cx: &mut Cx) {
    let (a, b) = (c.get("a").bytes(), c.get("b").bytes());
    let want = match c.get("cmp").str() {
        "less" => Ordering::Less,
        "equal" => Ordering::Equal,
        _ => Ordering::Greater,
    };
    let x = Id::parse(&mut &a[..]).expect("an identifier");
    let y = Id::parse(&mut &b[..]).expect("an identifier");
    let (xr, yr): (&IdRef, &IdRef) = (&x, &y);
    let same = want == Ordering::Equal;
    cx.eq("cmp", x.cmp(&y), want);
    cx.eq("partial_cmp", x.partial_cmp(&y), Some(want));
    cx.eq("cmp of references", xr.cmp(yr), want);
    cx.eq("partial_cmp of references", xr.partial_cmp(yr), Some(want));
    cx.eq("partial_cmp with a reference", x.partial_cmp(&yr), Some(want));
    cx.eq("partial_cmp of a reference", xr.partial_cmp(&y), Some(want));
    cx.eq("operators", (x < y, x <= y, x > y, x >= y), (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()));
    cx.eq("equality", (x == y, xr == yr, x == yr, *xr == y, x != y), (same, same, same, same, !same));
    if same {
        cx.eq("hash", (hash_of(&x) == hash_of(&y), hash_of(xr) == hash_of(&y)), (true, true));
    }
    cx.eq("max", AsRef::<[u8]>::as_ref(&x.clone().max(y.clone())), if want.is_gt() { &a[..] } else { &b[..] });
}

#[derive(Debug)]
struct Foreign {
    source: Option<Error>,
}

impl fmt::Display for Foreign {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("foreign")
    }
}

impl std::error::Error for Foreign {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| e as _)
    }
}

pub fn plain(kind: &str) -> Option<Error> {
    Some(match kind {
        "UnterminatedBytes" => Error::UnterminatedBytes,
        "RedundantBytes" => Error::RedundantBytes,
        "OverFlow" => Error::OverFlow,
        "IndefiniteLength" => Error::IndefiniteLength,
        "BadEoc" => Error::BadEoc,
        "ExtraContentsOctet" => Error::ExtraContentsOctet,
        "UnmatchedId" => Error::UnmatchedId,
        "InvalidUtf8" => Error::InvalidUtf8,
        "InvalidDerBooleanContents" => Error::InvalidDerBooleanContents,
        "InvalidKeyValuePair" => Error::InvalidKeyValuePair,
        _ => return None,
    })
}

const PLAIN: [&str; 10] = [
    "UnterminatedBytes",
    "RedundantBytes",
    "OverFlow",
    "IndefiniteLength",
    "BadEoc",
    "ExtraContentsOctet",
    "UnmatchedId",
    "InvalidUtf8",
    "InvalidDerBooleanContents",
    "InvalidKeyValuePair",
];

fn question(e: Error) -> anyhow::Result<()> {
    Err(e)?;
    Ok(())
}

fn error(c: &Json, cx: &mut Cx) {
    let base = c.get("base").str();
    let mut e = match base {
        "Io" => Error::from(std::io::Error::new(std::io::ErrorKind::Other, "disk")),
        "foreign" => Error::from(anyhow::Error::new(Foreign { source: None })),
        k => plain(k).expect("harness: kind"),
    };
    let mut behind = base == "foreign";
    for op in c.get("ops").arr() {
        e = match op.str() {
            "str" => e.context("while reading"),
            "string" => e.context(format!("at index {}", 3)),
            "error" => e.context(Error::OverFlow),
            "anyhow" => Error::from(e.into_anyhow()),
            "behind" => {
                behind = true;
                Error::from(anyhow::Error::new(Foreign { source: Some(e) }))
            }
            "question" => question(e).unwrap_err().into(),
            op => panic!("harness: operation {}", op),
        };
    }
    cx.eq("kind of the root cause", root(&e), c.get("root").str());
    cx.eq("kind of the root cause of the root cause", root(e.root_cause()), c.get("root").str());
    if let Error::Io(io) = e.root_cause() {
        cx.eq("i/o error behind", io.to_string(), "disk".to_string());
    }
    let eq = c.get("eq").str();
    for k in PLAIN {
        let other = plain(k).unwrap();
        cx.eq("equality with a plain error", (e == other, other == e, e != other), (k == eq, k == eq, k != eq));
    }
    #[allow(clippy::eq_op)]
    {
        cx.eq("equality with itself", e == e, !eq.is_empty());
    }
    if let Some(any) = e.as_anyhow() {
        let found = any.chain().any(|x| x.downcast_ref::<Foreign>().is_some());
        cx.eq("foreign error in the chain", found, behind);
    } else {
        cx.ck(!behind, || "the foreign error is lost".into());
    }
    let any = e.into_anyhow();
    let found = any.chain().any(|x| x.downcast_ref::<Foreign>().is_some());
    cx.eq("foreign error in the chain of the anyhow error", found, behind);
}
