//! Octets as octet strings and as text.

use crate::json::Json;
use crate::obj::hash_of;
use crate::util::*;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Length};
use bsn1_serde::OctetString;
use std::cmp::Ordering;

pub fn check(prop: &str, c: &Json, cx: &mut Cx) {
    let (o, ok) = (c.get("o").bytes(), c.get("ok").bool());
    match prop {
        "P12" => {
            if ok {
                built(&o, cx);
            }
        }
        "P16" => {
            if ok {
                there_and_back(&o, cx);
            }
        }
        "P19" => read_text(&o, ok, cx),
        "P30" => octet_string(&o, ok, cx),
        p => panic!("harness: no text for {}", p),
    }
}

fn element(tag: u8, o: &[u8]) -> Vec<u8> {
    [&[tag], &Length::Definite(o.len()).to_bytes()[..], o].concat()
}

fn built(o: &[u8], cx: &mut Cx) {
    let s = std::str::from_utf8(o).expect("harness: not UTF-8");
    let want = element(0x0c, o);
    cx.eq("Der::from text", Der::from(s).into_vec(), want.clone());
    cx.eq("Ber::from text", Ber::from(s).into_vec(), want);
    cx.eq("Contents::from text", AsRef::<[u8]>::as_ref(&Contents::from(s)), o);
    cx.eq("Contents::from String", AsRef::<[u8]>::as_ref(&Contents::from(s.to_string())), o);
    cx.eq("ContentsRef::from text", AsRef::<[u8]>::as_ref(<&ContentsRef>::from(s)), o);
}

fn there_and_back(o: &[u8], cx: &mut Cx) {
    let s = String::from_utf8(o.to_vec()).expect("harness: not UTF-8");
    let der = bsn1_serde::to_der(&s).expect("text is serialized");
    cx.eq("by DER", bsn1_serde::from_der(&der), Ok(s.clone()));
    let ber = bsn1_serde::to_ber(&s).expect("text is serialized");
    cx.eq("by BER", bsn1_serde::from_ber(&ber), Ok(s.clone()));
    let b: &[u8] = der.as_ref();
    cx.eq("from a slice", bsn1_serde::parse_der(&mut &b[..]), Ok(s.clone()));
    cx.eq("from a reader", bsn1_serde::read_ber(&mut &b[..]), Ok(s));
}

fn read_text(o: &[u8], ok: bool, cx: &mut Cx) {
    let want = match ok {
        true => Ok(String::from_utf8_lossy(o).into_owned()),
        false => Err("InvalidUtf8"),
    };
    let got = |r: Result<String, bsn1::Error>| r.map_err(|e| root(&e));
    let e = element(0x0c, o);
    let der = DerRef::parse(&mut &e[..]).expect("an element");
    let ber = BerRef::parse(&mut &e[..]).expect("an element");
    cx.eq("text by DER", got(bsn1_serde::from_der(der)), want.clone());
    cx.eq("text by BER", got(bsn1_serde::from_ber(ber)), want.clone());
    cx.eq("text from a reader", got(bsn1_serde::read_der(&mut &e[..])), want.clone());
    let list = element(0x30, &e);
    let list = DerRef::parse(&mut &list[..]).expect("an element");
    let inner = bsn1_serde::from_der::<Vec<String>>(list).map_err(|e| root(&e));
    cx.eq("text in a list", inner, want.clone().map(|s| vec![s]));
}

fn octet_string(o: &[u8], ok: bool, cx: &mut Cx) {
    let mut all: Vec<(&str, OctetString)> = vec![
        ("new", OctetString::new(o)),
        ("from a slice", OctetString::from(o)),
        ("from a vector", OctetString::from(o.to_vec())),
    ];
    let s = std::str::from_utf8(o);
    cx.eq("harness: well-formed", s.is_ok(), ok);
    if let Ok(s) = s {
        all.push(("new from text", OctetString::new(s)));
        all.push(("from text", OctetString::from(s)));
        all.push(("from String", OctetString::from(s.to_string())));
    }
    let e = element(0x04, o);
    let der = DerRef::parse(&mut &e[..]).expect("an element");
    let ber = BerRef::parse(&mut &e[..]).expect("an element");
    match bsn1_serde::from_der::<OctetString>(der) {
        Ok(x) => all.push(("read by DER", x)),
        Err(err) => cx.ck(false, || format!("not read by DER: {}", err)),
    }
    match bsn1_serde::from_ber::<OctetString>(ber) {
        Ok(x) => all.push(("read by BER", x)),
        Err(err) => cx.ck(false, || format!("not read by BER: {}", err)),
    }
    for (how, x) in &all {
        cx.eq(how, AsRef::<[u8]>::as_ref(x), o);
        cx.eq(how, x.clone().into_vec(), o.to_vec());
        cx.eq(how, Vec::<u8>::from(x.clone()), o.to_vec());
        let text = String::try_from(x.clone());
        match (&text, s) {
            (Ok(t), Ok(s)) => cx.eq(how, &t[..], s),
            (Err(err), Err(e)) => {
                cx.eq(how, err.as_bytes(), o);
                cx.eq(how, err.utf8_error(), e);
            }
            _ => cx.ck(false, || format!("{}: as text {:?}", how, text)),
        }
        cx.eq(how, bsn1_serde::to_der(x).map(|d| d.into_vec()), Ok(e.clone()));
        for (other, y) in &all {
            let what = format!("{} and {}", how, other);
            cx.eq(&what, (x == y, x.cmp(y), x.partial_cmp(y)), (true, Ordering::Equal, Some(Ordering::Equal)));
            cx.ck(hash_of(x) == hash_of(y), || format!("{}: hash", what));
        }
    }
}

pub fn order(c: &Json, cx: &mut Cx) {
    let (a, b) = (c.get("a").bytes(), c.get("b").bytes());
    let want = match c.get("cmp").str() {
        "less" => Ordering::Less,
        "equal" => Ordering::Equal,
        _ => Ordering::Greater,
    };
    for x in [OctetString::new(&a), OctetString::from(a.clone())] {
        for y in [OctetString::new(&b), OctetString::from(b.clone())] {
            cx.eq("order", (x.cmp(&y), x.partial_cmp(&y), x == y), (want, Some(want), want.is_eq()));
        }
    }
}
