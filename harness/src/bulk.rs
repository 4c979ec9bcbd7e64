//! Replays of the module Bulk: large values.

use crate::json::Json;
use crate::serde::canon;
use crate::util::{root, Cx, Scripted};
use bsn1::{BerRef, DerRef};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

/// The contents octets the specification describes.
fn contents(c: &Json) -> Vec<u8> {
    let (n, m) = (c.get("n").us(), c.get("m").us());
    let (inner, a, b) = (c.get("inner").bytes(), c.get("a").bytes(), c.get("b").bytes());
    let mut out = Vec::with_capacity(c.get("size").us());
    match c.get("kind").str() {
        "str" => out.resize(n, 97),
        "oct" => out.resize(n, 0),
        "nest" => {
            for _ in 0..m {
                out.push(0x30);
                out.extend(&inner);
                for _ in 0..n {
                    out.extend([2, 1, 7]);
                }
            }
        }
        "bentry" | "hentry" => {
            out.push(0x30);
            out.extend(&inner);
            out.push(12);
            out.extend(&a);
            out.resize(out.len() + n, 97);
            out.push(4);
            out.extend(&b);
            out.resize(out.len() + m, 0);
        }
        kind => {
            for r in c.get("ranges").arr() {
                let r = r.arr();
                let w = r[2].us();
                for x in r[0].us()..r[1].us() {
                    if kind.ends_with("map") {
                        out.extend([0x30, w as u8 + 5]);
                    }
                    out.extend([2, w as u8]);
                    out.extend(&(x as u32).to_be_bytes()[4 - w..]);
                    if kind.ends_with("map") {
                        out.extend([1, 1, if x % 2 == 1 { 255 } else { 0 }]);
                    }
                }
            }
        }
    }
    assert!(out.len() == c.get("size").us(), "harness: {} contents octets", out.len());
    out
}

pub fn check(prop: &str, c: &Json, cx: &mut Cx) {
    let (f, n, m) = (c.get("f").us() as u32, c.get("n").us(), c.get("m").us());
    let numbers = f..f + n as u32;
    let entries = numbers.clone().map(|x| (x, x % 2 == 1));
    let entry = || std::iter::once(("a".repeat(n), OctetString::from(vec![0; m])));
    match c.get("kind").str() {
        "str" => value("a".repeat(n), false, prop, c, cx),
        "oct" => value(OctetString::from(vec![0; n]), false, prop, c, cx),
        "vec" => value(numbers.collect::<Vec<u32>>(), false, prop, c, cx),
        "deque" => value(numbers.collect::<VecDeque<u32>>(), false, prop, c, cx),
        "linked" => value(numbers.collect::<LinkedList<u32>>(), false, prop, c, cx),
        "bset" => value(numbers.collect::<BTreeSet<u32>>(), false, prop, c, cx),
        "hset" => value(numbers.collect::<HashSet<u32>>(), true, prop, c, cx),
        "bmap" => value(entries.collect::<BTreeMap<u32, bool>>(), false, prop, c, cx),
        "hmap" => value(entries.collect::<HashMap<u32, bool>>(), true, prop, c, cx),
        "nest" => value(vec![vec![7u8; n]; m], false, prop, c, cx),
        "bentry" => value(entry().collect::<BTreeMap<_, _>>(), false, prop, c, cx),
        "hentry" => value(entry().collect::<HashMap<_, _>>(), true, prop, c, cx),
        k => panic!("harness: unknown kind {}", k),
    }
}

fn value<T: Serialize + Deserialize + PartialEq>(v: T, unordered: bool, prop: &str, c: &Json, cx: &mut Cx) {
    let mut want = c.get("head").bytes();
    let body = contents(c);
    match prop {
        "P16" => {
            let der = match bsn1_serde::to_der(&v) {
                Ok(d) => d,
                Err(e) => return cx.ck(false, || format!("cannot serialize: {}", root(&e))),
            };
            cx.ck(bsn1_serde::from_der::<T>(&der).ok().as_ref() == Some(&v), || "from_der gives another value".into());
            let mut s: &[u8] = der.as_ref();
            cx.ck(bsn1_serde::parse_ber::<T>(&mut s).ok().as_ref() == Some(&v), || "parse_ber gives another value".into());
            cx.eq("left over", s.len(), 0);
            let mut r = Scripted::chunked(der.as_ref(), 4096, true);
            cx.ck(bsn1_serde::read_der::<_, T>(&mut r).ok().as_ref() == Some(&v), || "read_der gives another value".into());
        }
        "P17" => {
            let head = want.len();
            want.extend(&body);
            let mut written = Vec::new();
            let r = bsn1_serde::write_ber(&v, &mut written);
            cx.ck(r.is_ok(), || "write_ber fails".into());
            let der = bsn1_serde::to_der(&v).map(|d| d.into_vec()).unwrap_or_default();
            cx.ck(der == written, || "to_der and write_ber differ".into());
            cx.eq("size", der.len(), want.len());
            cx.eq("header", &der[..der.len().min(head)], &want[..head]);
            let fits = if unordered { canon(&der) == canon(&want) } else { der == want };
            cx.ck(fits, || "to_der gives other octets".into());
        }
        "P18" => {
            let (id, len) = (v.id_len().ok().flatten(), v.der_contents_len().ok().flatten());
            cx.ck(id.is_none_or(|n| n == 1), || format!("announced size of the identifier: {:?}", id));
            cx.ck(len.is_none_or(|n| n == body.len()), || format!("announced size of the contents: {:?}, want {}", len, body.len()));
        }
        "P19" => {
            want.extend(&body);
            let d = DerRef::parse(&mut &want[..]).and_then(|d| bsn1_serde::from_der::<T>(d));
            cx.ck(d.ok().as_ref() == Some(&v), || "from_der gives another value".into());
            let b = BerRef::parse(&mut &want[..]).and_then(|b| bsn1_serde::from_ber::<T>(b));
            cx.ck(b.ok().as_ref() == Some(&v), || "from_ber gives another value".into());
        }
        "P20" => {
            if want[0] & 0x20 == 0 {
                return;
            }
            let mut b = vec![want[0], 0x80];
            b.extend(&body);
            b.extend([0, 0]);
            let got = BerRef::parse(&mut &b[..]).and_then(|b| bsn1_serde::from_ber::<T>(b));
            cx.ck(got.ok().as_ref() == Some(&v), || "from_ber gives another value".into());
            let got = bsn1_serde::read_ber::<_, T>(&mut Scripted::chunked(&b, 4096, false));
            cx.ck(got.ok().as_ref() == Some(&v), || "read_ber gives another value".into());
        }
        p => panic!("harness: no large values for {}", p),
    }
}
