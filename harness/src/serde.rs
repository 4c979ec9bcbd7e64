//! Replays of the modules Serde, Elements, SerdeStream and Writer, for any type.

use crate::json::Json;
use crate::types::{Ops, Registry};
use crate::util::{root, Cx, Scripted, SUFFIXES};
use bsn1::{DerRef, Error};
use std::io::{ErrorKind, Write};

fn ops<'a>(reg: &'a Registry, name: &str) -> &'a dyn Ops {
    &**reg.get(name).unwrap_or_else(|| panic!("harness: no type {}", name))
}

pub fn check(reg: &Registry, prop: &str, c: &Json, cx: &mut Cx) {
    match c.get("k").str() {
        "ser" => ser(ops(reg, c.get("ty").str()), prop, c, cx),
        "wr" => writer(ops(reg, c.get("ty").str()), c, cx),
        "de" => elements(reg, prop, c, cx),
        "flt" => {
            let o = ops(reg, c.get("ty").str());
            blamed(o, c.get("r").str(), &c.get("in").bytes(), c.get("at"), cx)
        }
        "tst" => stream(reg, c, cx),
        "prog" => program(reg, prop, c, cx),
        k => panic!("harness: unknown case {}", k),
    }
}

/// The octets with the members of every SET in ascending order.
pub fn canon(b: &[u8]) -> Vec<u8> {
    fn header(b: &[u8]) -> Option<(usize, usize)> {
        // Definite lengths only.
        let mut i = 1;
        if *b.first()? & 0x1f == 0x1f {
            while *b.get(i)? & 0x80 != 0 {
                i += 1;
            }
            i += 1;
        }
        let l = *b.get(i)? as usize;
        i += 1;
        if l < 0x80 {
            return Some((i, l));
        }
        let n = l - 0x80;
        let v = b.get(i..i + n)?.iter().fold(0usize, |a, &o| (a << 8) | o as usize);
        Some((i + n, v))
    }
    let (h, n) = match header(b) {
        Some((h, n)) if b[0] & 0x20 == 0x20 && h + n == b.len() => (h, n),
        _ => return b.to_vec(),
    };
    let mut rest = &b[h..h + n];
    let mut parts = Vec::new();
    while !rest.is_empty() {
        let m = match header(rest) {
            Some((h, n)) if h + n <= rest.len() => h + n,
            _ => return b.to_vec(),
        };
        parts.push(canon(&rest[..m]));
        rest = &rest[m..];
    }
    if b[0] == 0x31 {
        parts.sort();
    }
    let mut out = b[..h].to_vec();
    out.extend(parts.concat());
    out
}

fn show(r: &Result<Json, Error>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("error {}", root(e)),
    }
}

fn same(cx: &mut Cx, what: &str, got: &Result<Json, Error>, want: &Json) {
    cx.ck(got.as_ref().ok() == Some(want), || format!("{}: got {}, want {:?}", what, show(got), want));
}

/// Every entry point by which an element can be deserialized.
fn every_way(o: &dyn Ops, rule: &str, el: &[u8]) -> Vec<(&'static str, Result<Json, Error>)> {
    vec![
        ("from", o.from(rule, el)),
        ("parse", o.parse(rule, &mut &el[..])),
        ("read", o.read(rule, &mut Scripted::chunked(el, 1, false))),
    ]
}

fn ser(o: &dyn Ops, prop: &str, c: &Json, cx: &mut Cx) {
    let v = c.get("v");
    let out = c.get("out").bytes();
    let fix = |b: &[u8]| if c.get("un").bool() { canon(b) } else { b.to_vec() };
    match prop {
        "P16" => round_trip(o, v, cx),
        _ => {}
    }
    match prop {
        "P17" | "P26" | "P27" | "P28" => {
            let all = match o.all(v) {
                Ok(a) => a,
                Err(e) => return cx.ck(false, || format!("cannot serialize: {}", root(&e))),
            };
            for (what, b) in ["to_der", "to_ber", "write_der", "write_ber"].iter().zip(&all) {
                cx.eq(what, fix(b), out.clone());
                cx.eq(what, b, &all[0]);
            }
        }
        _ => {}
    }
    match prop {
        "P18" | "P28" => {
            let s = match o.sizes(v) {
                Ok(s) => s,
                Err(e) => return cx.ck(false, || format!("cannot serialize: {}", root(&e))),
            };
            if let Some(n) = s.id_len {
                cx.eq("announced size of the identifier", n, s.id.len());
            }
            if let Some(n) = s.contents_len {
                cx.eq("announced size of the contents", n, s.contents.len());
            }
            for rule in ["der", "ber"] {
                let mut w = Vec::new();
                let r = o.write(rule, v, &mut w);
                cx.ck(r.is_ok(), || "cannot write".to_string());
                cx.eq("written", fix(&w), out.clone());
            }
            for r in [o.to_der(v), o.to_ber(v)] {
                match r {
                    Ok(b) => cx.eq("built", fix(&b), out.clone()),
                    Err(e) => cx.ck(false, || format!("cannot serialize: {}", root(&e))),
                }
            }
        }
        _ => {}
    }
    let forms = c.get("forms");
    if matches!(prop, "P20" | "P21") && *forms != Json::Null {
        let want = o.norm(c.get("w").or(v));
        for f in forms.arr() {
            let f = f.bytes();
            if prop != "P21" {
                for (what, r) in every_way(o, "ber", &f) {
                    same(cx, &format!("{}_ber of {:?}", what, f), &r, &want);
                }
            } else {
                let definite = f.len() == out.len();
                for (what, r) in [("parse", o.parse("der", &mut &f[..])), ("read", o.read("der", &mut &f[..]))] {
                    if definite {
                        same(cx, &format!("{}_der of {:?}", what, f), &r, &want);
                    } else {
                        cx.ck(r.is_err(), || format!("{}_der of {:?}: got {}, want an error", what, f, show(&r)));
                    }
                }
                let r = o.parse("ber", &mut &f[..]);
                same(cx, &format!("parse_ber of {:?}", f), &r, &want);
            }
        }
    }
}

fn round_trip(o: &dyn Ops, v: &Json, cx: &mut Cx) {
    let want = o.norm(v);
    let all = match o.all(v) {
        Ok(a) => a,
        Err(e) => return cx.ck(false, || format!("cannot serialize: {}", root(&e))),
    };
    for b in &all {
        let mut s = &b[..];
        cx.ck(DerRef::parse(&mut s).is_ok() && s.is_empty(), || format!("not exactly one element: {:?}", b));
        if !s.is_empty() {
            return;
        }
        for rule in ["ber", "der"] {
            for (what, r) in every_way(o, rule, b) {
                same(cx, &format!("{}_{}", what, rule), &r, &want);
            }
        }
    }
    // Nothing that follows is touched.
    for suffix in SUFFIXES {
        let mut b = all[0].clone();
        b.extend_from_slice(suffix);
        for rule in ["ber", "der"] {
            let mut s = &b[..];
            same(cx, "parse", &o.parse(rule, &mut s), &want);
            cx.eq("left over", s, suffix);
            let mut rd = Scripted::chunked(&b, 3, true);
            same(cx, "read", &o.read(rule, &mut rd), &want);
            cx.eq("taken from the reader", rd.pos, all[0].len());
        }
    }
}

/* -------------------------------- writers -------------------------------- */

struct Script<'a> {
    ev: Vec<&'a str>,
    how: &'a str,
    interrupts: u8,
    got: Vec<u8>,
}

impl Script<'_> {
    fn arm(&mut self) {
        self.interrupts = match self.ev.get(self.got.len()) {
            Some(&"int") => 1,
            Some(&"int2") => 2,
            _ => 0,
        };
    }
}

impl Write for Script<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.got.len() >= self.ev.len() {
            match self.how {
                "fail" => return Err(std::io::Error::new(ErrorKind::Other, "scripted failure")),
                "zero" => return Ok(0),
                // Nothing more was expected; it is taken and noticed.
                _ => {}
            }
        }
        let mut n = 0;
        for &o in buf {
            let at = self.got.len();
            if at >= self.ev.len() && self.how != "ok" {
                break;
            }
            if n > 0 && !matches!(self.ev.get(at), Some(&"join") | None) {
                break;
            }
            self.got.push(o);
            n += 1;
        }
        self.arm();
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn writer(o: &dyn Ops, c: &Json, cx: &mut Cx) {
    let out = c.get("out").bytes();
    let how = c.get("how").str();
    for rule in ["der", "ber"] {
        let ev: Vec<&str> = c.get("ev").arr().iter().map(|e| e.str()).collect();
        let n = ev.len();
        let mut w = Script { ev, how, interrupts: 0, got: Vec::new() };
        w.arm();
        let r = o.write(rule, c.get("v"), &mut w);
        cx.eq("success", r.is_ok(), how == "ok");
        if let Err(e) = r {
            cx.eq("kind of the error", root(&e), "Io");
        }
        cx.eq("accepted octets", &w.got[..], &out[..n]);
    }
}

/* -------------------------------- elements ------------------------------- */

/// Whether the error of a conversion can still be reached.
fn keeps_cause(e: &Error) -> bool {
    e.as_anyhow().is_some_and(|a| {
        a.chain().any(|c| {
            c.is::<crate::types::ConvError>() || c.is::<std::num::TryFromIntError>() || c.is::<std::string::FromUtf8Error>()
        })
    })
}

/// Compares an outcome with {v: value} or {e: [kinds]}.
fn outcome(cx: &mut Cx, o: &dyn Ops, what: &str, got: &Result<Json, Error>, want: &Json, kinds: bool) {
    let v = want.get("v");
    if *v != Json::Null {
        same(cx, what, got, &o.norm(v));
    } else {
        match got {
            Ok(_) => cx.ck(false, || format!("{}: got {}, want an error of {:?}", what, show(got), want.get("e"))),
            Err(e) => {
                let k = root(e);
                cx.checks += 1;
                let kinds_ = want.get("e").arr();
                if kinds && kinds_.len() == 1 && kinds_[0].str() == "Anyhow" {
                    cx.ck(keeps_cause(e), || format!("{}: the cause of {:?} is lost", what, e));
                }
                if kinds {
                    cx.ck(want.get("e").arr().iter().any(|j| j.str() == k), || {
                        format!("{}: got error {}, want one of {:?}", what, k, want.get("e"))
                    });
                }
            }
        }
    }
}

fn is_table(name: &str) -> bool {
    ["bmap", "hmap", "bset", "hset"].iter().any(|p| name.contains(p))
}

fn elements(reg: &Registry, prop: &str, c: &Json, cx: &mut Cx) {
    let el = c.get("in").bytes();
    let is_der = c.get("der").str() == "ok";
    let default = Json::Obj(vec![("e".to_string(), c.get("o").clone())]);
    for row in c.get("rows").arr() {
        element(reg, prop, row.get("t").str(), &el, row.get("b"), is_der.then(|| row.get("d")), cx);
    }
    for t in c.get("x").arr() {
        element(reg, prop, t.str(), &el, &default, is_der.then_some(&default), cx);
    }
}

fn element(reg: &Registry, prop: &str, t: &str, el: &[u8], ber: &Json, der: Option<&Json>, cx: &mut Cx) {
    let o = ops(reg, t);
    if prop == "P24" && !is_table(t) {
        return;
    }
    if prop == "P09" {
        let _ = (o.parse("ber", &mut &el[..]), o.parse("der", &mut &el[..]));
        let _ = (o.read("ber", &mut &el[..]), o.read("der", &mut &el[..]));
        cx.checks += 1;
        return;
    }
    let kinds = !matches!(prop, "P21" | "P24");
    for (what, r) in every_way(o, "ber", el) {
        outcome(cx, o, &format!("{}_ber into {}", what, t), &r, ber, kinds);
    }
    if let Some(d) = der {
        for (what, r) in every_way(o, "der", el) {
            outcome(cx, o, &format!("{}_der into {}", what, t), &r, d, kinds);
        }
    }
    if prop == "P21" {
        let d = o.parse("der", &mut &el[..]);
        if der.is_none() {
            cx.ck(d.is_err(), || format!("parse_der into {}: got {}, want an error", t, show(&d)));
        }
        if let Ok(v) = &d {
            same(cx, &format!("parse_ber into {}", t), &o.parse("ber", &mut &el[..]), v);
        }
    }
}

/// Whether the messages of an error, the outermost first, lead along the way.
fn leads(said: &[String], way: &[Json]) -> bool {
    let mut left = way;
    for s in said {
        let mut words = s.split(|c: char| !c.is_alphanumeric() && c != '_');
        if left.first().is_some_and(|step| words.any(|w| w == step.str())) {
            left = &left[1..];
        }
    }
    left.is_empty()
}

/// The error says where the fault is.
fn blamed(o: &dyn Ops, rule: &str, el: &[u8], at: &Json, cx: &mut Cx) {
    if at.arr().is_empty() {
        return;
    }
    for (what, r) in every_way(o, rule, el) {
        // Failing at all is not the question here.
        if let Err(e) = r {
            let e = e.into_anyhow();
            let said: Vec<String> = e.chain().map(|c| c.to_string()).collect();
            cx.ck(at.arr().iter().any(|way| leads(&said, way.arr())), || {
                format!("{}_{} of {:?}: {:?} does not lead to {:?}", what, rule, el, said, at)
            });
        }
    }
}

/// Deserializers must return, whatever they are given.
pub fn hostile(reg: &Registry, input: &[u8], cx: &mut Cx) {
    const TYPES: [&str; 13] = [
        "bool", "i8", "u128", "str", "oct", "vec(i8)", "vec(vec(bool))", "deque(str)", "linked(i8)", "bset(i8)", "hset(oct)", "bmap(i8,bool)",
        "hmap(str,oct)",
    ];
    for t in TYPES {
        let o = ops(reg, t);
        for rule in ["ber", "der"] {
            let _ = (o.parse(rule, &mut &input[..]), o.read(rule, &mut &input[..]));
        }
    }
    cx.checks += 1;
}

/* -------------------------------- programs ------------------------------- */

/// A derived type: its values, and elements offered to it.
fn program(reg: &Registry, prop: &str, c: &Json, cx: &mut Cx) {
    let t = c.get("ty").str();
    let o = ops(reg, t);
    if prop == "P25" {
        return tagged(o, c, cx);
    }
    if prop == "P31" {
        for r in c.get("ins").arr() {
            let el = r.get("in").bytes();
            for (rule, at) in [("ber", r.get("b").get("at")), ("der", r.get("d").get("at"))] {
                if *at != Json::Null {
                    blamed(o, rule, &el, at, cx);
                }
            }
        }
        return;
    }
    for e in c.get("vals").arr() {
        let mut fields = vec![("v".to_string(), e.get("v").clone()), ("out".to_string(), e.get("out").clone())];
        fields.push(("un".to_string(), c.get("un").clone()));
        let e = Json::Obj(fields);
        match prop {
            "P17" | "P18" | "P26" | "P27" | "P28" => ser(o, prop, &e, cx),
            _ => {}
        }
        let live = c.get("live").get("ser");
        if prop == "P28" && *live != Json::Null {
            let a = live.arr();
            let l = ops(reg, a[1].str());
            if let (Ok(x), Ok(y)) = (o.sizes(e.get("v")), l.sizes(&e.get("v").arr()[a[0].us()])) {
                cx.eq("announced size of the identifier", x.id_len, y.id_len);
                cx.eq("announced size of the contents", x.contents_len, y.contents_len);
            }
        }
    }
    for r in c.get("ins").arr() {
        let el = r.get("in").bytes();
        let is_der = r.get("der").str() == "ok";
        if prop == "P20" {
            // Only what an indefinite length says otherwise.
            if !is_der && *r.get("b").get("v") != Json::Null {
                let want = o.norm(r.get("b").get("v"));
                for (what, g) in every_way(o, "ber", &el) {
                    same(cx, &format!("{}_ber of {:?}", what, el), &g, &want);
                }
            }
            continue;
        }
        if matches!(prop, "P17" | "P18") {
            continue;
        }
        element(reg, prop, t, &el, r.get("b"), is_der.then(|| r.get("d")), cx);
        let live = c.get("live").get("de");
        if prop == "P28" && *live != Json::Null {
            let a = live.arr();
            let l = ops(reg, a[1].str());
            for rule in ["ber", "der"] {
                let (x, y) = (o.parse(rule, &mut &el[..]), l.parse(rule, &mut &el[..]));
                let x = x.map(|j| j.arr()[a[0].us()].clone());
                cx.eq("as the field", show(&x), show(&y));
            }
        }
    }
}

/// Whether the identifier is the right one, and read as such.
fn tagged(o: &dyn Ops, c: &Json, cx: &mut Cx) {
    for e in c.get("vals").arr() {
        let out = e.get("out").bytes();
        let n = header_id(&out);
        match (o.all(e.get("v")), o.sizes(e.get("v"))) {
            (Ok(all), Ok(s)) => {
                for (what, b) in ["to_der", "to_ber", "write_der", "write_ber"].iter().zip(&all) {
                    cx.eq(what, &b[..header_id(b)], &out[..n]);
                }
                cx.eq("identifier", &s.id[..], &out[..n]);
            }
            (Err(e), _) | (_, Err(e)) => cx.ck(false, || format!("cannot serialize: {}", root(&e))),
        }
    }
    let choice = c.get("d").get("t").str() == "enum";
    for r in c.get("ins").arr() {
        let el = r.get("in").bytes();
        for (rule, want) in [("ber", r.get("b")), ("der", r.get("d"))] {
            if rule == "der" && r.get("der").str() != "ok" {
                continue;
            }
            for (what, g) in every_way(o, rule, &el) {
                let v = want.get("v");
                if *v != Json::Null {
                    let ok = match &g {
                        Ok(g) => !choice || g.arr()[0] == v.arr()[0],
                        Err(_) => false,
                    };
                    cx.ck(ok, || format!("{}_{} of {:?}: got {}, want {:?}", what, rule, el, show(&g), v));
                } else if want.get("e").arr().len() == 1 && want.get("e").arr()[0].str() == "UnmatchedId" {
                    let ok = matches!(&g, Err(e) if root(e) == "UnmatchedId");
                    cx.ck(ok, || format!("{}_{} of {:?}: got {}, want UnmatchedId", what, rule, el, show(&g)));
                }
            }
        }
    }
}

/// How many octets the identifier at the front has.
fn header_id(b: &[u8]) -> usize {
    if b.first().is_none_or(|&o| o & 0x1f != 0x1f) {
        return b.len().min(1);
    }
    b.iter().skip(1).position(|&o| o & 0x80 == 0).map_or(b.len(), |i| i + 2)
}

/* --------------------------------- streams ------------------------------- */

fn stream(reg: &Registry, c: &Json, cx: &mut Cx) {
    let buf = c.get("in").bytes();
    let ops_ = c.get("ops").arr();
    let mut s = &buf[..];
    for (i, op) in ops_.iter().enumerate() {
        let o = ops(reg, op.get("t").str());
        let r = o.parse(op.get("r").str(), &mut s);
        outcome(cx, o, &format!("slice, step {}", i), &r, op.get("o"), false);
        cx.eq("cursor", buf.len() - s.len(), op.get("p").us());
    }
    // A reader is of no further use once something was no element.
    for (chunk, interrupt) in [(1, true), (3, false), (usize::MAX, false)] {
        let mut rd = Scripted::chunked(&buf, chunk, interrupt);
        for (i, op) in ops_.iter().enumerate() {
            let o = ops(reg, op.get("t").str());
            let r = o.read(op.get("r").str(), &mut rd);
            outcome(cx, o, &format!("reader, step {}", i), &r, op.get("o"), false);
            if !op.get("f").bool() {
                break;
            }
            cx.eq("octets read", rd.pos, op.get("p").us());
        }
    }
}
