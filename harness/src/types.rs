//! Values of serializable types, made from and turned into what the specification writes.

use crate::json::Json;
use bsn1::{BerRef, ContentsRef, DerRef, Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::marker::PhantomData;

pub trait Model: Sized {
    fn make(j: &Json) -> Self;
    fn dump(&self) -> Json;
}

fn octets(b: &[u8]) -> Json {
    Json::Arr(b.iter().map(|&o| Json::Int(o.into())).collect())
}

impl Model for bool {
    fn make(j: &Json) -> Self {
        j.bool()
    }
    fn dump(&self) -> Json {
        Json::Bool(*self)
    }
}

/// The shortest two's complement octets of a number, given with enough octets to have a sign.
fn shortest(b: &[u8]) -> Json {
    let mut b = b;
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        b = &b[1..];
    }
    octets(b)
}

macro_rules! int_model {
    ($($t:ty: $sign:expr),*) => {$(
        impl Model for $t {
            fn make(j: &Json) -> Self {
                let b = j.bytes();
                let mut v: $t = if b[0] >= 0x80 && $sign { !0 } else { 0 };
                for o in b {
                    v = if std::mem::size_of::<$t>() == 1 { o as $t } else { v.wrapping_shl(8) | (o as $t) };
                }
                v
            }
            fn dump(&self) -> Json {
                let mut b = vec![if $sign && (*self as i128) < 0 { 0xff } else { 0 }];
                b.extend_from_slice(&self.to_be_bytes());
                shortest(&b)
            }
        }
    )*};
}
int_model!(i8: true, i16: true, i32: true, i64: true, i128: true, isize: true,
           u8: false, u16: false, u32: false, u64: false, u128: false, usize: false);

impl Model for String {
    fn make(j: &Json) -> Self {
        String::from_utf8(j.bytes()).expect("harness: not UTF-8")
    }
    fn dump(&self) -> Json {
        octets(self.as_bytes())
    }
}

impl Model for OctetString<'static> {
    fn make(j: &Json) -> Self {
        j.bytes().into()
    }
    fn dump(&self) -> Json {
        octets(AsRef::<[u8]>::as_ref(self))
    }
}

macro_rules! seq_model {
    ($($t:ident),*) => {$(
        impl<T: Model> Model for $t<T> {
            fn make(j: &Json) -> Self {
                j.arr().iter().map(T::make).collect()
            }
            fn dump(&self) -> Json {
                Json::Arr(self.iter().map(T::dump).collect())
            }
        }
    )*};
}
seq_model!(Vec, LinkedList);

impl<T: Model> Model for VecDeque<T> {
    /// The first half is put in from the front, so that the ring wraps around.
    fn make(j: &Json) -> Self {
        let a = j.arr();
        let (first, last) = a.split_at(a.len() / 2);
        let mut ret: Self = last.iter().map(T::make).collect();
        for j in first.iter().rev() {
            ret.push_front(T::make(j));
        }
        ret
    }
    fn dump(&self) -> Json {
        Json::Arr(self.iter().map(T::dump).collect())
    }
}

impl<T: Model + Ord> Model for BTreeSet<T> {
    fn make(j: &Json) -> Self {
        j.arr().iter().map(T::make).collect()
    }
    fn dump(&self) -> Json {
        Json::Arr(self.iter().map(T::dump).collect())
    }
}

impl<T: Model + Eq + Hash> Model for HashSet<T> {
    fn make(j: &Json) -> Self {
        j.arr().iter().map(T::make).collect()
    }
    fn dump(&self) -> Json {
        sorted(self.iter().map(T::dump).collect())
    }
}

fn sorted(mut v: Vec<Json>) -> Json {
    v.sort_by_cached_key(|j| format!("{:?}", j));
    Json::Arr(v)
}

fn pair<K: Model, V: Model>(j: &Json) -> (K, V) {
    let a = j.arr();
    (K::make(&a[0]), V::make(&a[1]))
}

impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn make(j: &Json) -> Self {
        j.arr().iter().map(pair).collect()
    }
    fn dump(&self) -> Json {
        Json::Arr(self.iter().map(|(k, v)| Json::Arr(vec![k.dump(), v.dump()])).collect())
    }
}

impl<K: Model + Eq + Hash, V: Model> Model for HashMap<K, V> {
    fn make(j: &Json) -> Self {
        j.arr().iter().map(pair).collect()
    }
    fn dump(&self) -> Json {
        sorted(self.iter().map(|(k, v)| Json::Arr(vec![k.dump(), v.dump()])).collect())
    }
}

/// A value that may hide the size of its identifier (1) or of its contents (2).
#[derive(Debug, Clone)]
pub struct Unk<T> {
    hide: u8,
    v: T,
}

impl<T: PartialEq> PartialEq for Unk<T> {
    fn eq(&self, other: &Self) -> bool {
        self.v == other.v
    }
}
impl<T: Eq> Eq for Unk<T> {}
impl<T: PartialOrd> PartialOrd for Unk<T> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.v.partial_cmp(&other.v)
    }
}
impl<T: Ord> Ord for Unk<T> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.v.cmp(&other.v)
    }
}
impl<T: Hash> Hash for Unk<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}

impl<T: Model> Model for Unk<T> {
    fn make(j: &Json) -> Self {
        let a = j.arr();
        Unk { hide: a[0].int() as u8, v: T::make(&a[1]) }
    }
    /// What is hidden is not part of the value.
    fn dump(&self) -> Json {
        self.v.dump()
    }
}

impl<T: Serialize> Serialize for Unk<T> {
    fn write_id<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        self.v.write_id(buffer)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        self.v.write_der_contents(buffer)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if self.hide & 1 == 1 {
            Ok(None)
        } else {
            self.v.id_len()
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if self.hide & 2 == 2 {
            Ok(None)
        } else {
            self.v.der_contents_len()
        }
    }
}

impl<T: Deserialize> Deserialize for Unk<T> {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        Ok(Unk { hide: 0, v: T::from_ber(id, length, contents)? })
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        Ok(Unk { hide: 0, v: T::from_der(id, contents)? })
    }
}

/// A conversion that failed.
#[derive(Debug)]
pub struct ConvError;

impl std::fmt::Display for ConvError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot be converted")
    }
}
impl std::error::Error for ConvError {}

/// The conversions of the specification, on the values it writes.
pub fn convert(how: &str, v: &Json) -> Result<Json, ConvError> {
    let not = |v: &Json| Json::Arr(v.arr().iter().map(|o| Json::Int(255 - o.int())).collect());
    let small = |v: &Json, n: usize| v.arr().len() <= n;
    let reversed = |v: &Json| Json::Arr(v.arr().iter().rev().cloned().collect());
    Ok(match how {
        "same" => v.clone(),
        "not" => not(v),
        "fit8" if small(v, 1) => v.clone(),
        "fit16" if small(v, 2) => v.clone(),
        "notfit8" if small(v, 1) => not(v),
        "num" => octets(&[v.bool() as u8]),
        "octets" => Json::Arr(v.arr().iter().map(|x| x.arr().last().unwrap().clone()).collect()),
        "numbers" => Json::Arr(v.arr().iter().map(|x| shortest(&[0, x.int() as u8])).collect()),
        "utf8" if std::str::from_utf8(&v.bytes()).is_ok() => v.clone(),
        "wrap" => Json::Arr(vec![v.clone()]),
        "unwrap" if v.arr().len() == 1 => v.arr()[0].clone(),
        "one" if v.arr().len() == 1 => v.clone(),
        "two" if v.arr().len() == 2 => v.clone(),
        "open" => v.arr()[0].clone(),
        "rev" => reversed(v),
        "flat" => {
            let mut a = vec![shortest(&[0, v.arr()[0].int() as u8])];
            a.extend_from_slice(v.arr()[1].arr());
            Json::Arr(a)
        }
        "unflat" if v.arr().len() == 2 && matches!(v.arr()[0].bytes()[..], [1] | [2]) => {
            let a = v.arr();
            Json::Arr(vec![a[0].arr()[0].clone(), Json::Arr(vec![a[1].clone()])])
        }
        _ => return Err(ConvError),
    })
}

/// What was announced, and what was then written.
pub struct Sizes {
    pub id_len: Option<usize>,
    pub contents_len: Option<usize>,
    pub id: Vec<u8>,
    pub contents: Vec<u8>,
}

/// The operations on one type, free of it.
pub trait Ops: Send + Sync {
    fn norm(&self, v: &Json) -> Json;
    fn to_der(&self, v: &Json) -> Result<Vec<u8>, Error>;
    fn to_ber(&self, v: &Json) -> Result<Vec<u8>, Error>;
    /// All ways to serialize one and the same value: to_der, to_ber, write_der, write_ber.
    fn all(&self, v: &Json) -> Result<[Vec<u8>; 4], Error>;
    fn write(&self, rule: &str, v: &Json, w: &mut dyn Write) -> Result<(), Error>;
    fn sizes(&self, v: &Json) -> Result<Sizes, Error>;
    fn from(&self, rule: &str, el: &[u8]) -> Result<Json, Error>;
    fn parse(&self, rule: &str, s: &mut &[u8]) -> Result<Json, Error>;
    fn read(&self, rule: &str, r: &mut dyn Read) -> Result<Json, Error>;
}

struct Of<T>(PhantomData<fn() -> T>);

impl<T: Model + Serialize + Deserialize> Ops for Of<T> {
    fn norm(&self, v: &Json) -> Json {
        T::make(v).dump()
    }
    fn to_der(&self, v: &Json) -> Result<Vec<u8>, Error> {
        bsn1_serde::to_der(&T::make(v)).map(|d| d.into_vec())
    }
    fn to_ber(&self, v: &Json) -> Result<Vec<u8>, Error> {
        bsn1_serde::to_ber(&T::make(v)).map(|d| d.into_vec())
    }
    fn all(&self, v: &Json) -> Result<[Vec<u8>; 4], Error> {
        let v = T::make(v);
        let (mut a, mut b) = (Vec::new(), Vec::new());
        bsn1_serde::write_der(&v, &mut a as &mut dyn Write)?;
        bsn1_serde::write_ber(&v, &mut b as &mut dyn Write)?;
        Ok([bsn1_serde::to_der(&v)?.into_vec(), bsn1_serde::to_ber(&v)?.into_vec(), a, b])
    }
    fn write(&self, rule: &str, v: &Json, w: &mut dyn Write) -> Result<(), Error> {
        let v = T::make(v);
        if rule == "ber" {
            bsn1_serde::write_ber(&v, w)
        } else {
            bsn1_serde::write_der(&v, w)
        }
    }
    fn sizes(&self, v: &Json) -> Result<Sizes, Error> {
        let v = T::make(v);
        let (mut id, mut contents) = (Vec::new(), Vec::new());
        v.write_id(&mut id as &mut dyn Write)?;
        v.write_der_contents(&mut contents as &mut dyn Write)?;
        Ok(Sizes { id_len: v.id_len()?, contents_len: v.der_contents_len()?, id, contents })
    }
    fn from(&self, rule: &str, el: &[u8]) -> Result<Json, Error> {
        if rule == "ber" {
            let e = BerRef::parse(&mut &el[..])?;
            bsn1_serde::from_ber::<T>(e).map(|v| v.dump())
        } else {
            let e = DerRef::parse(&mut &el[..])?;
            bsn1_serde::from_der::<T>(e).map(|v| v.dump())
        }
    }
    fn parse(&self, rule: &str, s: &mut &[u8]) -> Result<Json, Error> {
        if rule == "ber" {
            bsn1_serde::parse_ber::<T>(s).map(|v| v.dump())
        } else {
            bsn1_serde::parse_der::<T>(s).map(|v| v.dump())
        }
    }
    fn read(&self, rule: &str, r: &mut dyn Read) -> Result<Json, Error> {
        if rule == "ber" {
            bsn1_serde::read_ber::<_, T>(r).map(|v| v.dump())
        } else {
            bsn1_serde::read_der::<_, T>(r).map(|v| v.dump())
        }
    }
}

pub fn ops<T: Model + Serialize + Deserialize + 'static>() -> Box<dyn Ops> {
    Box::new(Of::<T>(PhantomData))
}

pub type Registry = HashMap<String, Box<dyn Ops>>;

/// The types that are spelled out in the specification, by the names they have there.
macro_rules! registry {
    ($($t:ty),* $(,)?) => {{
        let mut r: Registry = HashMap::new();
        $( r.insert(<$t as Named>::name(), ops::<$t>()); )*
        r
    }};
}

trait Named {
    fn name() -> String;
}
macro_rules! named {
    ($($t:ty: $n:expr),*) => { $( impl Named for $t { fn name() -> String { $n.to_string() } } )* };
}
named!(bool: "bool", String: "str", OctetString<'static>: "oct", i8: "i8", u8: "u8", i16: "i16", u16: "u16", i32: "i32", u32: "u32",
       i64: "i64", u64: "u64", i128: "i128", u128: "u128", isize: "isize", usize: "usize");
macro_rules! named1 {
    ($($t:ident: $n:expr),*) => { $( impl<T: Named> Named for $t<T> { fn name() -> String { format!("{}({})", $n, T::name()) } } )* };
}
named1!(Vec: "vec", VecDeque: "deque", LinkedList: "linked", BTreeSet: "bset", HashSet: "hset", Unk: "unk");
impl<K: Named, V: Named> Named for BTreeMap<K, V> {
    fn name() -> String {
        format!("bmap({},{})", K::name(), V::name())
    }
}
impl<K: Named, V: Named> Named for HashMap<K, V> {
    fn name() -> String {
        format!("hmap({},{})", K::name(), V::name())
    }
}

type Oct = OctetString<'static>;
type Set<T> = BTreeSet<T>;
type Map<K, V> = BTreeMap<K, V>;
type List<T> = LinkedList<T>;
type Deque<T> = VecDeque<T>;

pub fn library() -> Registry {
    registry![
        bool, String, Oct, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize,
        Vec<bool>, Vec<String>, Vec<Oct>, Vec<i8>, Vec<u8>, Vec<i16>, Vec<u16>, Vec<i32>, Vec<u32>, Vec<i64>, Vec<u64>, Vec<i128>,
        Vec<u128>, Vec<isize>, Vec<usize>,
        Deque<i8>, Deque<String>, Deque<Oct>, List<i8>, List<bool>, List<Oct>, List<String>,
        Set<i8>, Set<i16>, Set<u64>, Set<i128>, Set<String>, Set<Oct>, Set<bool>, Set<Vec<i8>>, Set<Set<i8>>,
        HashSet<i8>, HashSet<u16>, HashSet<String>, HashSet<Oct>,
        Map<i8, bool>, Map<i8, i8>, Map<String, i16>, Map<u64, Oct>, Map<Oct, String>, Map<Vec<i8>, bool>, Map<Vec<i8>, i8>, Map<i8, String>,
        Map<String, bool>,
        HashMap<i8, bool>, HashMap<i8, i8>, HashMap<String, u32>, HashMap<bool, i128>, HashMap<Oct, Oct>, HashMap<String, Oct>,
        HashMap<i8, String>, HashMap<String, bool>,
        Vec<Vec<i8>>, Vec<Vec<String>>, Vec<Vec<bool>>, Deque<List<bool>>, Vec<Set<u8>>, Vec<Set<i8>>, Vec<Set<String>>, Vec<HashSet<i8>>,
        Vec<Map<i8, bool>>, Vec<Map<i8, i8>>, Vec<HashMap<i8, bool>>, Vec<HashMap<bool, String>>,
        Map<i8, Vec<i8>>, Map<i8, Set<i8>>, Map<i8, Map<i8, bool>>, HashMap<i8, HashSet<i8>>, HashMap<i8, Vec<String>>,
        HashMap<i8, Map<i8, bool>>, Map<Set<i8>, String>, List<Vec<bool>>, Vec<Vec<Vec<bool>>>,
        Unk<bool>, Unk<i8>, Unk<i16>, Unk<String>, Unk<Oct>, Unk<Vec<i8>>, Unk<Map<i8, bool>>, Unk<HashMap<i8, bool>>, Unk<Vec<Unk<bool>>>,
        Vec<Unk<i8>>, Vec<Unk<String>>, Vec<Vec<Unk<i8>>>, Vec<Unk<Vec<Unk<bool>>>>, Deque<Unk<i8>>, List<Unk<i8>>, Set<Unk<i8>>,
        HashSet<Unk<i8>>, Map<Unk<i8>, bool>, Map<i8, Unk<bool>>, Map<Unk<i8>, Unk<bool>>, HashMap<Unk<i8>, bool>, HashMap<i8, Unk<bool>>,
        HashMap<Unk<i8>, Unk<bool>>, Vec<Map<Unk<i8>, bool>>, Vec<HashMap<i8, Unk<bool>>>, Map<i8, Vec<Unk<bool>>>,
        Map<i8, Unk<String>>, HashMap<i8, Unk<String>>, Map<Unk<String>, bool>, HashMap<Unk<String>, bool>,
    ]
}
