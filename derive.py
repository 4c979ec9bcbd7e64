"""Turns the programs of the specification (module Derive) into Rust.

Every emitted draft of a program is one type, derived with the macros of /repo.
The types are spread over several binaries, each of which replays the cases of
its own types with the harness.
"""

import json
import os

CONVERT_ALWAYS = {"same", "not", "rev", "wrap", "open", "num", "octets", "numbers", "flat"}
PLAIN = {"bool": "bool", "str": "String", "oct": "Oct"}
TABLES = {"vec": "Vec", "deque": "VecDeque", "linked": "LinkedList", "bset": "BTreeSet", "hset": "HashSet"}

PRELUDE = """#![allow(warnings)]
use bsn1_serde::{de::Deserialize, ser::Serialize, OctetString};
use bsnh::json::Json;
use bsnh::types::{convert, ops, ConvError, Model, Ops, Unk};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
type Oct = OctetString<'static>;
fn js(s: &str) -> Json {
    Json::parse(s)
}
fn turn<A: Model, B: Model>(how: &str, a: &A) -> Result<B, ConvError> {
    convert(how, &a.dump()).map(|j| B::make(&j))
}
macro_rules! newtype {
    ($n:ident, $t:ty) => {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct $n($t);
        impl Model for $n {
            fn make(j: &Json) -> Self {
                $n(<$t as Model>::make(j))
            }
            fn dump(&self) -> Json {
                self.0.dump()
            }
        }
        impl Serialize for $n {
            fn write_id<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), bsn1::Error> {
                self.0.write_id(w)
            }
            fn write_der_contents<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), bsn1::Error> {
                self.0.write_der_contents(w)
            }
            fn id_len(&self) -> Result<Option<usize>, bsn1::Error> {
                self.0.id_len()
            }
            fn der_contents_len(&self) -> Result<Option<usize>, bsn1::Error> {
                self.0.der_contents_len()
            }
        }
        impl Deserialize for $n {
            unsafe fn from_ber(id: &bsn1::IdRef, l: bsn1::Length, c: &bsn1::ContentsRef) -> Result<Self, bsn1::Error> {
                <$t as Deserialize>::from_ber(id, l, c).map($n)
            }
            fn from_der(id: &bsn1::IdRef, c: &bsn1::ContentsRef) -> Result<Self, bsn1::Error> {
                <$t as Deserialize>::from_der(id, c).map($n)
            }
        }
    };
}
"""


def number(bits):
    n = 0
    for b in bits:
        n = 2 * n + b
    return n


def literal(n, lit):
    if lit == "dec":
        return str(n)
    return lit + format(n, {"x": "x", "X": "X", "o": "o", "O": "o", "b": "b", "B": "b"}[lit[1]])


def local(t):
    return t["t"] in ("struct", "enum", "trans", "conv", "new")


class Unit:
    """One source file."""

    def __init__(self):
        self.out = []
        self.names = {}
        self.registered = {}

    def ident(self, t):
        key = json.dumps(t, sort_keys=True)
        if key not in self.names:
            self.names[key] = "D%d" % len(self.names)
            self.define(self.names[key], t)
        return self.names[key] + self.arguments(t)

    def rust(self, t):
        k = t["t"]
        if k in PLAIN:
            return PLAIN[k]
        if k == "int":
            return t["n"]
        if k in ("list", "set"):
            return "%s<%s>" % (TABLES[t["c"]], self.rust(t["e"]))
        if k == "map":
            return "%s<%s, %s>" % ("BTreeMap" if t["c"] == "bmap" else "HashMap", self.rust(t["k"]), self.rust(t["v"]))
        if k == "unk":
            return "Unk<%s>" % self.rust(t["e"])
        return self.ident(t)

    # ------------------------------------------------------------- generics
    @staticmethod
    def all_fields(t):
        return [f for v in t["vs"] for f in v["fs"]] if t["t"] == "enum" else t["fs"]

    def param(self, t):
        """The type that the generic type's argument stands for."""
        if t["t"] == "conv" or t.get("gen") not in ("type", "where"):
            return None
        for f in self.all_fields(t):
            if not f["sk"] and not f["out"] and not f["in"] and f["ty"]["t"] != "new":
                return f["ty"]

    def arguments(self, t):
        g = t.get("gen", "")
        return {"": "", "const": "<7>", "life": "<'static>"}[g] if g not in ("type", "where") else "<%s>" % self.rust(self.param(t))

    # ----------------------------------------------------------- attributes
    @staticmethod
    def id_args(a):
        args = []
        if a["id"]:
            args.append("id = " + a["id"])
        if a["cls"]:
            args.append("tag_class = " + a["cls"])
        if a["pc"]:
            args.append("tag_pc = " + a["pc"])
        if a["num"]:
            args.append("tag_num = " + literal(number(a["num"][0]), a["lit"]))
        return args[::-1] if a["ord"] else args

    @staticmethod
    def attribute(args):
        return "#[bsn1_serde(%s)] " % ", ".join(args) if args else ""

    def conversions(self, name, src, out, inn):
        """The arguments for conversions, whose functions and impls are written out."""
        args = []
        if out:
            ty, how, kind = out
            rt = self.rust(ty)
            if kind == "to":
                fn = "to_%s" % name.lower()
                self.out.append("pub mod %s { use super::*; pub fn f(x: &%s) -> %s { turn(\"%s\", x).unwrap() } }" % (fn, src, rt, how))
                args.append('to = "%s::f"' % fn)
            else:
                if name == src:
                    self.out.append("impl From<%s> for %s { fn from(x: %s) -> Self { turn(\"%s\", &x).unwrap() } }" % (src, rt, src, how))
                args.append('into = "%s"' % rt)
        if inn:
            ty, how, kind = inn
            rt = self.rust(ty)
            if name == src:
                if kind == "from" or how in CONVERT_ALWAYS:
                    self.out.append("impl From<%s> for %s { fn from(x: %s) -> Self { turn(\"%s\", &x).unwrap() } }" % (rt, src, rt, how))
                else:
                    self.out.append("impl TryFrom<%s> for %s { type Error = ConvError; fn try_from(x: %s) -> Result<Self, ConvError> { turn(\"%s\", &x) } }"
                                    % (rt, src, rt, how))
            args.append('%s = "%s"' % (kind, rt))
        return args

    # ---------------------------------------------------------- definitions
    def field(self, name, i, f, param, life):
        fname = "%sN%s" % (name, i)
        t = f["ty"]
        if t["t"] == "new":
            self.out.append("newtype!(%s, %s);" % (fname, self.rust(t["e"])))
            ty = fname
            args = self.conversions(fname, fname, f["out"], f["in"])
        else:
            ty = self.rust(t)
            args = self.conversions(fname, ty, f["out"], f["in"])
        if param is not None and t == param and not f["sk"] and not args:
            ty = "X"
        if life and t["t"] == "oct":
            ty = "OctetString<'a>"
        args += {"": [], "skip": ["skip"], "ser": ["skip_serializing"], "de": ["skip_deserializing"],
                 "both": ["skip_serializing", "skip_deserializing"]}[f["sk"]]
        if f["dp"]:
            fn = "dflt_%s" % fname.lower()
            self.out.append("pub mod %s { use super::*; pub fn f() -> %s { Model::make(&js(\"%s\")) } }"
                            % (fn, self.rust(t) if t["t"] != "new" else fname, json.dumps(f["dv"])))
            args.append('default = "%s::f"' % fn)
        return self.attribute(args), ty

    def body(self, name, form, fs, param, life, prefix="", vis="pub "):
        parts = [self.field(name, prefix + str(i), f, param, life) for i, f in enumerate(fs)]
        if form == "unit":
            return ""
        if form == "tuple":
            return "(%s)" % ", ".join("%s%s%s" % (a, vis, ty) for a, ty in parts)
        return " { %s }" % ", ".join("%s%sf%d: %s" % (a, vis, i, ty) for i, (a, ty) in enumerate(parts))

    @staticmethod
    def build(path, form, n, arr):
        if form == "unit":
            return path
        vals = ["Model::make(&%s[%d])" % (arr, i) for i in range(n)]
        if form == "tuple":
            return "%s(%s)" % (path, ", ".join(vals))
        return "%s { %s }" % (path, ", ".join("f%d: %s" % (i, v) for i, v in enumerate(vals)))

    def define(self, name, t):
        whole, args = t, []
        if t["t"] == "conv":
            t = t["e"]
        gen = t.get("gen", "")
        param = self.param(t)
        life = gen == "life"
        bounds = "Serialize + Deserialize"
        params = {"": "", "type": "<X: %s>" % bounds, "where": "<X>", "const": "<const N: usize>", "life": "<'a>"}[gen]
        where = " where X: %s" % bounds if gen == "where" else ""
        if whole is not t:
            args = self.conversions(name, name, whole["out"], whole["in"])
        if t["t"] == "enum":
            vs = []
            for j, v in enumerate(t["vs"]):
                b = self.body(name, v["form"], v["fs"], param, life, prefix="%d_" % j, vis="")
                vs.append("%sV%d%s" % (self.attribute(self.id_args(v["a"])), j + 1, b))
            text = "pub enum %s%s%s { %s }" % (name, params, where, ", ".join(vs))
        else:
            if t["t"] == "trans":
                args = ["transparent"]
            elif whole is t:
                args = self.id_args(t["a"])
            b = self.body(name, t["form"], t["fs"], param, life)
            text = "pub struct %s%s" % (name, params) + (where + b if t["form"] == "named" else b + where + ";")
        self.out.append("#[derive(Clone, bsn1_serde::Serialize, bsn1_serde::Deserialize)] %s%s" % (self.attribute(args), text))

        full = name + self.arguments(t)
        self.out.append("impl Model for %s {" % full)
        if t["t"] == "enum":
            arms = ["%d => %s," % (j + 1, self.build("%s::V%d" % (name, j + 1), v["form"], len(v["fs"]), "b")) for j, v in enumerate(t["vs"])]
            self.out.append("fn make(j: &Json) -> Self { let a = j.arr(); let b = a[1].arr(); match a[0].int() { %s _ => panic!(\"harness: no variant\") } }"
                            % " ".join(arms))
            arms = []
            for j, v in enumerate(t["vs"]):
                n = len(v["fs"])
                xs = ["x%d" % i for i in range(n)]
                pat = "" if v["form"] == "unit" else "(%s)" % ", ".join(xs) if v["form"] == "tuple" else " { %s }" % ", ".join(
                    "f%d: x%d" % (i, i) for i in range(n))
                arms.append("%s::V%d%s => Json::Arr(vec![Json::Int(%d), Json::Arr(vec![%s])])," % (
                    name, j + 1, pat, j + 1, ", ".join(x + ".dump()" for x in xs)))
            self.out.append("fn dump(&self) -> Json { match self { %s } } }" % " ".join(arms))
        else:
            n = len(t["fs"])
            self.out.append("fn make(j: &Json) -> Self { let a = j.arr(); %s }" % self.build(name, t["form"], n, "a"))
            acc = ["self.%s.dump()" % (i if t["form"] == "tuple" else "f%d" % i) for i in range(n)]
            self.out.append("fn dump(&self) -> Json { Json::Arr(vec![%s]) } }" % ", ".join(acc))

    def live(self, t):
        """For a transparent type: the field that takes part in each direction."""
        if t["t"] != "trans":
            return None
        ret = {}
        for key, d in (("ser", "out"), ("de", "in")):
            i = next(i for i, f in enumerate(t["fs"]) if f[key])
            f = t["fs"][i]
            if not f[d] and f["ty"]["t"] != "new":
                ret[key] = [i, self.register(f["ty"])]
        return ret

    def register(self, t):
        ty = self.rust(t)
        name = "=" + ty
        self.registered[name] = ty
        return name

    def source(self):
        regs = "\n".join('    r.push(("%s".to_string(), ops::<%s>()));' % (n, ty) for n, ty in self.registered.items())
        return PRELUDE + "\n".join(self.out) + (
            "\nfn main() {\n    let mut r: Vec<(String, Box<dyn Ops>)> = Vec::new();\n%s\n    bsnh::run(r);\n}\n" % regs)


def generate(lines, directory, units, here):
    """Writes the crate and the cases; -> for each binary its name, its cases and the lines of each case."""
    src = os.path.join(directory, "src", "bin")
    os.makedirs(src)
    name = os.path.basename(directory).replace("-", "_")
    ret = []
    for u in range(units):
        unit = Unit()
        path = os.path.join(directory, "cases%d.jsonl" % u)
        mine = lines[u::units]
        if not mine:
            continue
        spans = []
        first = PRELUDE.count("\n") + 1
        with open(path, "w") as f:
            for line in mine:
                c = json.loads(line)
                before = len(unit.out)
                c["ty"] = unit.register(c["d"])
                spans.append((first + before, first + len(unit.out), line))
                c["live"] = unit.live(c["d"])
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        binary = "%s_%d" % (name, u)
        with open(os.path.join(src, binary + ".rs"), "w") as f:
            f.write(unit.source())
        ret.append(dict(binary=binary, cases=path, spans=spans))
    with open(os.path.join(directory, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "%s"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
bsn1 = { path = "/repo/bsn1" }
bsn1_serde = { path = "/repo/bsn1_serde" }
bsnh = { path = "%s/harness" }
anyhow = "1"

[profile.dev]
opt-level = 0
debug = false
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package."*"]
opt-level = 1
""" % (name, here))
    return ret
