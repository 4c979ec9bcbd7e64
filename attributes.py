"""Turns the drafts of attributes (module Attrs) into Rust.

A legal draft has to compile.  An illegal one has to be refused by the derive
macro: an error without a code of the compiler, at the place of the draft.
"""

import json
import os
import re
import shutil
import subprocess

PRELUDE = """#![allow(warnings)]
#[derive(Clone, Default, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub struct W(pub i32);
impl From<i32> for W { fn from(x: i32) -> W { W(x) } }
impl From<W> for i32 { fn from(x: W) -> i32 { x.0 } }
pub fn wto(x: &W) -> i32 { x.0 }
pub fn wdflt() -> W { W(7) }
"""
TRAIT = {"ser": "bsn1_serde::Serialize", "de": "bsn1_serde::Deserialize"}


def argument(n, v):
    return n if v == "" else n + " =" if v == "=" else "%s = %s" % (n, v)


def program(c, name):
    args = [argument(n, v) for n, v in c["a"]]
    cut = len(args) - c["s"]
    attr = " ".join("#[bsn1_serde(%s)]" % ", ".join(x) for x in (args[:cut], args[cut:]) if x)
    derive = "#[derive(Clone, %s)]" % TRAIT[c["m"]]
    item, make, get = {
        "struct": ("%s %s pub struct T { pub f: i32 }" % (derive, attr), "T { f: x }", "x.f"),
        "tuple": ("%s %s pub struct T(pub i32);" % (derive, attr), "T(x)", "x.0"),
        "unit": ("%s %s pub struct T;" % (derive, attr), "T", "0"),
        "enum": ("%s %s pub enum T { A(i32), #[bsn1_serde(tag_num = 9)] B }" % (derive, attr), "T::A(x)", "0"),
        "variant": ("%s pub enum T { %s A(i32), #[bsn1_serde(tag_num = 9)] B }" % (derive, attr), None, None),
        "field": ("%s pub struct T { %s f: W, g: i32 }" % (derive, attr), None, None),
        "element": ("%s pub struct T(i32, %s W);" % (derive, attr), None, None),
        "vfield": ("%s pub enum T { A { g: i32, %s f: W } }" % (derive, attr), None, None),
        "velement": ("%s pub enum T { B, #[bsn1_serde(tag_num = 9)] A(%s W, i32) }" % (derive, attr), None, None),
        "transparent": ("%s #[bsn1_serde(transparent)] pub struct T { %s }" % (
            derive, ", ".join("%s f%d: i32" % ("#[bsn1_serde(%s)]" % how if how else "", i) for i, how in enumerate(c["f"]))), None, None),
        "union": ("%s #[derive(Copy)] pub union T { f: i32 }" % derive, None, None),
    }[c["p"]]
    if make:
        more = ("impl From<i32> for T { fn from(x: i32) -> T { %s } } impl From<T> for i32 { fn from(x: T) -> i32 { %s } } "
                "pub fn to(x: &T) -> i32 { %s } pub fn dflt() -> T { let x = 7; %s }" % (make, get, get, make))
    else:
        more = "pub use super::{wto as to, wdflt as dflt};"
    return "pub mod %s { use super::W; %s %s }" % (name, item, more)


def judge(lines, directory, env, here):
    """Compiles the drafts; -> list of whether each was accepted, and what the compiler said."""
    shutil.rmtree(directory, ignore_errors=True)
    src = os.path.join(directory, "src", "bin")
    os.makedirs(src)
    cases = [json.loads(x) for x in lines]
    first = PRELUDE.count("\n") + 1
    where = {}
    for kind, units in ((True, 6), (False, 4)):
        mine = [i for i, c in enumerate(cases) if c["legal"] == kind]
        for u in range(units):
            part = mine[u::units]
            name = "%s%d" % ("legal" if kind else "illegal", u)
            with open(os.path.join(src, name + ".rs"), "w") as f:
                f.write(PRELUDE)
                for k, i in enumerate(part):
                    f.write(program(cases[i], "p%d" % i) + "\n")
                    where[name, first + k] = i
                f.write("fn main() {}\n")
    with open(os.path.join(directory, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "attrs"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
bsn1 = { path = "/repo/bsn1" }
bsn1_serde = { path = "/repo/bsn1_serde" }
anyhow = "1"

[profile.dev]
incremental = false
""")
    shutil.copy(os.path.join(here, "harness", "Cargo.lock"), directory)
    p = subprocess.run(["cargo", "check", "--offline", "--message-format", "short", "--keep-going"], cwd=directory, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    said = {}
    for m in re.finditer(r"^src/bin/(\w+)\.rs:(\d+):\d+: (error(?:\[\w+\])?: .*)$", p.stdout, re.M):
        i = where.get((m[1], int(m[2])))
        if i is None:
            return None, p.stdout
        said.setdefault(i, []).append(m[3])
    if not said and p.returncode != 0:
        return None, p.stdout
    return [said.get(i, []) for i in range(len(cases))], p.stdout


def refused(errors):
    return any(e.startswith("error: ") for e in errors)
