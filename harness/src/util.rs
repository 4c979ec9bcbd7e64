//! Shared by all replays.

use bsn1::Error;
use std::io::{ErrorKind, Read};

#[derive(Default)]
pub struct Cx {
    pub fails: Vec<String>,
    pub checks: u64,
}

impl Cx {
    pub fn ck(&mut self, cond: bool, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !cond && self.fails.len() < 20 {
            self.fails.push(msg());
        }
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.checks += 1;
        if got != want && self.fails.len() < 20 {
            let mut g = format!("{:?}", got);
            let mut w = format!("{:?}", want);
            truncate(&mut g);
            truncate(&mut w);
            self.fails.push(format!("{}: got {}, want {}", what, g, w));
        }
    }
}

fn truncate(s: &mut String) {
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
}

/// The kind of an error as the specification names it.
pub fn kind(e: &Error) -> &'static str {
    match e {
        Error::UnterminatedBytes => "UnterminatedBytes",
        Error::RedundantBytes => "RedundantBytes",
        Error::OverFlow => "OverFlow",
        Error::IndefiniteLength => "IndefiniteLength",
        Error::BadEoc => "BadEoc",
        Error::ExtraContentsOctet => "ExtraContentsOctet",
        Error::UnmatchedId => "UnmatchedId",
        Error::InvalidUtf8 => "InvalidUtf8",
        Error::InvalidDerBooleanContents => "InvalidDerBooleanContents",
        Error::InvalidKeyValuePair => "InvalidKeyValuePair",
        Error::Io(_) => "Io",
        Error::Anyhow(_) => "Anyhow",
        _ => "?",
    }
}

/// The kind of the error behind any contexts.
pub fn root(e: &Error) -> &'static str {
    kind(e.root_cause())
}

pub fn res<T>(r: &Result<T, Error>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(e) => kind(e),
    }
}

/// Octets that may follow an element without being part of it.
pub const SUFFIXES: [&[u8]; 5] = [&[], &[0, 0], &[0x30, 0x80, 0, 0], &[0xff, 0xff, 0xff], &[0x7f]];

/// A reader that delivers as it is told to.
pub struct Scripted<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// For each position, interrupts before it and whether a new delivery starts there.
    pub sched: Vec<(u8, bool)>,
    pub fail: Option<usize>,
}

impl Scripted<'_> {
    /// Every delivery has `chunk` octets, after an interrupt if asked for.
    pub fn chunked(data: &[u8], chunk: usize, interrupt: bool) -> Scripted<'_> {
        let n = if data.len() > 1 << 16 { 1 << 16 } else { data.len() + 1 };
        let sched = (0..n).map(|i| (u8::from(interrupt && i % chunk == 0), i % chunk == 0)).collect();
        Scripted { data, pos: 0, sched, fail: None }
    }
}

impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(s) = self.sched.get_mut(self.pos) {
            if s.0 > 0 {
                s.0 -= 1;
                return Err(ErrorKind::Interrupted.into());
            }
        }
        if self.fail == Some(self.pos) {
            return Err(std::io::Error::new(ErrorKind::Other, "scripted failure"));
        }
        let mut n = 0;
        while n < buf.len() && self.pos < self.data.len() {
            if n > 0 {
                if self.fail == Some(self.pos) {
                    break;
                }
                if let Some(s) = self.sched.get(self.pos) {
                    if s.0 > 0 || s.1 {
                        break;
                    }
                }
            }
            buf[n] = self.data[self.pos];
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
}
