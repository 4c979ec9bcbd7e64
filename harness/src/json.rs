//! A reader for the small JSON subset that TLC prints.

#[derive(Debug, Clone, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

static NULL: Json = Json::Null;

impl Json {
    pub fn parse(s: &str) -> Json {
        let b = s.as_bytes();
        let mut p = 0;
        value(b, &mut p)
    }

    pub fn get(&self, key: &str) -> &Json {
        match self {
            Json::Obj(v) => v.iter().find(|(k, _)| k == key).map_or(&NULL, |(_, j)| j),
            _ => &NULL,
        }
    }


    /// This, unless it is missing.
    pub fn or<'a>(&'a self, other: &'a Json) -> &'a Json {
        if *self == Json::Null {
            other
        } else {
            self
        }
    }

    pub fn str(&self) -> &str {
        match self {
            Json::Str(s) => s,
            _ => panic!("harness: not a string: {:?}", self),
        }
    }

    pub fn int(&self) -> i64 {
        match self {
            Json::Int(n) => *n,
            _ => panic!("harness: not an integer: {:?}", self),
        }
    }

    pub fn us(&self) -> usize {
        self.int() as usize
    }

    pub fn bool(&self) -> bool {
        match self {
            Json::Bool(b) => *b,
            _ => panic!("harness: not a boolean: {:?}", self),
        }
    }

    /// An array. TLC prints the empty sequence as `[]`, and the empty function as `{}`.
    pub fn arr(&self) -> &[Json] {
        match self {
            Json::Arr(v) => v,
            Json::Obj(v) if v.is_empty() => &[],
            _ => panic!("harness: not an array: {:?}", self),
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|j| j.int() as u8).collect()
    }

    /// A big endian number.
    pub fn num(&self) -> u128 {
        self.arr().iter().fold(0, |acc, j| (acc << 8) | j.int() as u128)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Json {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => {
                        *p += 1;
                        return Json::Obj(v);
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = string(b, p);
                        ws(b, p);
                        assert_eq!(b[*p], b':');
                        *p += 1;
                        let j = value(b, p);
                        v.push((k, j));
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => {
                        *p += 1;
                        return Json::Arr(v);
                    }
                    b',' => *p += 1,
                    _ => v.push(value(b, p)),
                }
            }
        }
        b'"' => Json::Str(string(b, p)),
        b't' => {
            *p += 4;
            Json::Bool(true)
        }
        b'f' => {
            *p += 5;
            Json::Bool(false)
        }
        b'n' => {
            *p += 4;
            Json::Null
        }
        _ => {
            let s = *p;
            *p += 1;
            while *p < b.len() && b[*p].is_ascii_digit() {
                *p += 1;
            }
            Json::Int(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert_eq!(b[*p], b'"');
    *p += 1;
    let mut v = Vec::new();
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
            v.push(match b[*p] {
                b'n' => b'\n',
                b't' => b'\t',
                c => c,
            });
        } else {
            v.push(b[*p]);
        }
        *p += 1;
    }
    *p += 1;
    String::from_utf8(v).unwrap()
}

/// Takes the JSON text out of a line printed by TLC's `PrintT("C " \o ToJson(..))`.
pub fn from_tlc_line(line: &str) -> Option<String> {
    let t = line.strip_prefix("\"C ")?.strip_suffix('"')?;
    let mut out = String::with_capacity(t.len());
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(d) = it.next() {
                out.push(d);
            }
        } else {
            out.push(c);
        }
    }
    Some(out)
}
