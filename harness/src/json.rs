//! A minimal JSON value, so the harness needs no crates beyond the ones of the code under test.
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum J {
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::O(fields) => fields.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, key: &str) -> &J {
        self.get(key).unwrap_or_else(|| panic!("harness: no field {} in {}", key, self.text()))
    }
    pub fn put(&mut self, key: &str, value: J) {
        if let J::O(fields) = self {
            fields.retain(|(k, _)| k != key);
            fields.push((key.to_string(), value));
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("harness: not a number: {}", self.text()),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("harness: not a bool: {}", self.text()),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("harness: not a string: {}", self.text()),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("harness: not an array: {}", self.text()),
        }
    }
    pub fn num(&self, key: &str, default: i64) -> i64 {
        self.get(key).map_or(default, |v| v.n())
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.a().iter().map(|b| b.n() as u8).collect()
    }
    pub fn u32s(&self) -> Vec<u32> {
        self.a().iter().map(|b| b.n() as u32).collect()
    }
    pub fn of_bytes(bytes: &[u8]) -> J {
        J::A(bytes.iter().map(|b| J::N(*b as i64)).collect())
    }
    pub fn of_u32s(v: &[u32]) -> J {
        // TLC integers are 32-bit: anything beyond is reported as -1.
        J::A(v.iter().map(|b| J::N(if *b > 0x7fff_fffe { -1 } else { *b as i64 })).collect())
    }
    pub fn str(s: &str) -> J {
        J::S(s.to_string())
    }
    pub fn text(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }
    fn write(&self, out: &mut String) {
        match self {
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => out.push_str(&n.to_string()),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(items) => {
                out.push('[');
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    item.write(out);
                }
                out.push(']');
            }
            J::O(fields) => {
                out.push('{');
                for (i, (k, v)) in fields.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> J {
        let mut p = Parser { s: text.as_bytes(), i: 0 };
        p.value()
    }
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Parser<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut fields = Vec::new();
                self.ws();
                while self.s[self.i] != b'}' {
                    let key = match self.value() {
                        J::S(s) => s,
                        _ => panic!("harness: bad key"),
                    };
                    self.ws();
                    assert_eq!(self.s[self.i], b':');
                    self.i += 1;
                    let value = self.value();
                    fields.push((key, value));
                    self.ws();
                    if self.s[self.i] == b',' {
                        self.i += 1;
                        self.ws();
                    }
                }
                self.i += 1;
                J::O(fields)
            }
            b'[' => {
                self.i += 1;
                let mut items = Vec::new();
                self.ws();
                while self.s[self.i] != b']' {
                    items.push(self.value());
                    self.ws();
                    if self.s[self.i] == b',' {
                        self.i += 1;
                        self.ws();
                    }
                }
                self.i += 1;
                J::A(items)
            }
            b'"' => {
                self.i += 1;
                let mut out = Vec::new();
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        self.i += 1;
                        match self.s[self.i] {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'u' => {
                                let hex = std::str::from_utf8(&self.s[self.i + 1..self.i + 5]).unwrap();
                                let c = std::char::from_u32(u32::from_str_radix(hex, 16).unwrap()).unwrap();
                                let mut buf = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                                self.i += 4;
                            }
                            c => out.push(c),
                        }
                    } else {
                        out.push(self.s[self.i]);
                    }
                    self.i += 1;
                }
                self.i += 1;
                J::S(String::from_utf8(out).unwrap())
            }
            b't' => {
                self.i += 4;
                J::B(true)
            }
            b'f' => {
                self.i += 5;
                J::B(false)
            }
            _ => {
                let start = self.i;
                while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                J::N(std::str::from_utf8(&self.s[start..self.i]).unwrap().parse().expect("harness: number"))
            }
        }
    }
}
