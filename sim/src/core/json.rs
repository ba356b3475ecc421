//! Minimal JSON: writing evidence, reading recorded header stories.

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(#[allow(dead_code)] bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self { J::Arr(v) => v, _ => &[] }
    }
    pub fn str(&self) -> Option<&str> {
        match self { J::Str(s) => Some(s), _ => None }
    }
    pub fn num(&self) -> Option<f64> {
        match self { J::Num(n) => Some(*n), _ => None }
    }
}

struct P<'a> { b: &'a [u8], i: usize }

pub fn parse(s: &[u8]) -> Option<J> {
    let mut p = P { b: s, i: 0 };
    let v = p.val()?;
    p.ws();
    if p.i == s.len() { Some(v) } else { None }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') { self.i += 1; }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if *self.b.get(self.i)? == c { self.i += 1; Some(()) } else { None }
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b'}').is_some() { return Some(J::Obj(v)); }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.val()?));
                    if self.eat(b',').is_some() { continue; }
                    self.eat(b'}')?;
                    return Some(J::Obj(v));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b']').is_some() { return Some(J::Arr(v)); }
                loop {
                    v.push(self.val()?);
                    if self.eat(b',').is_some() { continue; }
                    self.eat(b']')?;
                    return Some(J::Arr(v));
                }
            }
            b'"' => Some(J::Str(self.string()?)),
            b't' if self.b[self.i..].starts_with(b"true") => { self.i += 4; Some(J::Bool(true)) }
            b'f' if self.b[self.i..].starts_with(b"false") => { self.i += 5; Some(J::Bool(false)) }
            b'n' if self.b[self.i..].starts_with(b"null") => { self.i += 4; Some(J::Null) }
            _ => {
                let s = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1; }
                std::str::from_utf8(&self.b[s..self.i]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
        self.i += 4;
        u32::from_str_radix(h, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        if *self.b.get(self.i)? != b'"' { return None; }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) && self.b.get(self.i..self.i + 2) == Some(b"\\u") {
                                self.i += 2;
                                let lo = self.hex4()?;
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo.checked_sub(0xdc00)?);
                            }
                            let mut b = [0; 4];
                            out.extend_from_slice(char::from_u32(u)?.encode_utf8(&mut b).as_bytes());
                        }
                        x => out.push(x),
                    }
                }
                c => out.push(c),
            }
        }
    }
}
