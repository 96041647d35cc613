//! A small JSON reader and writer (replay files, evidence, and the reference model's view of the tool's
//! own json files).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn set(&mut self, key: &str, val: J) {
        if let J::Obj(v) = self {
            if let Some(e) = v.iter_mut().find(|(k, _)| k == key) {
                e.1 = val;
            } else {
                v.push((key.to_string(), val));
            }
        }
    }
    pub fn get_mut(&mut self, key: &str) -> Option<&mut J> {
        match self {
            J::Obj(v) => v.iter_mut().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            J::Arr(a) => a
                .iter()
                .map(|x| x.int().filter(|i| (0..256).contains(i)).map(|i| i as u8))
                .collect(),
            _ => None,
        }
    }
    pub fn gstr(&self, key: &str) -> String {
        self.get(key).and_then(|x| x.str()).unwrap_or("").to_string()
    }
    pub fn gint(&self, key: &str) -> i64 {
        self.get(key).and_then(|x| x.int()).unwrap_or(0)
    }

    pub fn render(&self, pretty: bool) -> String {
        let mut out = String::new();
        self.write(&mut out, 0, pretty);
        out
    }
    fn write(&self, out: &mut String, ind: usize, pretty: bool) {
        let nl = |out: &mut String, n: usize| {
            if pretty {
                out.push('\n');
                for _ in 0..n {
                    out.push(' ');
                }
            }
        };
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(f) => out.push_str(&format!("{}", f)),
            J::Str(s) => quote(s, out),
            J::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        nl(out, ind + 1);
                    }
                    x.write(out, ind + 1, pretty);
                }
                if !flat && !a.is_empty() {
                    nl(out, ind);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    nl(out, ind + 1);
                    quote(k, out);
                    out.push(':');
                    if pretty {
                        out.push(' ');
                    }
                    x.write(out, ind + 1, pretty);
                }
                if !v.is_empty() {
                    nl(out, ind);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(text: &str) -> Result<J, String> {
        let mut p = Parser { b: text.as_bytes(), i: 0, depth: 0 };
        p.ws();
        let v = p.value()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(format!("trailing text at {}", p.i));
        }
        Ok(v)
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Parser<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}

impl Parser<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{} at {}", m, self.i))
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 200 {
            return self.err("too deep");
        }
        let r = match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            break Ok(J::Arr(a));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut o = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Obj(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    o.push((k, self.value()?));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            break Ok(J::Obj(o));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if let Ok(i) = t.parse::<i64>() {
                    Ok(J::Int(i))
                } else {
                    t.parse::<f64>().map(J::Num).map_err(|_| "bad number".to_string())
                }
            }
            _ => self.err("unexpected character"),
        };
        self.depth -= 1;
        r
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.b.len() {
            return self.err("bad \\u");
        }
        let t = std::str::from_utf8(&self.b[self.i..self.i + 4]).map_err(|_| "bad \\u")?;
        self.i += 4;
        u32::from_str_radix(t, 16).map_err(|_| "bad \\u".to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return self.err("expected string");
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            if self.i >= self.b.len() {
                return self.err("unterminated string");
            }
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let mut c = self.hex4()?;
                            if (0xd800..0xdc00).contains(&c) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                let d = self.hex4()?;
                                c = 0x10000 + ((c - 0xd800) << 10) + (d.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            let ch = char::from_u32(c).unwrap_or('\u{fffd}');
                            let mut tmp = [0; 4];
                            out.extend(ch.encode_utf8(&mut tmp).as_bytes());
                        }
                        c => out.push(c),
                    }
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).map_err(|_| "bad utf8".to_string())
    }
}

/// Byte strings in replay files: text where possible, otherwise "hex:...".
pub fn enc(b: &[u8]) -> J {
    if let Ok(s) = std::str::from_utf8(b) {
        if !s.starts_with("hex:") && s.chars().all(|c| !c.is_control() || c == '\n') {
            return J::s(s);
        }
    }
    let mut s = String::from("hex:");
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    J::Str(s)
}

pub fn dec(j: &J) -> Vec<u8> {
    let s = j.str().unwrap_or("");
    match s.strip_prefix("hex:") {
        Some(h) => (0..h.len() / 2)
            .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
            .collect(),
        None => s.as_bytes().to_vec(),
    }
}
