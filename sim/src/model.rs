//! The reference model: what the files mean and what each command should make of them. Written from the file
//! format and the token sheet, independent of the code under test.

use crate::json::J;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Tok {
    pub since: u32,
    pub until: u32,
    pub text: [String; 3], // pretty, accessible, ti
}

pub const LATEST: u32 = 9_999_999;
pub const MODES: [&str; 3] = ["pretty", "accessible", "ti"];
pub const MODE_JSON: [&str; 3] = ["Pretty", "Accessible", "TiAscii"];

pub struct Model {
    pub name: &'static str,
    pub order: u32,
    pub sig: &'static str,
    pub product: u8,
    pub lang: &'static str,
}
macro_rules! m {
    ($n:expr, $o:expr, $s:expr, $p:expr, $l:expr) => {
        Model { name: $n, order: $o, sig: $s, product: $p, lang: $l }
    };
}
pub const MODELS: [Model; 25] = [
    m!("TI-82", 10, "**TI82**", 0x00, "en"),
    m!("TI-83", 20, "**TI83**", 0x00, "en"),
    m!("TI-82ST", 20, "**TI83**", 0x00, "en"),
    m!("TI-82ST.fr", 20, "**TI83**", 0x00, "fr"),
    m!("TI-76.fr", 20, "**TI83**", 0x00, "fr"),
    m!("TI-83+", 30, "**TI83F*", 0x04, "en"),
    m!("TI-83+SE", 30, "**TI83F*", 0x04, "en"),
    m!("TI-83+.fr", 30, "**TI83F*", 0x04, "fr"),
    m!("TI-82+", 30, "**TI83F*", 0x04, "fr"),
    m!("TI-84+", 40, "**TI83F*", 0x0A, "en"),
    m!("TI-84+SE", 40, "**TI83F*", 0x0A, "en"),
    m!("TI-83+.fr:USB", 40, "**TI83F*", 0x0A, "fr"),
    m!("TI-84P.fr", 40, "**TI83F*", 0x0A, "fr"),
    m!("TI-84+PSE", 40, "**TI83F*", 0x0A, "en"),
    m!("TI-82A", 45, "**TI83F*", 0x0B, "fr"),
    m!("TI-84+T", 45, "**TI83F*", 0x1B, "en"),
    m!("TI-84+CSE", 50, "**TI83F*", 0x0F, "en"),
    m!("TI-84+CE", 60, "**TI83F*", 0x13, "en"),
    m!("TI-84+CET", 60, "**TI83F*", 0x13, "en"),
    m!("TI-83PCE", 60, "**TI83F*", 0x13, "fr"),
    m!("TI-83PCEEP", 60, "**TI83F*", 0x13, "fr"),
    m!("TI-84+CEPY", 60, "**TI83F*", 0x13, "en"),
    m!("TI-84+CETPE", 60, "**TI83F*", 0x13, "en"),
    m!("TI-82AEP", 60, "**TI83F*", 0x00, "fr"),
    m!("latest", LATEST, "**TI83F*", 0x00, "en"),
];
pub fn model(name: &str) -> &'static Model {
    MODELS.iter().find(|m| m.name == name).unwrap_or(&MODELS[24])
}
/// The model a header stands for.
pub fn model_of(product: u8, sig: &[u8]) -> Option<&'static Model> {
    Some(model(match product {
        0x00 => match sig {
            b"**TI83F*" => "latest",
            b"**TI83**" => "TI-83",
            _ => "TI-82",
        },
        0x04 => "TI-83+",
        0x0A => "TI-84+",
        0x0B => "TI-82A",
        0x0F => "TI-84+CSE",
        0x13 => "TI-84+CE",
        0x1B => "TI-84+T",
        _ => return None,
    }))
}
/// What is left of a model after it went through a calculator file's header.
pub fn header_model(name: &str) -> &'static str {
    let m = model(name);
    model_of(m.product, m.sig.as_bytes()).unwrap().name
}

pub type Table = BTreeMap<Vec<u8>, Tok>;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn table(order: u32) -> &'static Table {
    static T: OnceLock<BTreeMap<u32, Table>> = OnceLock::new();
    let all = T.get_or_init(|| {
        let mut out = BTreeMap::new();
        for o in [10, 20, 30, 40, 45, 50, 60, LATEST] {
            let mut t = Table::new();
            for l in include_str!("../tokens.tsv").lines() {
                let f: Vec<&str> = l.split('\t').collect();
                let (since, until): (u32, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                let s = |i: usize| String::from_utf8(unhex(f[i])).unwrap();
                if since <= o && (until == 0 || until > o) {
                    t.insert(unhex(f[0]), Tok { since, until, text: [s(3), s(5), s(4)] });
                }
            }
            out.insert(o, t);
        }
        out
    });
    &all[&order]
}

pub fn decode(body: &[u8], order: u32, mode: usize) -> Option<String> {
    let t = table(order);
    let mut out = String::new();
    let mut i = 0;
    while i < body.len() {
        if let Some(k) = t.get(&body[i..i + 1]) {
            out.push_str(&k.text[mode]);
            i += 1;
        } else {
            let k = body.get(i..i + 2).and_then(|b| t.get(b))?;
            out.push_str(&k.text[mode]);
            i += 2;
        }
    }
    Some(out)
}

pub fn ext(path: &[u8]) -> &str {
    let name = path.rsplit(|c| *c == b'/').next().unwrap_or(b"");
    match name.iter().rposition(|c| *c == b'.') {
        Some(i) if i > 0 => std::str::from_utf8(&name[i + 1..]).unwrap_or(""),
        _ => "",
    }
}
pub fn is_calc(e: &str) -> bool {
    matches!(e, "8xp" | "83p" | "82p")
}
pub fn meta_len(e: &str) -> usize {
    if e == "8xp" {
        19
    } else {
        17
    }
}

/// A calculator file taken apart.
#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub sig: Vec<u8>,
    pub sig2: [u8; 2],
    pub product: u8,
    pub comment: Vec<u8>, // 42 bytes
    pub flag: [u8; 2],
    pub ftype: u8,
    pub name: Vec<u8>, // 8 bytes
    pub version: u8,
    pub dest: u8,
    pub body: Vec<u8>,
}

pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    v.resize(n, 0);
    v
}
pub fn latin(b: &[u8]) -> String {
    b.iter().filter(|c| **c != 0).map(|c| *c as char).collect()
}

impl Prog {
    pub fn new(name: &str, body: &[u8]) -> Prog {
        Prog {
            sig: b"**TI83F*".to_vec(),
            sig2: [0x1A, 0x0A],
            product: 0,
            comment: pad(b"Created by hand", 42),
            flag: [0x0D, 0],
            ftype: 5,
            name: pad(name.as_bytes(), 8),
            version: 0,
            dest: 0,
            body: body.to_vec(),
        }
    }
    pub fn meta(&self, e: &str) -> Vec<u8> {
        let l = self.body.len();
        let mut m = if e == "8xp" { vec![self.flag[0], self.flag[1]] } else { vec![0x0B, 0] };
        m.extend(((l + 2) as u16).to_le_bytes());
        m.push(self.ftype);
        m.extend(&self.name);
        if e == "8xp" {
            m.push(self.version);
            m.push(self.dest);
        }
        m.extend(((l + 2) as u16).to_le_bytes());
        m.extend((l as u16).to_le_bytes());
        m
    }
    pub fn bytes(&self, e: &str) -> Vec<u8> {
        let m = self.meta(e);
        let mut v = self.sig.clone();
        v.extend(self.sig2);
        v.push(self.product);
        v.extend(&self.comment);
        v.extend(((m.len() + self.body.len()) as u16).to_le_bytes());
        v.extend(&m);
        v.extend(&self.body);
        v.extend(sum(&v[55..]).to_le_bytes());
        v
    }
    pub fn parse(b: &[u8], e: &str) -> Option<Prog> {
        let ml = meta_len(e);
        if b.len() < 57 + ml {
            return None;
        }
        let m = &b[55..55 + ml];
        Some(Prog {
            sig: b[..8].to_vec(),
            sig2: [b[8], b[9]],
            product: b[10],
            comment: b[11..53].to_vec(),
            flag: [m[0], m[1]],
            ftype: m[4],
            name: m[5..13].to_vec(),
            version: if ml == 19 { m[13] } else { 0 },
            dest: if ml == 19 { m[14] } else { 0 },
            body: b[55 + ml..b.len() - 2].to_vec(),
        })
    }
    pub fn model(&self) -> Option<&'static Model> {
        model_of(self.product, &self.sig)
    }
    pub fn text(&self, mode: usize) -> Option<String> {
        decode(&self.body, self.model()?.order, mode)
    }
    pub fn name_s(&self) -> String {
        latin(&self.name)
    }
    pub fn ftype_s(&self) -> &'static str {
        match self.ftype {
            5 => "Program",
            6 => "Locked Program",
            0x17 => "Group",
            0x24 => "Flash Application",
            _ => "?",
        }
    }
    pub fn dest_s(&self) -> &'static str {
        if self.dest == 0x80 {
            "Archive"
        } else {
            "RAM"
        }
    }
    /// The text file this program becomes.
    pub fn txt(&self, mode: usize) -> Option<String> {
        let t = self.text(mode)?;
        let nl = if t.ends_with('\n') { "\n" } else { "" };
        Some(format!(
            "{}\n{}\n{}\n{}\n{}\n{}\n{}{}",
            self.name_s(),
            latin(&self.comment).replace('\n', " "),
            self.ftype_s(),
            self.dest_s(),
            MODES[mode],
            self.model()?.name,
            t,
            nl
        ))
    }
    pub fn details(&self, e: &str) -> Option<String> {
        let m = self.model()?;
        Some(format!(
            "{}\n{}\nTotal Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {}\nlanguage: {}\nDestination: {}\nFile Type: {}\n",
            self.name_s(),
            latin(&self.comment),
            57 + meta_len(e) + self.body.len(),
            self.body.len(),
            m.name,
            m.lang,
            self.dest_s(),
            self.ftype_s()
        ))
    }
    pub fn preview(&self, e: &str, mode: usize) -> Option<String> {
        Some(format!("{}----- Program -----\n{}\n\n", self.details(e)?, self.text(mode)?))
    }
}

pub fn sum(b: &[u8]) -> u16 {
    b.iter().fold(0u16, |s, x| s.wrapping_add(*x as u16))
}

/// Is this a well-formed calculator file?
pub fn well_formed(b: &[u8], e: &str) -> Result<(), String> {
    let ml = meta_len(e);
    if b.len() < 57 + ml {
        return Err(format!("only {} bytes long", b.len()));
    }
    let le = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
    let body = b.len() - 57 - ml;
    if le(53) != ml + body {
        return Err(format!("header length {} but metadata and body are {} bytes", le(53), ml + body));
    }
    let m = 55;
    let want = if ml == 19 { 0x0D } else { 0x0B };
    if b[m] != want || b[m + 1] != 0 {
        return Err(format!("metadata starts {:02X} {:02X}, a {} file's with {:02X} 00", b[m], b[m + 1], e, want));
    }
    if le(m + 2) != body + 2 {
        return Err(format!("length {} but body and its length are {} bytes", le(m + 2), body + 2));
    }
    let c = m + ml - 4;
    if le(c) != body + 2 {
        return Err(format!("length copy {} but body and its length are {} bytes", le(c), body + 2));
    }
    if le(c + 2) != body {
        return Err(format!("body length {} but the body is {} bytes", le(c + 2), body));
    }
    let padded = |r: &[u8]| match r.iter().position(|x| *x == 0) {
        Some(i) => r[i..].iter().all(|x| *x == 0),
        None => true,
    };
    if !padded(&b[11..53]) {
        return Err("comment not zero padded".into());
    }
    if !padded(&b[m + 5..m + 13]) {
        return Err("name not zero padded".into());
    }
    if ![5, 6, 0x17, 0x24].contains(&b[m + 4]) {
        return Err(format!("file type {:02X}", b[m + 4]));
    }
    if ml == 19 && b[m + 14] != 0 && b[m + 14] != 0x80 {
        return Err(format!("destination {:02X}", b[m + 14]));
    }
    let s = sum(&b[55..b.len() - 2]) as usize;
    if le(b.len() - 2) != s {
        return Err(format!("checksum {:04X} but metadata and body add up to {:04X}", le(b.len() - 2), s));
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    Rename(String),
    Comment(String),
    Lock,
    Unlock,
    Archive,
    Unarchive,
}
impl Edit {
    /// The file after the edit; None: the edit is not allowed.
    pub fn apply(&self, b: &[u8], e: &str) -> Option<Vec<u8>> {
        let mut v = b.to_vec();
        let ml = meta_len(e);
        match self {
            Edit::Rename(n) => {
                if n.len() > 8 || !n.chars().all(|c| c.is_ascii_alphabetic()) {
                    return None;
                }
                v[60..68].copy_from_slice(&pad(n.to_ascii_uppercase().as_bytes(), 8));
            }
            Edit::Comment(c) => {
                if c.len() > 42 {
                    return None;
                }
                v[11..53].copy_from_slice(&pad(c.as_bytes(), 42));
            }
            Edit::Lock => v[59] = 6,
            Edit::Unlock => v[59] = 5,
            Edit::Archive if ml == 19 => v[69] = 0x80,
            Edit::Unarchive if ml == 19 => v[69] = 0,
            _ => {}
        }
        let n = v.len();
        let s = sum(&v[55..n - 2]);
        v[n - 2..].copy_from_slice(&s.to_le_bytes());
        Some(v)
    }
    /// The edit saved under another extension.
    pub fn apply_to(&self, b: &[u8], from: &str, to: &str) -> Option<Vec<u8>> {
        self.apply(&relayout(b, from, to)?, to)
    }
    pub fn args(&self, input: &str) -> Vec<String> {
        let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
        match self {
            Edit::Rename(n) => s(&["rename", input, "-n", n]),
            Edit::Comment(c) => s(&["comment", input, "-c", c]),
            Edit::Lock => s(&["lock", input]),
            Edit::Unlock => s(&["unlock", input]),
            Edit::Archive => s(&["archive", input]),
            Edit::Unarchive => s(&["unarchive", input]),
        }
    }
}

/// A calculator file saved under another calculator extension.
pub fn relayout(b: &[u8], from: &str, to: &str) -> Option<Vec<u8>> {
    if meta_len(from) == meta_len(to) {
        return Some(b.to_vec());
    }
    let p = Prog::parse(b, from)?;
    if p.body.len() + meta_len(to) > 0xffff {
        return None;
    }
    let mut p = p;
    p.flag = [0x0D, 0];
    Some(p.bytes(to))
}

/// A text file taken apart the way the tool reads it.
pub struct Txt {
    pub name: String,
    pub ftype: String,
    pub dest: String,
    pub mode: usize,
    pub model: String,
    pub text: String,
}
pub fn parse_txt(b: &[u8]) -> Option<Txt> {
    let s = std::str::from_utf8(b).ok()?;
    let l: Vec<&str> = s.lines().collect();
    if l.len() < 6 {
        return None;
    }
    Some(Txt {
        name: l[0].into(),
        ftype: l[2].into(),
        dest: l[3].into(),
        mode: MODES.iter().position(|m| *m == l[4])?,
        model: model(l[5]).name.into(),
        text: l[6..].join("\n"),
    })
}

/// What the json file says, checked against the bytes it carries.
pub fn json_bytes(j: &J) -> Option<(Vec<u8>, String)> {
    let part = |k: &str| j.get(k).and_then(|x| x.get("bytes")).and_then(|x| x.bytes());
    let (h, m, b, c) = (part("header")?, part("metadata")?, part("body")?, part("checksum")?);
    let e = if m.len() == 19 { "8xp" } else { "83p" };
    Some(([h, m, b, c].concat(), e.to_string()))
}
pub fn json_agrees(j: &J) -> Result<(), String> {
    let (bytes, e) = json_bytes(j).ok_or("sections missing")?;
    let p = Prog::parse(&bytes, &e).ok_or("too short")?;
    let h = j.get("header").unwrap();
    let m = j.get("metadata").unwrap();
    let mode = MODE_JSON
        .iter()
        .position(|x| *x == j.gstr("display_mode"))
        .ok_or_else(|| format!("display mode {:?}", j.gstr("display_mode")))?;
    let want = |what: &str, got: String, exp: String| {
        if got != exp {
            Err(format!("{} says {:?}, the bytes say {:?}", what, got, exp))
        } else {
            Ok(())
        }
    };
    want("header.comment", h.gstr("comment"), latin(&p.comment))?;
    want("metadata.name", m.gstr("name"), p.name_s())?;
    want("metadata.destination", m.gstr("destination"), p.dest_s().into())?;
    want("metadata.file_type", m.gstr("file_type"), p.ftype_s().replace(' ', ""))?;
    let le = |i: usize| bytes[i] as i64 | (bytes[i + 1] as i64) << 8;
    let c = 55 + meta_len(&e) - 4;
    let long = meta_len(&e) == 19;
    let sum = j.get("checksum").map(|x| x.gint("value")).unwrap_or(-1);
    for (what, got, exp) in [
        ("header.product_id", h.gint("product_id"), p.product as i64),
        ("header.metadata_and_body_length", h.gint("metadata_and_body_length"), le(53)),
        ("metadata.flag", m.gint("flag"), bytes[55] as i64),
        ("metadata.unknown_byte", m.gint("unknown_byte"), bytes[56] as i64),
        ("metadata.body_and_checksum_length", m.gint("body_and_checksum_length"), le(57)),
        ("metadata.version", m.gint("version"), if long { bytes[55 + 13] as i64 } else { 0 }),
        ("metadata.body_and_checksum_length_copy", m.gint("body_and_checksum_length_copy"), le(c)),
        ("metadata.body_length", m.gint("body_length"), le(c + 2)),
        ("checksum.value", sum, le(bytes.len() - 2)),
    ] {
        want(what, got.to_string(), exp.to_string())?;
    }
    want("header.signature", h.gstr("signature"), p.sig.iter().map(|b| *b as char).collect())?;
    want("header.signature_extra", format!("{:?}", h.get("signature_extra").and_then(|x| x.bytes())), format!("{:?}", Some(&bytes[8..10])))?;
    let model_name = j.get("model").map(|x| x.gstr("model")).unwrap_or_default();
    let md = model(&model_name);
    if md.name != model_name {
        return Err(format!("model {:?} is not one", model_name));
    }
    want("model (as the header can express it)", header_model(&model_name).into(), p.model().map(|x| x.name).unwrap_or("?").into())?;
    let text = j.get("body").map(|x| x.gstr("translation")).unwrap_or_default();
    match decode(&p.body, md.order, mode) {
        Some(t) => want("body.translation", text, t)?,
        None => return Err("the body does not decode for its model".into()),
    }
    Ok(())
}

/// print_bytes as documented: hexadecimal, sixteen to a line.
pub fn hexdump(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        s.push_str(&format!("{:02X}", x));
        s.push_str(if i % 16 == 15 { "\n" } else { ", " });
    }
    s + "\n\n"
}

fn listing(order: u32, mode: usize) -> &'static Vec<(String, Vec<u8>)> {
    type L = BTreeMap<(u32, usize), Vec<(String, Vec<u8>)>>;
    static T: OnceLock<L> = OnceLock::new();
    &T.get_or_init(|| {
        let mut out = L::new();
        for o in [10, 20, 30, 40, 45, 50, 60, LATEST] {
            for m in 0..3 {
                let mut v: Vec<(String, Vec<u8>)> = table(o).iter().map(|(k, t)| (t.text[m].clone(), k.clone())).collect();
                // equal texts: fewer bytes first, then lower bytes
                v.sort_by(|a, b| (a.0.len(), a.1.len(), &a.1).cmp(&(b.0.len(), b.1.len(), &b.1)));
                out.insert((o, m), v);
            }
        }
        out
    })[&(order, mode)]
}

/// Can this text be tokenised (the tool refuses text it has no tokens for)?
pub fn encode(text: &str, order: u32, mode: usize, enc: &str) -> Option<Vec<u8>> {
    let toks = listing(order, mode);
    let text = text.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ");
    let longest = |s: &str| {
        let mut best: Option<&(String, Vec<u8>)> = None;
        for t in toks.iter().rev() {
            if best.map(|b| t.0.len() < b.0.len()).unwrap_or(false) {
                break;
            }
            if !t.0.is_empty() && s.starts_with(&t.0) {
                best = Some(t);
            }
        }
        best
    };
    let shortest = |s: &str| toks.iter().find(|t| s.starts_with(&t.0));
    let mut out = Vec::new();
    for (i, line) in text.split('\n').enumerate() {
        if i > 0 {
            out.push(0x3F);
        }
        let mut s = line;
        let mut min = enc == "min";
        let mut last: Vec<u8> = vec![];
        while !s.is_empty() {
            let t = if min { shortest(s) } else { longest(s) }?;
            if t.0.is_empty() {
                return None;
            }
            if enc == "smart" {
                if last == [0x5F] || last == [0xEB] {
                    min = false;
                } else if t.1 == [0x2A] {
                    min = true;
                } else if t.1 == [0x04] || !t.0.chars().all(|c| c.is_ascii_alphabetic()) {
                    min = false;
                    last.clear();
                }
            }
            out.extend(&t.1);
            last = t.1.clone();
            s = &s[t.0.len()..];
        }
    }
    Some(out)
}

/// A json file as the tool writes it.
pub fn to_json(p: &Prog, e: &str, mode: usize) -> Option<J> {
    use crate::scenario::obj;
    let b = p.bytes(e);
    let ml = meta_len(e);
    let arr = |x: &[u8]| J::Arr(x.iter().map(|c| J::Int(*c as i64)).collect());
    let le = |i: usize| J::Int(b[i] as i64 | (b[i + 1] as i64) << 8);
    let m = p.model()?;
    let c = 55 + ml - 4;
    Some(obj(vec![
        (
            "header",
            obj(vec![
                ("bytes", arr(&b[..55])),
                ("signature", J::Str(latin(&p.sig))),
                ("signature_extra", arr(&p.sig2)),
                ("product_id", J::Int(p.product as i64)),
                ("comment", J::Str(latin(&p.comment))),
                ("metadata_and_body_length", le(53)),
            ]),
        ),
        (
            "metadata",
            obj(vec![
                ("bytes", arr(&b[55..55 + ml])),
                ("flag", J::Int(b[55] as i64)),
                ("unknown_byte", J::Int(b[56] as i64)),
                ("body_and_checksum_length", le(57)),
                ("file_type", J::Str(p.ftype_s().replace(' ', ""))),
                ("name", J::Str(p.name_s())),
                ("version", J::Int(p.version as i64)),
                ("destination", J::Str(p.dest_s().into())),
                ("body_and_checksum_length_copy", le(c)),
                ("body_length", le(c + 2)),
            ]),
        ),
        ("body", obj(vec![("bytes", arr(&p.body)), ("translation", J::Str(p.text(mode)?))])),
        ("checksum", obj(vec![("bytes", arr(&b[b.len() - 2..])), ("value", le(b.len() - 2))])),
        ("display_mode", J::s(MODE_JSON[mode])),
        (
            "model",
            obj(vec![
                ("model", J::s(m.name)),
                ("signature", J::s(m.sig)),
                ("product_id", J::Int(m.product as i64)),
                ("language", J::s(m.lang)),
            ]),
        ),
    ]))
}
