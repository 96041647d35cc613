//! What a command line asks for, read the way the help text says.

use crate::fs::Fs;
use crate::json::J;
use crate::model::*;
use crate::scenario::ProcSpec;

#[derive(Clone, Debug)]
pub struct Cmd {
    pub verb: String,
    pub input: String,
    pub output: Option<String>, // convert -o, edits -f
    pub mode: usize,
    pub enc: String,
    pub content: bool,
    pub preview: bool,
    pub mass: bool,
    pub delete_old: bool,
    pub edit: Option<Edit>,
}

pub fn parse(p: &ProcSpec) -> Cmd {
    let a = p.args();
    let has = |s: &str, l: &str| a.iter().any(|x| x == s || x == l);
    let val = |s: &str, l: &str| a.iter().position(|x| x == s || x == l).and_then(|i| a.get(i + 1).cloned());
    let verb = a.get(1).cloned().unwrap_or_default();
    let conv = verb == "convert";
    let edit = match verb.as_str() {
        "rename" => Some(Edit::Rename(val("-n", "--name").unwrap_or_default())),
        "comment" => Some(Edit::Comment(val("-c", "--comment").unwrap_or_default())),
        "lock" => Some(Edit::Lock),
        "unlock" => Some(Edit::Unlock),
        "archive" => Some(Edit::Archive),
        "unarchive" => Some(Edit::Unarchive),
        _ => None,
    };
    let m = val("-d", "--display-mode").unwrap_or_default();
    Cmd {
        input: a.get(2).cloned().unwrap_or_default(),
        output: if conv {
            val("-o", "--output")
        } else if edit.is_some() {
            val("-f", "--new-file")
        } else {
            None
        },
        mode: if conv { MODES.iter().position(|x| *x == m).unwrap_or(1) } else { 1 },
        enc: val("-e", "--encode-mode").unwrap_or_else(|| "smart".into()),
        content: conv && has("-c", "--content"),
        preview: conv && has("-p", "--preview"),
        mass: conv && has("-m", "--mass"),
        delete_old: edit.is_some() && has("-d", "--delete-old"),
        edit,
        verb,
    }
}

/// The program name stored in an input file.
pub fn stored_name(bytes: &[u8], e: &str) -> Option<String> {
    if is_calc(e) {
        return Prog::parse(bytes, e).map(|p| p.name_s());
    }
    match e {
        "txt" => std::str::from_utf8(bytes).ok()?.lines().next().map(|s| s.to_string()),
        "json" => J::parse(std::str::from_utf8(bytes).ok()?).ok()?.get("metadata").map(|m| m.gstr("name")),
        _ => None,
    }
}

pub fn join(dir: &str, name: &str) -> String {
    if dir.ends_with('/') {
        format!("{}{}", dir, name)
    } else {
        format!("{}/{}", dir, name)
    }
}

impl Cmd {
    /// For a mass conversion: (input path, input extension, program name, output paths) per input, by path.
    pub fn mass_plan(&self, fs: &Fs) -> Vec<(String, String, String, Vec<String>)> {
        let mut out = vec![];
        let cwd = fs.resolve(0, b"/w", true).ok().and_then(|f| f.ino).unwrap_or(0);
        let dir = match fs.resolve(cwd, self.input.as_bytes(), true) {
            Ok(f) => f.ino,
            _ => None,
        };
        let Some(dir) = dir else { return out };
        let Some(ents) = fs.entries(dir) else { return out };
        for n in ents.keys() {
            let e = ext(n).to_string();
            if !is_calc(&e) && e != "txt" && e != "json" {
                continue;
            }
            let Ok(ns) = std::str::from_utf8(n) else { continue };
            let p = join(&self.input, ns);
            let Some(data) = fs.read(&p) else { continue };
            let Some(name) = stored_name(&data, &e) else { continue };
            let mut outs = vec![];
            if let Some(o) = &self.output {
                if e != "txt" {
                    outs.push(join(o, &format!("{}.txt", name)));
                }
                if e == "txt" || e == "json" {
                    outs.push(join(o, &format!("{}.8xp", name)));
                }
            }
            out.push((p, e, name, outs));
        }
        out
    }

    /// The paths this command is told to write.
    pub fn outputs(&self, fs: &Fs) -> Vec<String> {
        if self.mass {
            return self.mass_plan(fs).into_iter().flat_map(|x| x.3).collect();
        }
        if self.verb == "convert" {
            return self.output.iter().cloned().collect();
        }
        if self.edit.is_some() {
            return vec![self.output.clone().unwrap_or_else(|| self.input.clone())];
        }
        vec![]
    }
}

/// Does `out` hold what converting `src` should give?
pub fn represents(c: &Cmd, src: &[u8], se: &str, out: &[u8], oe: &str, version: &str) -> Result<(), String> {
    let same = |exp: &[u8]| {
        if exp == out {
            return Ok(());
        }
        let at = exp.iter().zip(out).position(|(a, b)| a != b).unwrap_or(exp.len().min(out.len()));
        Err(format!("differs from what it should be at byte {} ({} bytes, expected {})", at, out.len(), exp.len()))
    };
    if is_calc(se) {
        let p = Prog::parse(src, se).ok_or("source")?;
        if is_calc(oe) {
            return same(&relayout(src, se, oe).ok_or("accepted, but too large for the format")?);
        }
        if oe == "txt" {
            return same(p.txt(c.mode).ok_or("accepted, but does not decode")?.as_bytes());
        }
        let j = J::parse(std::str::from_utf8(out).map_err(|_| "not UTF-8")?).map_err(|_| "not json")?;
        let (b, _) = json_bytes(&j).ok_or("sections missing from the json file")?;
        if b != src {
            return Err("the bytes in the json file are not the source's".into());
        }
        if j.gstr("display_mode") != MODE_JSON[c.mode] {
            return Err(format!("json says display mode {} but it is {}", j.gstr("display_mode"), MODE_JSON[c.mode]));
        }
        return json_agrees(&j);
    }
    if se == "txt" {
        let t = parse_txt(src).ok_or("accepted, but not a program text")?;
        let m = model(&t.model);
        let text = t.text.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ");
        if oe == "txt" {
            let nl = if t.text.ends_with('\n') { "\n" } else { "" };
            return same(
                format!(
                    "{}\nCreated by TI-Tools {}\n{}\n{}\n{}\n{}\n{}{}",
                    t.name, version, t.ftype, t.dest, MODES[t.mode], t.model, t.text, nl
                )
                .as_bytes(),
            );
        }
        let (bytes, e) = if oe == "json" {
            let j = J::parse(std::str::from_utf8(out).map_err(|_| "not UTF-8")?).map_err(|_| "not json")?;
            if j.gstr("display_mode") != MODE_JSON[t.mode] {
                return Err(format!("json says display mode {} but the text is {}", j.gstr("display_mode"), MODE_JSON[t.mode]));
            }
            if j.get("model").map(|x| x.gstr("model")).unwrap_or_default() != m.name {
                return Err(format!("the json file does not keep the model {}", m.name));
            }
            json_agrees(&j)?;
            json_bytes(&j).ok_or("sections missing from the json file")?
        } else {
            (out.to_vec(), oe.to_string())
        };
        well_formed(&bytes, &e)?;
        let p = Prog::parse(&bytes, &e).ok_or("too short")?;
        if p.name_s() != t.name {
            return Err(format!("name {:?} became {:?}", t.name, p.name_s()));
        }
        if p.ftype_s() != t.ftype {
            return Err(format!("file type {:?} became {:?}", t.ftype, p.ftype_s()));
        }
        if e == "8xp" && p.dest_s() != t.dest {
            return Err(format!("destination {:?} became {:?}", t.dest, p.dest_s()));
        }
        if (p.product, p.sig.as_slice()) != (m.product, m.sig.as_bytes()) {
            return Err(format!("header of another model than {}", m.name));
        }
        return match decode(&p.body, m.order, t.mode) {
            Some(x) if x == text => Ok(()),
            Some(x) => {
                let at = x.char_indices().zip(text.chars()).find(|((_, a), b)| a != b).map(|((i, _), _)| i).unwrap_or(x.len().min(text.len()));
                Err(format!("the body reads differently from the text at character offset {}", at))
            }
            None => Err("the body does not decode for its model".into()),
        };
    }
    // json
    let j = J::parse(std::str::from_utf8(src).map_err(|_| "source")?).map_err(|_| "source")?;
    let (b, e) = json_bytes(&j).ok_or("source")?;
    if is_calc(oe) {
        return same(&relayout(&b, &e, oe).ok_or("accepted, but too large for the format")?);
    }
    if oe == "json" {
        let k = J::parse(std::str::from_utf8(out).map_err(|_| "not UTF-8")?).map_err(|_| "not json")?;
        return if k == j { Ok(()) } else { Err("not the same json".into()) };
    }
    let mode = MODE_JSON.iter().position(|x| *x == j.gstr("display_mode")).ok_or("source display mode")?;
    let m = j.get("metadata").ok_or("source")?;
    let text = j.get("body").map(|x| x.gstr("translation")).unwrap_or_default();
    let nl = if text.ends_with('\n') { "\n" } else { "" };
    let ft = match m.gstr("file_type").as_str() {
        "LockedProgram" => "Locked Program".to_string(),
        "FlashApplication" => "Flash Application".to_string(),
        x => x.to_string(),
    };
    same(
        format!(
            "{}\n{}\n{}\n{}\n{}\n{}\n{}{}",
            m.gstr("name"),
            j.get("header").map(|h| h.gstr("comment")).unwrap_or_default().replace('\n', " "),
            ft,
            m.gstr("destination"),
            MODES[mode],
            j.get("model").map(|x| x.gstr("model")).unwrap_or_default(),
            text,
            nl
        )
        .as_bytes(),
    )
}
