//! Inputs: programs, files of every format, terminals, and fault plans.

use crate::cmdline;
use crate::kernel::*;
use crate::model::*;
use crate::rng::Rng;
use crate::scenario::*;

pub fn name(r: &mut Rng) -> String {
    let n = if r.pct(25) { 8 } else { r.range(1, 8) };
    (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect()
}
pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let x = name(r);
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

pub fn comment(r: &mut Rng) -> Vec<u8> {
    match r.below(40) {
        0 => return b"\nLocked Program\nArchive\nti\nTI-83".to_vec(),
        1 => return b"two\nlines\r\nand a half\r".to_vec(),
        2 => return b"\ttab \x07 \x7f!".to_vec(),
        _ => {}
    }
    let n = match r.below(5) {
        0 => 0,
        1 => 42,
        _ => r.range(1, 41),
    };
    (0..n).map(|_| if r.pct(8) { *r.pick(&[0xE9u8, 0xFF, 0x9D, b'[', b']', b':', b'%', b'{']) } else { r.range(0x20, 0x7E) as u8 }).collect()
}

/// a body of n tokens a model knows
pub fn body(r: &mut Rng, order: u32, n: usize) -> Vec<u8> {
    let t: Vec<&Vec<u8>> = table(order).keys().collect();
    let mut v = vec![];
    // some programs repeat themselves: indentation, padding, tables
    let runs = r.pct(20);
    for i in 0..n {
        if v.len() > 60_000 {
            break; // the lengths in the file have 16 bits
        }
        if runs && r.pct(10) {
            let t: Vec<u8> = match r.below(6) {
                0 | 1 | 2 => vec![0x29],
                3 => vec![0x3F],
                4 => vec![0x2A],
                _ => r.pick(&t).to_vec(),
            };
            for _ in 0..r.range(1, 12) {
                v.extend(&t);
            }
            if r.pct(40) {
                v.push(0x3F);
            }
            continue;
        }
        match r.below(12) {
            0 | 1 if i > 0 => v.push(0x3F),
            2 => v.push(0x2A),
            3 => v.extend([0x5F, 0x41 + r.below(26) as u8]),
            4 => v.push(0x04),
            5 => v.push(0x30 + r.below(10) as u8),
            6 | 7 => v.push(0x41 + r.below(26) as u8),
            _ => v.extend(r.pick(&t).iter()),
        }
    }
    v
}

pub fn body_len(r: &mut Rng) -> usize {
    match r.below(200) {
        0..=9 => 0,
        10..=19 => 1,
        20..=39 => r.range(100, 400),
        40..=44 => r.range(1000, 5000),
        _ => r.range(2, 60),
    }
}

/// A sound program.
pub fn prog(r: &mut Rng) -> Prog {
    let (product, sig): (u8, &[u8]) = *r.pick(&[
        (0x00u8, &b"**TI83F*"[..]),
        (0x00, b"**TI83F*"),
        (0x00, b"**TI82**"),
        (0x00, b"**TI83**"),
        (0x04, b"**TI83F*"),
        (0x0A, b"**TI83F*"),
        (0x0B, b"**TI83F*"),
        (0x0F, b"**TI83F*"),
        (0x13, b"**TI83F*"),
        (0x1B, b"**TI83F*"),
    ]);
    let m = model_of(product, sig).unwrap();
    let n = if r.below(300) == 0 { r.range(15_000, 40_000) } else { body_len(r) };
    let b = body(r, m.order, n);
    let mut p = Prog::new(&name(r), &b);
    p.sig = sig.to_vec();
    p.product = product;
    p.comment = pad(&comment(r), 42);
    p.ftype = *r.pick(&[5u8, 5, 5, 6, 6, 0x17, 0x24]);
    p.dest = *r.pick(&[0u8, 0, 0x80]);
    p.version = if r.pct(20) { r.below(256) as u8 } else { 0 };
    if r.pct(10) {
        // names calculators allow: digits and theta after the first letter
        let s = format!("{}{}", name(r).chars().next().unwrap(), r.below(1000));
        p.name = pad(s.as_bytes(), 8);
    }
    p
}

pub struct Input {
    pub ext: String,
    pub bytes: Vec<u8>,
    pub name: String,
}

pub fn calc(r: &mut Rng) -> Input {
    let mut p = prog(r);
    let e = match r.below(10) {
        0..=5 => "8xp",
        6 | 7 => "83p",
        _ => "82p",
    };
    if e != "8xp" {
        p.dest = 0;
        p.version = 0;
    }
    Input { ext: e.into(), bytes: p.bytes(e), name: p.name_s() }
}

/// A program as text; None if this body cannot be written as text in this mode.
pub fn text_of(r: &mut Rng, p: &Prog, model_name: &str, mode: usize, nm: &str) -> Option<Vec<u8>> {
    let text = decode(&p.body, model(model_name).order, mode)?;
    let nl = if text.ends_with('\n') { "\n" } else { "" };
    let c: String = latin(&comment(r)).chars().filter(|c| !c.is_control() || *c > '\u{9f}').collect();
    let ft = *r.pick(&["Program", "Program", "Locked Program", "Group", "Flash Application"]);
    let d = *r.pick(&["RAM", "RAM", "Archive"]);
    Some(format!("{}\n{}\n{}\n{}\n{}\n{}\n{}{}", nm, c, ft, d, MODES[mode], model_name, text, nl).into_bytes())
}

pub fn txt(r: &mut Rng, mode: usize) -> Input {
    loop {
        let m = r.pick(&MODELS[..]).name;
        let n = body_len(r);
        let b = body(r, model(m).order, n);
        let mut nm = name(r);
        if r.pct(10) {
            nm = nm.to_lowercase();
        }
        if let Some(t) = text_of(r, &Prog::new("A", &b), m, mode, &nm) {
            let pt = parse_txt(&t).unwrap();
            if ["min", "max", "smart"].iter().all(|e| encode(&pt.text, model(m).order, mode, e).is_some()) {
                return Input { ext: "txt".into(), bytes: t, name: nm };
            }
        }
    }
}

pub fn json(r: &mut Rng) -> Input {
    let mut p = prog(r);
    let e = if r.pct(75) { "8xp" } else { "83p" };
    if e != "8xp" {
        p.dest = 0;
        p.version = 0;
    }
    let mode = r.below(3);
    let j = to_json(&p, e, mode).unwrap();
    Input { ext: "json".into(), bytes: j.render(r.pct(80)).into_bytes(), name: p.name_s() }
}

pub fn input(r: &mut Rng) -> Input {
    match r.below(10) {
        0..=4 => calc(r),
        5..=7 => {
            let m = if r.pct(70) { 1 } else { r.below(3) };
            txt(r, m)
        }
        _ => json(r),
    }
}

/// letters-only name, so that every format can carry it
pub fn portable(r: &mut Rng, nm: &str) -> Input {
    let i = match r.below(10) {
        0..=4 => {
            let mut p = prog(r);
            p.name = pad(nm.as_bytes(), 8);
            let e = *r.pick(&["8xp", "8xp", "83p", "82p"]);
            if e != "8xp" {
                p.dest = 0;
                p.version = 0;
            }
            (e.to_string(), p.bytes(e))
        }
        5..=7 => {
            let t = txt(r, 1);
            let s = String::from_utf8(t.bytes).unwrap();
            let rest = s.split_once('\n').unwrap().1.to_string();
            ("txt".to_string(), format!("{}\n{}", nm, rest).into_bytes())
        }
        _ => {
            let mut p = prog(r);
            p.name = pad(nm.as_bytes(), 8);
            let m = r.below(3);
            ("json".to_string(), to_json(&p, "8xp", m).unwrap().render(true).into_bytes())
        }
    };
    Input { ext: i.0, bytes: i.1, name: nm.into() }
}

pub fn mode_args(r: &mut Rng, a: &mut Vec<String>) {
    if r.pct(50) {
        a.push("-d".into());
        a.push(r.pick(&MODES).to_string());
    }
    if r.pct(40) {
        a.push("-e".into());
        a.push(r.pick(&["min", "max", "smart"]).to_string());
    }
}

pub fn edit(r: &mut Rng) -> Edit {
    match r.below(8) {
        0 | 1 => Edit::Rename({
            let n = name(r);
            match r.below(10) {
                0 | 1 => n.to_lowercase(),
                // each letter in its own case
                2 => n.chars().map(|c| if r.pct(50) { c.to_ascii_lowercase() } else { c }).collect(),
                3 => r.pick(&["abcdefgh", "Abcdefgh", "aBCDEFGH", "z", "Z", "ABCDEFGH"]).to_string(),
                _ => n,
            }
        }),
        2 | 3 => Edit::Comment(comment_arg(r)),
        4 => Edit::Lock,
        5 => Edit::Unlock,
        6 => Edit::Archive,
        _ => Edit::Unarchive,
    }
}
pub fn comment_arg(r: &mut Rng) -> String {
    let mut s: String = match r.below(9) {
        0 => "x".repeat(42),
        6 => return r.pick(&["", "", " ", "  x  ", " lead", "trail ", "   "]).to_string(),
        7 => r.pick(&["y", "Y", "-", "--", "-x", "0", "A", "\t", "é", "\u{3b8}\u{3b8}", "yes", "N", "a\nb", "Program", "[", "]"]).to_string(),
        8 => "é".repeat(r.range(1, 21)),
        1 => "é ü [note] (θ)".into(),
        2 => "a [b] c] [".into(),
        _ => latin(&comment(r)).chars().filter(|c| c.is_ascii()).collect(),
    };
    while s.starts_with('-') || s.starts_with('[') || s.is_empty() {
        s = format!("c{}", s.chars().skip(1).collect::<String>());
    }
    s
}
pub fn bad_edit(r: &mut Rng) -> Edit {
    match r.below(5) {
        0 => Edit::Rename("TOOLONGNAME".into()),
        1 => Edit::Rename(r.pick(&["A1", "A B", "AÉ", "A_", "θ", "AB.", "ABCDEFG1"]).to_string()),
        2 => Edit::Rename("ABCDEFGHI".into()),
        3 => Edit::Comment("y".repeat(43)),
        _ => Edit::Comment(format!("{}é", "y".repeat(41))),
    }
}

pub fn s(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
pub fn run(a: &[String]) -> ProcSpec {
    cmdb(&a.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>())
}

/// Chance and circumstances that must not matter.
pub fn circumstances(r: &mut Rng, p: &mut ProcSpec) {
    p.hash_seed = r.next();
    p.pid = 2 + r.below(1 << 22) as i64;
    if r.pct(50) {
        p.list_seed = r.next() | 2;
    }
    if r.pct(30) {
        p.rchunk = *r.pick(&[1u32, 3, 17, 100, 4096]);
    }
    if r.pct(30) {
        p.wchunk = *r.pick(&[1u32, 7, 50, 1000]);
    }
    if r.pct(25) {
        p.eintr = r.range(2, 9) as u32;
    }
    if r.pct(30) {
        p.skew = r.range(0, 4_000_000_000) as i64 - 2_000_000_000;
    }
    if r.pct(if looked_at().is_empty() { 40 } else { 75 }) {
        p.env = environment(r);
    }
}

/// What a login leaves in the environment, and which streams are a terminal.
pub fn session(r: &mut Rng) -> (Vec<Vec<u8>>, u8) {
    let mut v: Vec<Vec<u8>> = ["HOME=/w/home", "USER=me", "LOGNAME=me", "SHELL=/bin/bash", "PWD=/w", "LANG=en_US.UTF-8", "TERM=xterm-256color", "PATH=/usr/bin:/bin"]
        .iter()
        .map(|x| x.as_bytes().to_vec())
        .collect();
    if r.pct(50) {
        for x in ["XDG_CONFIG_HOME=/w/home/.config", "XDG_CACHE_HOME=/w/home/.cache", "TMPDIR=/tmp"] {
            v.push(x.as_bytes().to_vec());
        }
    }
    (v, *r.pick(&[7u8, 7, 7, 0, 1, 2, 3, 4, 6]))
}

/// Settings of the user's shell and system.
pub fn environment(r: &mut Rng) -> Vec<Vec<u8>> {
    let all: [&[&str]; 16] = [
        &["HOME=/root", "HOME=/w", "HOME=/nowhere", "HOME="],
        &["USER=root", "USER=me", "LOGNAME=you"],
        &["TMPDIR=/tmp", "TMPDIR=/w", "TMPDIR=/nowhere", "TMPDIR=/w/o"],
        &["LANG=C", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANG=POSIX", "LANG=fr_FR.UTF-8", "LC_ALL=es_ES.UTF-8", "LANGUAGE=fr:de", "LC_CTYPE=ja_JP.UTF-8"],
        &["TERM=dumb", "TERM=xterm-256color"],
        &["NO_COLOR=1", "CLICOLOR_FORCE=1", "CLICOLOR=0"],
        &["COLUMNS=20", "COLUMNS=500", "LINES=3"],
        &["TZ=Asia/Tokyo", "TZ=UTC"],
        &["PWD=/elsewhere", "PWD=/w"],
        &["CI=true", "DEBUG=1", "VERBOSE=1", "RUST_LOG=trace"],
        &["XDG_CONFIG_HOME=/w/conf", "XDG_CACHE_HOME=/w", "XDG_RUNTIME_DIR=/w"],
        &["EDITOR=vi", "PAGER=less"],
        &["HOSTNAME=a", "HOSTNAME=b", "COMPUTERNAME=c"],
        &["TI_TOOLS_MODE=pretty", "TI_TOOLS_YES=1", "FORCE=1", "YES=1"],
        &["SHELL=/bin/sh", "SHLVL=3"],
        &["POSIXLY_CORRECT=1", "MALLOC_PERTURB_=7"],
    ];
    let mut v: Vec<Vec<u8>> = (0..r.range(1, 6))
        .map(|_| {
            let one = *r.pick(&all);
            r.pick(one).as_bytes().to_vec()
        })
        .collect();
    if !looked_at().is_empty() && r.pct(80) {
        v = vec![setting(r)];
    }
    v
}

/// Names of settings the program under test was seen to look at.
pub static LOOKED_AT: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
pub fn looked_at() -> &'static [Vec<u8>] {
    LOOKED_AT.get().map(|v| v.as_slice()).unwrap_or(&[])
}
/// One of them with some value.
pub fn setting(r: &mut Rng) -> Vec<u8> {
    let n = r.pick(looked_at()).clone();
    let v: &[u8] = r.pick::<&[u8]>(&[
        b"", b"0", b"1", b"y", b"yes", b"true", b"n", b"C", b"fr_FR.UTF-8", b"fr", b"en", b"de_DE", b"20", b"40", b"500", b"-1", b"pretty", b"ti", b"accessible", b"min", b"max", b"dumb", b"always",
        b"never", b"/w/o", b"/nowhere", b"x", b"\xff",
    ]);
    [&n[..], b"=", v].concat()
}

pub fn data_classes() -> [Class; 5] {
    [Class::Data, Class::Sync, Class::Create, Class::Rename, Class::Unlink]
}

/// One fault aimed at one of the calls made by a fault-free run.
pub fn fault(r: &mut Rng, ops: &[OpRec], kill: bool, allow: &dyn Fn(&OpRec) -> bool) -> Option<Fault> {
    let heavy = data_classes();
    // mostly where saves happen
    let cand: Vec<usize> = (0..ops.len()).filter(|i| allow(&ops[*i])).collect();
    if cand.is_empty() {
        return None;
    }
    let hv: Vec<usize> = cand.iter().copied().filter(|i| heavy.contains(&ops[*i].class)).collect();
    let at = if !hv.is_empty() && r.pct(70) { *r.pick(&hv) } else { *r.pick(&cand) };
    let o = &ops[at];
    let e = *r.pick(o.class.errnos());
    let roll = r.below(100);
    let kind = if kill && roll < 35 {
        match o.class {
            Class::Data if o.n > 1 && r.pct(70) => FaultKind::TornKill(r.range(0, o.n - 1) as u32),
            _ => {
                if r.pct(50) {
                    FaultKind::Kill
                } else {
                    FaultKind::KillAfter
                }
            }
        }
    } else if o.class == Class::Data && o.n > 1 && roll < 55 {
        FaultKind::Short(r.range(1, o.n - 1) as u32)
    } else if o.class == Class::Data && roll < 62 {
        FaultKind::Doom
    } else if roll < 70 {
        FaultKind::Sticky(o.class, e)
    } else {
        FaultKind::Err(e)
    };
    Some(Fault { at: at as u32, kind })
}

pub fn faults(r: &mut Rng, ops: &[OpRec], n: usize, kill: bool, allow: &dyn Fn(&OpRec) -> bool) -> Vec<Fault> {
    let mut v: Vec<Fault> = (0..n).filter_map(|_| fault(r, ops, kill, allow)).collect();
    v.sort_by_key(|f| f.at);
    // a torn or short write followed by a failing cleanup and the like: also hit calls that come later
    // than the fault-free run had, as error handling makes its own calls
    if n > 1 && r.pct(40) && !ops.is_empty() {
        let at = (v.last().map(|f| f.at).unwrap_or(0) as usize + r.range(1, 4)) as u32;
        v.push(Fault { at, kind: FaultKind::Err(*r.pick(&[crate::fs::EIO, crate::fs::EACCES])) });
    }
    v
}
pub fn no_std(o: &OpRec) -> bool {
    !matches!(o.class, Class::Stdin | Class::Stdout | Class::Stderr)
}

/// A save command on one input: the scenario with one step, answered yes. `what` for the record.
pub fn save_job(r: &mut Rng, prop: &str) -> Scn {
    match r.below(10) {
        0..=4 => convert_job(r, prop),
        5..=7 => edit_job(r, prop),
        _ => mass_job(r, prop, false),
    }
}

pub fn out_ext(r: &mut Rng, ie: &str) -> String {
    loop {
        let e = *r.pick(&["8xp", "8xp", "83p", "82p", "txt", "txt", "json"]);
        if e != ie || r.pct(30) {
            return e.into();
        }
    }
}

pub fn old_content(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![],
        1 => b"previous content\n".to_vec(),
        2 => prog(r).bytes("8xp"),
        _ => vec![0x55; r.range(1, 3000)],
    }
}

pub fn convert_job(r: &mut Rng, prop: &str) -> Scn {
    let mut scn = Scn::new(prop, "convert");
    let i = input(r);
    let mut inp = format!("in.{}", i.ext);
    place_input(r, &mut scn, &mut inp, &i);
    let e = out_ext(r, &i.ext);
    let mut out = match r.below(10) {
        8 if r.pct(50) => out_name(r, &e),
        9 if r.pct(50) => match r.below(4) {
            0 => {
                // another file system
                scn.dir("/w/mnt");
                format!("mnt/out.{}", e)
            }
            1 => format!("/tmp/out.{}", e),
            2 => {
                scn.dir("/v");
                format!("../v/out.{}", e)
            }
            _ => format!("../out.{}", e),
        },
        0 => {
            scn.dir("/w/sub");
            format!("sub/out.{}", e)
        }
        1 => format!("/w/o.{}", e),
        2 => {
            scn.dir("/w/sub");
            format!("./sub/../out.{}", e)
        }
        _ => format!("out.{}", e),
    };
    match r.below(8) {
        0 | 1 | 2 => {
            let mut c = old_content(r);
            // what is there may be close to what is coming
            if r.pct(12) {
                c = i.bytes.clone();
                if r.pct(50) && !c.is_empty() {
                    let at = r.below(c.len());
                    c[at] ^= 1;
                }
            }
            scn.file(&abs(&out), &c);
        }
        3 if r.pct(30) => {
            // another name of the input, or of a bystander
            out = format!("hard.{}", e);
            if r.pct(60) {
                scn.hard(&format!("/w/{}", out), &format!("/w/{}", inp));
            } else {
                scn.file("/w/keep.dat", b"linked twice");
                scn.hard(&format!("/w/{}", out), "/w/keep.dat");
            }
        }
        3 if r.pct(30) => {
            // a link that leads nowhere yet
            out = format!("ln.{}", e);
            scn.link(&format!("/w/{}", out), &format!("t/real.{}", e));
            if r.pct(60) {
                scn.dir("/w/t");
            }
        }
        3 => {
            let c = old_content(r);
            scn.file(&format!("/w/t/real.{}", e), &c);
            out = format!("ln.{}", e);
            scn.link(&format!("/w/{}", out), &format!("t/real.{}", e));
        }
        4 => {
            scn.dir("/w/d");
            scn.link("/w/dl", "d");
            out = format!("dl/out.{}", e);
        }
        _ => {}
    }
    if r.pct(10) && i.ext == e && !inp.starts_with("ro/") {
        out = inp.clone();
    }
    bystanders(r, &mut scn);
    around(r, &mut scn, &[&inp, &out], true);
    let mut a = s(&["convert", &inp, "-o", &out]);
    mode_args(r, &mut a);
    if r.pct(15) {
        a.push("-p".into());
    }
    if r.pct(10) {
        a.push("-c".into());
    }
    scn.steps.push(one(run(&a).yes()));
    scn
}

/// Names people give files.
pub fn out_name(r: &mut Rng, e: &str) -> String {
    match r.below(12) {
        0 => format!("{}.{}", "n".repeat(r.range(240, 255) - e.len() - 1), e),
        1 => format!("{}.{}", "é".repeat((254 - e.len()) / 2), e),
        2 => format!("my out.{}", e),
        3 => format!("[out].{}", e),
        4 => format!("{}.{}", r.pick(&["é-θ", "€", "a日本", "😀", "o€", "e\u{301}"]), e),
        5 => format!(".out.{}", e),
        6 => format!("out.tar.{}", e),
        7 => format!("OUT.{}", e),
        8 => format!("out..{}", e),
        9 => format!("o.{}.{}", r.pick(&["8xp", "txt", "json", "tmp", "bak"]), e),
        10 => format!("{{}}%s\\n.{}", e),
        _ => format!("~.{}", e),
    }
}

/// The input at its path: mostly a plain file.
pub fn place_input(r: &mut Rng, scn: &mut Scn, inp: &mut String, i: &Input) {
    let path = format!("/w/{}", inp);
    match r.below(30) {
        0 => {
            scn.file(&format!("/w/src/real.{}", i.ext), &i.bytes);
            scn.link(&path, &format!("src/real.{}", i.ext));
        }
        1 => {
            scn.file(&format!("/w/src/real.{}", i.ext), &i.bytes);
            scn.hard(&path, &format!("/w/src/real.{}", i.ext));
        }
        2 => scn.disk.push(DiskEnt::File(path.into_bytes(), std::sync::Arc::new(i.bytes.clone()), 0o444)),
        3 => {
            *inp = out_name(r, &i.ext);
            scn.file(&format!("/w/{}", inp), &i.bytes);
        }
        4 => {
            // in a directory that cannot be written
            scn.file(&format!("/w/ro/in.{}", i.ext), &i.bytes);
            scn.disk.push(DiskEnt::Dir(b"/w/ro".to_vec(), 0o555));
            *inp = format!("ro/in.{}", i.ext);
        }
        5 => {
            scn.file(&format!("/w/mnt/in.{}", i.ext), &i.bytes);
            *inp = format!("mnt/in.{}", i.ext);
        }
        _ => scn.file(&path, &i.bytes),
    }
}

pub fn abs(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    let full = if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}

/// Files whose names are close to the path's: what a program might take for its own leftovers or backups.
pub fn neighbours(r: &mut Rng, scn: &mut Scn, path: &str, programs: bool, used: &[&str]) {
    let fs = scn.build();
    let real = |p: &str| fs.canonical(0, p.as_bytes()).ok().and_then(|x| String::from_utf8(x).ok());
    let whole = abs(path);
    let (dir, name) = whole.rsplit_once('/').unwrap();
    let full = match (real(&whole), real(if dir.is_empty() { "/" } else { dir })) {
        (Some(t), _) if r.pct(50) => t,
        (_, Some(d)) => format!("{}/{}", if d == "/" { "" } else { &d }, name),
        _ => return,
    };
    let (dir, name) = full.rsplit_once('/').unwrap();
    let (stem, ext) = name.rsplit_once('.').unwrap_or((name, ""));
    let sfx = ["tmp", "temp", "bak", "backup", "old", "orig", "new", "part", "partial", "lock", "lck", "swp", "save", "rescue", "journal", "log", "out", "0", "1", "4242", "77", "1000", "err", "md5", "wip", "del", "trash"];
    for _ in 0..r.range(1, 6) {
        let x = *r.pick(&sfx);
        let n = match r.below(14) {
            0 | 1 | 2 => format!("{}.{}", stem, x),
            3 | 4 | 5 => format!("{}.{}", name, x),
            6 => format!(".{}.{}", name, x),
            7 => format!(".{}.{}", stem, x),
            8 => r.pick(&[format!("{}~", name), format!("#{}#", name), format!(".#{}", name), format!("~{}", name), format!(".{}", name), format!("{}_", name)]).clone(),
            9 => stem.to_string(),
            10 => x.to_string(),
            11 => format!(".{}", x),
            12 if programs => format!("{}{}.{}", stem, r.pick(&["_old", " (1)", "1", "-copy", "_new", "_backup", ".bak", ".tmp", "_2"]), ext),
            13 if programs => format!("{}.{}", stem, r.pick(&["8xp", "83p", "82p", "txt", "json"])),
            _ => format!("{}.{}", name, x),
        };
        let f = format!("{}/{}", dir, n);
        // not where the output itself goes
        if used.iter().any(|u| {
            let u = abs(u);
            let (d, n) = u.rsplit_once('/').unwrap();
            real(&u).as_ref() == Some(&f) || real(if d.is_empty() { "/" } else { d }).map(|d| format!("{}/{}", if d == "/" { "" } else { &d }, n)).as_ref() == Some(&f)
        }) {
            continue;
        }
        let program = matches!(n.rsplit_once('.').map(|x| x.1).unwrap_or(""), "8xp" | "83p" | "82p" | "txt" | "json");
        if (program && !programs) || n.is_empty() || n == "." || scn.build().resolve(0, f.as_bytes(), false).map(|x| x.ino.is_some()).unwrap_or(true) {
            continue;
        }
        match r.below(12) {
            0 => scn.dir(&f),
            1 => scn.link(&f, "notes.md"),
            2 | 3 if programs => {
                let c = calc(r);
                scn.file(&f, &c.bytes)
            }
            4 => scn.file(&f, b""),
            _ => scn.file(&f, format!("mine {}", r.below(1000)).as_bytes()),
        };
    }
}

pub fn around(r: &mut Rng, scn: &mut Scn, paths: &[&str], programs: bool) {
    for p in paths {
        if r.pct(25) {
            neighbours(r, scn, p, programs, paths);
        }
    }
}

pub fn bystanders(r: &mut Rng, scn: &mut Scn) {
    if r.pct(40) {
        scn.file("/w/notes.md", b"do not touch");
    }
    if r.pct(25) {
        let c = calc(r);
        scn.file("/w/other.8xp", &c.bytes);
    }
    if r.pct(20) {
        scn.file("/w/out.tmp", b"x");
    }
    if r.pct(15) {
        scn.file("/w/out", b"no extension");
        scn.file("/w/in", b"no extension");
    }
    if r.pct(10) {
        scn.file("/w/in.bak", b"backup");
        scn.file("/tmp/keep.txt", b"k");
    }
}

pub fn edit_job(r: &mut Rng, prop: &str) -> Scn {
    let mut scn = Scn::new(prop, "edit");
    let i = calc(r);
    let mut inp = format!("p.{}", i.ext);
    place_input(r, &mut scn, &mut inp, &i);
    let ed = edit(r);
    let mut a = ed.args(&inp);
    let mut paths = vec![inp.clone()];
    let ro = inp.starts_with("ro/");
    if ro || r.pct(55) {
        let e = if r.pct(75) { i.ext.clone() } else { out_ext(r, &i.ext) };
        let mut out = format!("new.{}", e);
        match r.below(40) {
            0 | 1 => out = out_name(r, &e),
            2 => {
                scn.dir("/w/mnt");
                out = format!("mnt/new.{}", e);
            }
            3 => out = format!("/tmp/new.{}", e),
            _ => {}
        }
        if r.pct(40) {
            let c = old_content(r);
            scn.file(&abs(&out), &c);
        }
        paths.push(out.clone());
        a.extend(s(&["-f", &out]));
        if !ro && r.pct(50) {
            a.push("-d".into());
        }
    }
    bystanders(r, &mut scn);
    around(r, &mut scn, &paths.iter().map(|x| x.as_str()).collect::<Vec<_>>(), true);
    scn.steps.push(one(run(&a).yes()));
    scn
}

/// Mass conversion of a directory of sound inputs with distinct names.
pub fn mass_job(r: &mut Rng, prop: &str, plain: bool) -> Scn {
    let mut scn = Scn::new(prop, "mass");
    // now and then a directory with very many programs
    let many = r.below(250) == 0;
    let n = if many {
        r.range(33, 140)
    } else if r.pct(10) {
        0
    } else {
        r.range(1, 5)
    };
    let nm = names(r, n + 1);
    let odd = r.pct(25);
    let same = r.pct(25);
    let (ind, mut outd) = if same { ("d", "d") } else { ("d", "o") };
    if !same && r.pct(4) {
        // another file system
        scn.dir("/w/mnt");
        outd = *r.pick(&["mnt", "mnt/o", "/tmp/o", "/tmp"]);
    }
    scn.dir("/w/d");
    let mut taken: Vec<(String, String)> = vec![];
    for (k, x) in nm.iter().take(n).enumerate() {
        let i = portable(r, x);
        let mut f = if r.pct(60) { x.clone() } else { format!("f{}", k) };
        // files that differ only in their extensions
        let twin = r.pick(&["s", "t"]).to_string();
        if odd && r.pct(50) {
            // names a shell or a file manager would treat specially
            f = match r.below(10) {
                0 => format!(".{}", x),
                1 => format!(" {} ", x),
                2 => format!("{}.{}", x, r.pick(&["8xp", "txt", "json", "tmp", "bak", "b"])),
                3 => format!("{}{}θ", r.pick(&["é", "€", "😀", "a日"]), x),
                4 => format!("-{}", x),
                5 => format!("[{}]", x),
                6 => format!("{}~", x),
                7 => format!("#{}#", x),
                8 => format!("..{}", x),
                _ => format!("{}...", x),
            };
        } else if !many && r.pct(40) && !taken.contains(&(twin.clone(), i.ext.clone())) {
            taken.push((twin.clone(), i.ext.clone()));
            f = twin;
        }
        let at = format!("/w/d/{}.{}", f, i.ext);
        match r.below(40) {
            0 => {
                // a link to a program elsewhere
                scn.file(&format!("/w/lib/{}.{}", f, i.ext), &i.bytes);
                scn.link(&at, &format!("../lib/{}.{}", f, i.ext));
            }
            1 => scn.disk.push(DiskEnt::File(at.into_bytes(), std::sync::Arc::new(i.bytes.clone()), 0o444)),
            2 => {
                scn.file(&format!("/w/lib/{}.{}", f, i.ext), &i.bytes);
                scn.hard(&at, &format!("/w/lib/{}.{}", f, i.ext));
            }
            _ => scn.file(&at, &i.bytes),
        }
    }
    if r.pct(40) {
        scn.file("/w/d/readme.md", b"# hi");
        scn.file("/w/d/noext", b"\0\0");
    }
    if r.pct(20) {
        scn.file("/w/d/subdir/inner.8xp", &Prog::new(&nm[n], &[0x31]).bytes("8xp"));
    }
    if r.pct(10) {
        scn.file("/w/d/UP.8XP", b"upper case extension");
        scn.file("/w/d/x.8xp.bak", b"bak");
    }
    let outs = {
        let fs = scn.build();
        let c = cmdline::parse(&run(&s(&["convert", ind, "-m", "-o", outd])));
        c.outputs(&fs)
    };
    if !same && r.pct(75) {
        scn.dir(&abs(outd));
        for o in &outs {
            if r.pct(if plain { 15 } else { 30 }) {
                let c = old_content(r);
                scn.file(&abs(o), &c);
            }
        }
        if r.pct(20) {
            scn.file(&abs(&format!("{}/unrelated.txt", outd)), b"unrelated");
        }
    }
    bystanders(r, &mut scn);
    if !outs.is_empty() {
        let o = r.pick(&outs).clone();
        around(r, &mut scn, &[&o], false);
    }
    let outd = if r.pct(20) && !outd.starts_with('/') { format!("./{}/", outd) } else { outd.to_string() };
    let mut a = s(&["convert", ind, "-m", "-o", &outd]);
    mode_args(r, &mut a);
    if r.pct(12) {
        a.push(r.pick::<&str>(&["-p", "--preview"]).to_string());
    }
    if r.pct(12) {
        a.push(r.pick::<&str>(&["-c", "--content"]).to_string());
    }
    scn.steps.push(one(run(&a).yes()));
    scn
}
