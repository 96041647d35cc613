//! One generator and one check per property. A check works from the scenario alone, so that replaying the
//! scenario file reproduces the verdict.

use crate::cmdline::{self, Cmd};
use crate::exec::*;
use crate::fs::*;
use crate::gen::{self, *};
use crate::json::J;
use crate::kernel::*;
use crate::model::*;
use crate::rng::*;
use crate::scenario::*;
use crate::server::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C21", "C22",
];

type Scns = Result<Vec<Scn>, Fail>;

/// The same command line in other words: long option names, options in another order.
fn respell(r: &mut Rng, argv: &mut Vec<Vec<u8>>) {
    let long = |verb: &[u8], o: &[u8]| -> Option<(&'static str, bool)> {
        Some(match (verb, o) {
            (b"convert", b"-o") => ("--output", true),
            (b"convert", b"-d") => ("--display-mode", true),
            (b"convert", b"-e") => ("--encode-mode", true),
            (b"convert", b"-c") => ("--content", false),
            (b"convert", b"-p") => ("--preview", false),
            (b"convert", b"-m") => ("--mass", false),
            (b"search", b"-t") => ("--type", true),
            (b"rename", b"-n") => ("--name", true),
            (b"comment", b"-c") => ("--comment", true),
            (b"rename" | b"comment" | b"lock" | b"unlock" | b"archive" | b"unarchive", b"-f") => ("--new-file", true),
            (b"rename" | b"comment" | b"lock" | b"unlock" | b"archive" | b"unarchive", b"-d") => ("--delete-old", false),
            _ => return None,
        })
    };
    let verb = argv.get(1).cloned().unwrap_or_default();
    let mut groups: Vec<Vec<Vec<u8>>> = vec![];
    let mut k = 3;
    while k < argv.len() {
        let Some((l, value)) = long(&verb, &argv[k]) else { return };
        let name = if r.pct(60) { l.as_bytes().to_vec() } else { argv[k].clone() };
        let mut g = vec![name];
        if value {
            let Some(v) = argv.get(k + 1) else { return };
            if v.starts_with(b"-") {
                return; // read as an option when it comes first
            }
            g.push(v.clone());
        }
        k += g.len();
        groups.push(g);
    }
    for i in (1..groups.len()).rev() {
        groups.swap(i, r.below(i + 1));
    }
    argv.truncate(3);
    argv.extend(groups.concat());
}

pub fn gen(prop: &str, seed: u64, ctx: &mut Ctx) -> Scns {
    let mut v = gen_plain(prop, seed, ctx)?;
    let mut r = Rng::new(mix(seed, 99));
    if r.pct(25) {
        // a user's session, not a bare process
        let (env, tty) = gen::session(&mut r);
        let path: &[u8] = *r.pick(&[&b"ti-tools"[..], b"/usr/local/bin/ti-tools", b"./ti-tools", b"/w/TI-Tools"]);
        for scn in &mut v {
            if scn.prop != "C05" {
                for p in ["/w/home", "/w/home/.config", "/w/home/.cache"] {
                    scn.dir(p);
                }
                scn.file("/w/home/.profile", b"umask 022\n");
            }
            for p in scn.steps.iter_mut().flat_map(|s| &mut s.procs) {
                p.tty = tty;
                p.argv[0] = path.to_vec();
                if p.env.is_empty() {
                    p.env = env.clone();
                }
            }
        }
    }
    if !gen::looked_at().is_empty() && !matches!(prop, "C05" | "C11" | "C14" | "C15") && r.pct(40) {
        let x = gen::setting(&mut r);
        for p in v.iter_mut().flat_map(|s| &mut s.steps).flat_map(|s| &mut s.procs) {
            p.env.retain(|e| e.split(|c| *c == b'=').next() != x.split(|c| *c == b'=').next());
            p.env.push(x.clone());
        }
    }
    if r.pct(25) {
        let s0 = r.next();
        for scn in &mut v {
            let mut r = Rng::new(s0);
            for st in &mut scn.steps {
                for p in &mut st.procs {
                    respell(&mut r, &mut p.argv);
                }
            }
        }
    }
    Ok(v)
}

/// The settings commands look at, found by running some.
pub fn settings(ctx: &mut Ctx) -> Result<Vec<Vec<u8>>, Fail> {
    let mut all = std::collections::BTreeSet::new();
    let spun = crate::exec::SPUN.load(std::sync::atomic::Ordering::SeqCst);
    for k in 0..12 {
        for prop in ["C04", "C12", "C13", "C21"] {
            if crate::exec::SPUN.load(std::sync::atomic::Ordering::SeqCst) > spun + 1 {
                break;
            }
            for scn in gen_plain(prop, mix(k, 5), ctx)?.into_iter().take(2) {
                for st in &ctx.run(&scn)?.steps {
                    for p in &st.procs {
                        all.extend(p.looked.iter().cloned());
                    }
                }
            }
        }
    }
    // what the standard library looks at when it panics or starts a thread
    Ok(all.into_iter().filter(|n| !n.starts_with(b"RUST_") && !n.is_empty() && !n.contains(&b'=')).collect())
}

fn gen_plain(prop: &str, seed: u64, ctx: &mut Ctx) -> Scns {
    let mut r = Rng::new(seed);
    match prop {
        "C01" => gen01(&mut r, ctx),
        "C02" => gen02(&mut r, ctx),
        "C03" => gen03(&mut r, ctx),
        "C04" => gen04(&mut r, ctx),
        "C05" => gen05(&mut r),
        "C06" => gen06(&mut r, ctx),
        "C07" => gen07(&mut r, ctx),
        "C08" => gen08(&mut r, ctx),
        "C09" => gen09(&mut r, ctx),
        "C10" => gen10(&mut r, ctx),
        "C11" => gen11(&mut r, ctx),
        "C12" => gen12(&mut r, ctx),
        "C13" => gen13(&mut r, ctx),
        "C14" => gen14(&mut r, ctx),
        "C15" => gen15(&mut r, ctx),
        "C16" => gen16(&mut r, ctx),
        "C21" => gen21(&mut r, ctx),
        "C22" => gen22(&mut r, ctx),
        _ => Err(Fail::Harness(format!("no property {}", prop))),
    }
}

pub fn check(scn: &Scn, ctx: &mut Ctx) -> Chk {
    ctx.choose(&scn.par("build"));
    ctx.begin();
    ctx.spun = None;
    let r = match scn.prop.as_str() {
        "C01" => chk01(scn, ctx),
        "C02" => chk02(scn, ctx),
        "C03" => chk03(scn, ctx),
        "C04" => chk04(scn, ctx),
        "C05" => chk05(scn, ctx),
        "C06" => chk06(scn, ctx),
        "C07" => chk07(scn, ctx),
        "C08" => chk08(scn, ctx),
        "C09" => chk09(scn, ctx),
        "C10" => chk10(scn, ctx),
        "C11" => chk11(scn, ctx),
        "C12" => chk12(scn, ctx),
        "C13" => chk13(scn, ctx),
        "C14" => chk14(scn, ctx),
        "C15" => chk15(scn, ctx),
        "C16" => chk16(scn, ctx),
        "C21" => chk21(scn, ctx),
        "C22" => chk22(scn, ctx),
        p => Err(Fail::Harness(format!("no property {}", p))),
    };
    ctx.end(scn);
    // work promised for every input is not done by a command that never ends
    match (&ctx.spun, scn.prop.as_str()) {
        (Some(c), "C04" | "C05" | "C07" | "C08" | "C09" | "C11" | "C13" | "C14" | "C15") if r.is_ok() => bad!("\"{}\" does not come to an end", c),
        _ => r,
    }
}

// ------------------------------------------------------------------------------------------ helpers

fn show(d: &Option<std::sync::Arc<Vec<u8>>>) -> String {
    match d {
        None => "no file".into(),
        Some(d) => format!("{} bytes", d.len()),
    }
}
fn le(p: &[u8]) -> String {
    String::from_utf8_lossy(p).to_string()
}
fn stripped(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
fn success_said(p: &ProcResult) -> bool {
    stripped(&p.out).contains("Successfully")
}
/// the lines the terminal delivered
fn lines_of(p: &ProcResult) -> Vec<String> {
    let all: Vec<u8> = p.asked.iter().flat_map(|a| a.got.clone()).collect();
    String::from_utf8_lossy(&all).split_inclusive('\n').map(|x| x.to_string()).collect()
}
fn is_yes(l: &str) -> bool {
    matches!(l.trim(), "y" | "Y")
}
fn all_yes(p: &ProcResult) -> bool {
    p.asked.iter().all(|a| is_yes(&String::from_utf8_lossy(&a.got)))
}
fn in_dir(path: &[u8], dir: &[u8]) -> bool {
    path == dir || (path.starts_with(dir) && path.get(dir.len()) == Some(&b'/'))
}
/// what the path really names: the directory resolved, the last name kept
fn real(fs: &Fs, path: &str) -> Vec<u8> {
    let cwd = fs.resolve(ROOT, b"/w", true).ok().and_then(|f| f.ino).unwrap_or(ROOT);
    match fs.resolve(cwd, path.as_bytes(), false) {
        Ok(f) => {
            let mut d = fs.abspath(f.dir);
            if d != b"/" {
                d.push(b'/');
            }
            d.extend(&f.name);
            d
        }
        Err(_) => gen::abs(path).into_bytes(),
    }
}
/// where a path leads when links are followed
fn target(fs: &Fs, path: &str) -> Option<Vec<u8>> {
    let cwd = fs.resolve(ROOT, b"/w", true).ok()?.ino?;
    fs.canonical(cwd, path.as_bytes()).ok()
}
fn diff(a: &Tree, b: &Tree) -> Vec<Vec<u8>> {
    let keys: BTreeSet<&Vec<u8>> = a.keys().chain(b.keys()).collect();
    keys.into_iter().filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}
fn names_list(v: &[Vec<u8>]) -> String {
    v.iter().map(|x| le(x)).collect::<Vec<_>>().join(", ")
}
fn cmd0(st: &Step) -> Cmd {
    cmdline::parse(&st.procs[0])
}
/// Same scenario with several fault plans aimed at the last (or given) step's calls.
fn with_faults(r: &mut Rng, base: &Scn, ops: &[OpRec], step: usize, plans: usize, max: usize, kill: bool, allow: &dyn Fn(&OpRec) -> bool) -> Vec<Scn> {
    let mut out = vec![];
    for _ in 0..plans {
        let n = if r.pct(65) { 1 } else { r.range(1, max) };
        let f = faults(r, ops, n, kill, allow);
        if f.is_empty() {
            continue;
        }
        let mut s = base.clone();
        s.steps[step].procs[0].faults = f;
        out.push(s);
    }
    out
}

// ------------------------------------------------------------------------------------------ C01

fn gen01(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = save_job(r, "C01");
    scn.set("seed", &r.next().to_string());
    if r.pct(30) {
        circumstances(r, &mut scn.steps[0].procs[0]);
    }
    let base = ctx.run(&scn)?;
    let ops = base.steps[0].p().ops.clone();
    let mut v = vec![scn.clone()];
    v.extend(with_faults(r, &scn, &ops, 0, 4, 3, true, &|_| true));
    if r.pct(25) {
        let mut s = scn.clone();
        let used = scn.build().used();
        s.cap = Some(used + r.below(400) as u64);
        v.push(s);
    }
    if r.pct(10) {
        let mut s = scn.clone();
        s.steps[0].procs[0].faults.clear();
        s.steps[0].procs[0].alloc = r.range(1, 40_000) as u32;
        v.push(s);
    }
    Ok(v)
}

fn chk01(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    let mut rng = Rng::new(scn.par("seed").parse().unwrap_or(1));
    for (i, st) in run.steps.iter().enumerate() {
        let clean = ctx.clean_from(&st.before, &scn.steps[i])?;
        let c = cmd0(&scn.steps[i]);
        // every path either side knows, read as a reader would
        let mut paths: BTreeSet<Vec<u8>> = BTreeSet::new();
        for t in [st.before.tree(), clean.after.tree()] {
            paths.extend(t.into_iter().filter(|(_, e)| !matches!(e, Ent::Dir)).map(|(p, _)| p));
        }
        for o in c.outputs(&st.before) {
            paths.insert(real(&st.before, &o));
        }
        let allowed: Vec<_> = paths.iter().map(|p| (p, st.before.read_b(p), clean.after.read_b(p))).collect();
        let look = |fs: &Fs, k: usize, how: &str| -> Chk {
            for (p, a, b) in &allowed {
                let now = fs.read_b(p);
                if now != *a && now != *b {
                    bad!(
                        "{} holds {} {} (change {} of the step): neither what it held before ({}) nor the complete new content ({})",
                        le(p), show(&now), how, k, show(a), show(b)
                    );
                }
            }
            Ok(())
        };
        let mut n = st.prefixes(|fs, k| look(fs, k, "when the process is killed"))?;
        look(&st.after, st.journal.len(), "at the end")?;
        n += st.power_losses(&mut rng, 60, |fs, k| look(fs, k, "after a power loss"))?;
        ctx.stats.inspected += n;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

fn terminal(r: &mut Rng) -> Stdin {
    let d = |x: &str| StdinItem::Data(x.as_bytes().to_vec());
    Stdin::Script(match r.below(28) {
        0 => vec![d("n\n")],
        1 => vec![d("N\n")],
        2 => vec![d("yes\n")],
        3 => vec![d("YES\n")],
        4 => vec![d("\n")],
        5 => vec![],
        6 => vec![d("yy\n")],
        7 => vec![StdinItem::Err(EIO)],
        8 => vec![d("no\n"), d("y\n"), d("y\n")],
        9 => vec![d("\n"), d("y\n"), d("y\n"), d("y\n")],
        10 => vec![StdinItem::Data(vec![0xff, 0xfe, b'\n'])],
        11 => vec![d("y"), d("es\n")],
        12 => vec![d("n"), d("\ny\n")],
        13 => vec![d("q\ny\ny\ny\n")],
        14 => vec![StdinItem::Eof, d("y\n"), d("y\n")],
        15 => vec![d("1\n")],
        16 => vec![d("true\n"), d("y\n")],
        17 => vec![StdinItem::Stuck(EAGAIN)],
        18 => vec![d("ny\n")],
        19 => vec![d("maybe y\n"), d("y\n")],
        20 => vec![d("\u{ff59}\n")],
        21 | 22 => {
            // any one key
            let c = (b' ' + r.below(95) as u8) as char;
            vec![d(&format!("{}\n", c)), d(if r.pct(30) { "y\n" } else { "" })]
        }
        23..=26 => {
            let w = *r.pick(&[
                "a", "A", "all", "All", "yes to all", "ya", "o", "oui", "j", "ja", "s", "si", "ok", "OK", "sure", "force", "f", "overwrite", "replace", "Yes", "yEs", "ye", "yep", "y.", "y!", "'y'", "\"y\"", "y y", "Y n", "-y",
                "--yes", "[y]", "y/N", "y\0", "\x1by", "y\x08", "n\x08y", "\u{feff}y", "y\u{200b}", "\u{443}", "ÿ", "Ý", "on", "t", "1", "+", "skip", "d", "i", "yyyy", "default", "\x04",
            ]);
            vec![d(&format!("{}\n", w)), d(if r.pct(30) { "y\n" } else { "" })]
        }
        _ => vec![d("yn\n"), d("Y\n")],
    })
}

/// The output goes into a directory that is not there.
fn nowhere(r: &mut Rng, scn: &mut Scn) {
    if cmd0(&scn.steps[0]).mass {
        return;
    }
    let a = &mut scn.steps[0].procs[0].argv;
    if let Some(at) = a.iter().position(|x| x == b"-o" || x == b"-f") {
        let e = String::from_utf8_lossy(&a[at + 1]).rsplit_once('.').map(|x| x.1.to_string()).unwrap_or_default();
        let d = *r.pick(&["nodir", "nodir/deep", "./nodir", "/w/nodir", "nodir/a/b/c"]);
        a[at + 1] = format!("{}/x.{}", d, e).into_bytes();
    }
}

fn gen02(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut v = vec![];
    if r.pct(60) {
        let mut scn = if r.pct(60) { convert_job(r, "C02") } else { edit_job(r, "C02") };
        scn.kind = format!("{}-answers", scn.kind);
        if r.pct(4) {
            nowhere(r, &mut scn);
            return Ok(vec![scn]);
        }
        let c = cmd0(&scn.steps[0]);
        // make sure there is something to protect
        for o in c.outputs(&scn.build()) {
            if !scn.build().exists(&o) {
                let x = old_content(r);
                scn.file(&gen::abs(&o), &x);
            }
        }
        for _ in 0..2 {
            let mut s = scn.clone();
            s.steps[0].procs[0].stdin = terminal(r);
            v.push(s);
        }
        if r.pct(20) {
            v.push(scn.clone()); // a yes is honoured: exercises the other branch
        }
        // failing to look is no reason to write
        let mut s = scn.clone();
        s.steps[0].procs[0].stdin = terminal(r);
        let ops = ctx.run(&s)?.steps[0].p().ops.clone();
        for t in with_faults(r, &s, &ops, 0, 3, 2, false, &|o| matches!(o.class, Class::Stat | Class::OpenR | Class::Stdin | Class::Stdout | Class::Other | Class::Create)) {
            v.push(t);
        }
        let mut t = s.clone();
        let e = *r.pick(&[EACCES, EIO, ENOMEM]);
        let at = r.below(ops.len().max(1)) as u32;
        t.steps[0].procs[0].faults = vec![Fault { at, kind: FaultKind::Sticky(Class::Stat, e) }];
        v.push(t);
    } else {
        let mut scn = mass_job(r, "C02", false);
        scn.kind = "mass-answers".into();
        let seq: Vec<&str> = (0..24).map(|_| *r.pick(&["y", "n", "y", "", "Y", "x", "yes"])).collect();
        for j in 0..3 {
            let mut s = scn.clone();
            let p = &mut s.steps[0].procs[0];
            match j {
                0 => *p = p.clone().policy(&[("skip", "y")], *r.pick(&["n", "", "N", "<eof>", "yes"])),
                1 => *p = p.clone().answer(&(seq.join("\n") + "\n")),
                _ => p.stdin = terminal(r),
            }
            v.push(s);
        }
        let s = v[0].clone();
        let ops = ctx.run(&s)?.steps[0].p().ops.clone();
        v.extend(with_faults(r, &s, &ops, 0, 3, 2, false, &|o| matches!(o.class, Class::Stat | Class::OpenR | Class::Create | Class::Stdin)));
    }
    Ok(v)
}

fn chk02(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    for (i, st) in run.steps.iter().enumerate() {
        let p = st.p();
        let c = cmd0(&scn.steps[i]);
        // what existed at output paths
        let outs: Vec<(String, Vec<u8>, Ent)> = {
            let tree = st.before.tree();
            let mut seen = BTreeSet::new();
            c.outputs(&st.before)
                .into_iter()
                .filter_map(|o| {
                    let q = real(&st.before, &o);
                    if !seen.insert(q.clone()) {
                        return None;
                    }
                    // a link that leads nowhere is no file
                    if matches!(tree.get(&q), Some(Ent::Link(_))) && !st.before.exists(&o) {
                        return None;
                    }
                    tree.get(&q).cloned().map(|e| (o, q, e))
                })
                .collect()
        };
        // answers: the i-th line the terminal gave answers the i-th question; consents in order of time
        let lines = lines_of(p);
        let mut consents: Vec<usize> = vec![]; // journal length when given
        let mut got: Vec<u8> = vec![];
        for a in &p.asked {
            let before = String::from_utf8_lossy(&got).split_inclusive('\n').filter(|l| l.ends_with('\n')).count();
            got.extend(&a.got);
            let all = String::from_utf8_lossy(&got).to_string();
            let done: Vec<&str> = all.split_inclusive('\n').collect();
            let fresh = done.len() - before.min(done.len());
            let skip = fresh <= 1 && String::from_utf8_lossy(&a.prompt).contains("skip this file");
            for l in done.iter().skip(before) {
                if is_yes(l) && !skip {
                    consents.push(a.jlen);
                }
            }
        }
        // no answer to a question never put
        let put = p.mute() || p.err.iter().any(|b| b.is_ascii_alphabetic()) || p.asked.iter().any(|a| stripped(&a.prompt).chars().any(|c| c.is_alphabetic()));
        if !put {
            consents.clear();
        }
        // one question in a single save: only the first answer counts
        if !c.mass && !lines.first().map(|l| is_yes(l)).unwrap_or(false) {
            consents.clear();
        }
        let made_dir = if c.mass { c.output.clone().filter(|o| !st.before.exists(o)) } else { None };
        let known: BTreeSet<Vec<u8>> = st.before.tree().into_keys().collect();
        let read = |fs: &Fs, o: &str| fs.read(o);
        let was: Vec<_> = outs.iter().map(|(o, ..)| read(&st.before, o)).collect();
        let look = |fs: &Fs, k: usize| -> Chk {
            let mut have = consents.iter().filter(|j| **j <= k).count();
            if let Some(d) = &made_dir {
                if fs.exists(d) {
                    if have == 0 {
                        bad!("the directory {} was made without a yes", d);
                    }
                    have -= 1;
                }
            }
            let tree = fs.tree();
            for (x, e) in &tree {
                let ours = made_dir.as_ref().map(|d| in_dir(gen::abs(d).as_bytes(), x)).unwrap_or(false);
                if matches!(e, Ent::Dir) && !ours && !known.contains(x) {
                    bad!("the directory {} was made", le(x));
                }
            }
            let changed: Vec<&str> = outs
                .iter()
                .enumerate()
                .filter(|(n, (o, q, e))| {
                    // replaced only when another name appears at the path: content or kind
                    tree.get(q) != Some(e) || (read(fs, o) != was[*n] && was[*n].is_some())
                })
                .map(|(_, (o, ..))| o.as_str())
                .collect();
            if changed.len() > have {
                bad!(
                    "changed although only {} question(s) had been answered y: {} (terminal: {:?})",
                    have, changed.join(", "), lines
                );
            }
            Ok(())
        };
        ctx.stats.inspected += st.prefixes(|fs, k| look(fs, k))?;
        look(&st.after, st.journal.len())?;
        // a single save asks about one file, others are never its business: nothing may hide behind the question
        if !c.mass && c.edit.is_none() && consents.is_empty() && !outs.is_empty() {
            let d: Vec<_> = diff(&st.before.tree(), &st.after.tree());
            if !d.is_empty() && p.fired.is_empty() {
                bad!("declined, yet changed: {}", names_list(&d));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03

fn gen03(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = Scn::new("C03", "");
    let i = calc(r);
    let inp0 = format!("p.{}", i.ext);
    let mut inp = inp0.clone();
    let mut file = format!("/w/{}", inp0);
    let e = if r.pct(85) { i.ext.clone() } else { out_ext(r, &i.ext) };
    let mut out = format!("n.{}", e);
    let same = format!("p.{}", i.ext);
    let kind = match r.below(16) {
        14 => {
            // the new file on another file system than the old one
            scn.dir("/w/mnt/sub");
            out = format!("{}/n.{}", r.pick(&["/tmp", "mnt", "mnt/sub"]), e);
            "other-file-system"
        }
        15 => {
            file = format!("/w/mnt/{}", same);
            inp = format!("mnt/{}", same);
            if r.pct(30) {
                out = format!("/tmp/n.{}", e);
            }
            "from-other-file-system"
        }
        0 => {
            out = format!("./{}", same);
            "dot"
        }
        1 => {
            scn.dir("/w/sub");
            out = format!("sub/../{}", same);
            "dotdot"
        }
        2 => {
            out = format!("/w/{}", same);
            "absolute"
        }
        3 => {
            scn.dir("/w/d");
            file = format!("/w/d/{}", same);
            inp = format!("d/{}", same);
            scn.link("/w/l", "d");
            out = format!("l/{}", same);
            "linked-directory"
        }
        4 => {
            out = format!("l.{}", i.ext);
            scn.link(&format!("/w/{}", out), &same);
            "new-is-link-to-old"
        }
        5 => {
            file = format!("/w/real.{}", i.ext);
            scn.link(&format!("/w/{}", same), &format!("real.{}", i.ext));
            out = format!("real.{}", i.ext);
            "old-is-link-to-new"
        }
        6 => {
            out = format!("h.{}", i.ext);
            "hard-link"
        }
        7 => {
            out = same.clone();
            "same"
        }
        8 => {
            out = format!("//w//{}", same);
            "slashes"
        }
        9 => {
            scn.dir("/w/sub/deep");
            out = format!("sub/deep/n.{}", e);
            "other-directory"
        }
        10 => {
            let c = old_content(r);
            scn.file(&format!("/w/{}", out), &c);
            "overwrite"
        }
        _ => "plain",
    };
    scn.kind = kind.into();
    scn.file(&file, &i.bytes);
    if kind == "hard-link" {
        scn.hard(&format!("/w/{}", out), &file);
    }
    let mut a = edit(r).args(&inp);
    a.extend(s(&["-f", &out, "-d"]));
    scn.steps.push(one(run(&a).yes()));
    scn.set("seed", &r.next().to_string());
    if r.pct(15) {
        scn.steps[0].procs[0] = scn.steps[0].procs[0].clone().policy(&[], "n");
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let mut v = vec![scn.clone()];
    v.extend(with_faults(r, &scn, &ops, 0, 4, 3, true, &|_| true));
    if r.pct(25) {
        let mut s = scn.clone();
        s.cap = Some(scn.build().used() + r.below(i.bytes.len() + 20) as u64);
        v.push(s);
    }
    Ok(v)
}

fn chk03(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    let mut rng = Rng::new(scn.par("seed").parse().unwrap_or(1));
    for (i, st) in run.steps.iter().enumerate() {
        let c = cmd0(&scn.steps[i]);
        let (Some(out), Some(ed)) = (c.output.clone(), c.edit.clone()) else { continue };
        let Some(old) = st.before.read(&c.input) else { continue };
        let (ie, oe) = (ext(c.input.as_bytes()).to_string(), ext(out.as_bytes()).to_string());
        let new = if is_calc(&oe) { ed.apply_to(&old, &ie, &oe) } else { None };
        let clean = ctx.clean_from(&st.before, &scn.steps[i])?;
        let clean_new = clean.after.read(&out);
        let look = |fs: &Fs, k: usize, how: &str| -> Chk {
            if fs.read(&c.input).as_ref() == Some(&old) {
                return Ok(());
            }
            for p in [&out, &c.input] {
                if let Some(d) = fs.read(p) {
                    if is_calc(&oe) {
                        if new.as_ref().map(|n| *n == *d).unwrap_or(false) {
                            return Ok(());
                        }
                    } else if clean_new.as_ref() == Some(&d) {
                        return Ok(());
                    }
                }
            }
            bad!(
                "{} (change {} of the step) neither the old file {} ({}) nor the complete new file {} ({}) exists",
                how, k, c.input, show(&fs.read(&c.input)), out, show(&fs.read(&out))
            );
        };
        ctx.stats.inspected += st.prefixes(|fs, k| look(fs, k, "when the process is killed"))?;
        look(&st.after, st.journal.len(), "at the end")?;
        ctx.stats.inspected += st.power_losses(&mut rng, 60, |fs, k| look(fs, k, "after a power loss"))?;
        // nothing failed and it was not declined: the edited program is there
        let p = st.p();
        if p.fired.is_empty() && p.status == Status::Exit(0) && all_yes(p) && is_calc(&oe) {
            let want = new.clone().map(std::sync::Arc::new);
            if want.is_some() && st.after.read(&out) != want && st.after.read(&c.input) != want {
                bad!("reported done, but the edited program exists under neither {} nor {}", out, c.input);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04

const ODD: [&str; 10] = ["a[b]c", "x [1", "]", "é", "sp ace", "[", "θλ", "q]r[s", "日本", "[bold]"];

/// A save that can't be done.
fn impossible(r: &mut Rng) -> Scn {
    let mut scn = Scn::new("C04", "impossible");
    let i = input(r);
    let k = calc(r);
    let inp = format!("in.{}", i.ext);
    let cal = format!("k.{}", k.ext);
    let txt_in = txt(r, 1);
    scn.file(&format!("/w/{}", inp), &i.bytes);
    scn.file(&format!("/w/{}", cal), &k.bytes);
    scn.file("/w/t.txt", &txt_in.bytes);
    scn.file(&format!("/w/d/{}", inp), &i.bytes);
    scn.file("/w/d.8xp/x.txt", b"x");
    scn.file("/w/x.bin", &k.bytes);
    scn.file("/w/noext", &k.bytes);
    if r.pct(50) {
        scn.dir("/w/o");
    }
    if r.pct(40) {
        for o in ["/w/x.txt", "/w/x.exe", "/w/n.8xp", "/w/n.exe", "/w/n"] {
            scn.file(o, b"old");
        }
    }
    let bad_ext = *r.pick(&["x.exe", "x.", "x", "x.8XP", "x.8xpp", "x.json5", "x.TXT", "x.txt ", "x.tx", ".8xp", "x.8xp.bak"]);
    let mut a = match r.below(16) {
        // nothing to do with what is read
        15 => {
            let mut a = if r.pct(60) { s(&["convert", &inp]) } else { s(&["convert", "d", "-m"]) };
            mode_args(r, &mut a);
            a
        }
        12 => {
            // --delete-old without --new-file
            let mut a = edit(r).args(&cal);
            a.push(r.pick::<&str>(&["-d", "--delete-old"]).to_string());
            a
        }
        14 => {
            // an option without its value
            let mut a = if r.pct(60) { edit(r).args(&cal) } else { s(&["convert", &inp, "-o", "x.txt"]) };
            let o = if a[0] == "convert" { *r.pick(&["-d", "-e", "--display-mode", "--encode-mode"]) } else { *r.pick(&["-f", "--new-file"]) };
            a.push(o.to_string());
            a
        }
        13 => {
            let mut a = if r.pct(50) { edit(r).args(&cal) } else { s(&["convert", &inp, "-o", "x.txt"]) };
            a[0] = r.pick::<&str>(&["convrt", "Convert", "edit", "", "-", "--", "lock ", "x", "renam", "é"]).to_string();
            a
        }
        0 => s(&["convert", &inp, "-m", "-o", "o"]),
        1 => s(&["convert", "d", "-o", "x.txt"]),
        2 => s(&["convert", r.pick::<&str>(&["missing.8xp", "missing.txt", "missing", "d/missing.json", "no/missing.8xp"]), "-o", "x.txt"]),
        3 => s(&["convert", &inp, "-o", bad_ext]),
        4 => s(&["convert", r.pick::<&str>(&["x.bin", "noext"]), "-o", "x.txt"]),
        5 => s(&["convert", &inp, "-o", "nodir/x.txt"]),
        6 => s(&["convert", &inp, "-o", "x.txt", "-d", "nonsense"]),
        7 => s(&["convert", &inp, "-o", "x.8xp", "-e", "nonsense"]),
        8 => s(&["convert", "missing", "-m", "-o", "o"]),
        9 => s(&["convert", "d", "-m", "-o", "no/where"]),
        10 => {
            let e = if r.pct(70) { bad_edit(r) } else { edit(r) };
            let f = matches!(&e, Edit::Rename(n) if n.len() <= 8 && n.chars().all(|c| c.is_ascii_alphabetic())) || matches!(&e, Edit::Comment(c) if c.len() <= 42) || !matches!(e, Edit::Rename(_) | Edit::Comment(_));
            let mut a = e.args(&cal);
            if f {
                a.extend(s(&["-f", r.pick::<&str>(&["n.exe", "n", "n.8XP", "nodir/n.8xp"])]));
            } else if r.pct(60) {
                a.extend(s(&["-f", "n.8xp"]));
            }
            a
        }
        _ => {
            let mut a = edit(r).args(r.pick::<&str>(&["t.txt", "x.bin", "noext", "missing.8xp", "d", "d.8xp"]));
            if r.pct(60) {
                a.extend(s(&["-f", "n.8xp"]));
            }
            a
        }
    };
    if a[0] != "convert" && a.iter().any(|x| x == "-f") && a.last().unwrap() != "-f" && r.pct(50) {
        a.push("-d".into());
    }
    scn.steps.push(one(run(&a).yes()));
    scn
}

fn gen04(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    if r.pct(6) {
        return Ok((0..4).map(|_| impossible(r)).collect());
    }
    if r.pct(2) {
        // as much text as a program can hold, and a little more
        let n = *r.pick(&[65_000usize, 65_400, 65_500, 65_514, 65_515, 65_516, 65_517, 65_518, 65_535, 65_536, 66_000]);
        let mut t = String::from("BIG\n\nProgram\nRAM\naccessible\nTI-84+CE\n");
        for i in 0..n {
            t.push(if i % 2 == 0 || i + 1 == n { 'A' } else { '\n' });
        }
        let mut scn = Scn::new("C04", if n <= 65_516 { "large" } else { "impossible" });
        scn.file("/w/a.txt", t.as_bytes());
        scn.steps.push(one(run(&s(&["convert", "a.txt", "-o", "b.8xp", "-e", r.pick::<&str>(&["min", "max", "smart"])])).yes()));
        return Ok(vec![scn]);
    }
    if r.pct(35) {
        // whatever characters names, comments and paths contain
        let mut scn = Scn::new("C04", "characters");
        let mut i = calc(r);
        if r.pct(60) {
            let mut p = Prog::parse(&i.bytes, &i.ext).unwrap();
            p.name = pad(*r.pick(&[&b"A[B]"[..], b"[", b"]X[", b"\x5b1", b"A\xc9", b"TH\x5d", b"%s{}"]), 8);
            p.comment = pad(*r.pick(&[&b"see [note] ]["[..], b"\xe9\xff\xa7", b"[x", b"{} %s \\n", b"]"]), 42);
            i.bytes = p.bytes(&i.ext);
            i.name = p.name_s();
        }
        let dir = *r.pick(&ODD);
        let inp = format!("{}/p.{}", dir, i.ext);
        let inp = if r.pct(50) { inp } else { format!("{}.{}", r.pick(&ODD), i.ext) };
        scn.file(&format!("/w/{}", inp), &i.bytes);
        if r.pct(40) {
            let odd = *r.pick(&ODD);
            let a = match r.below(3) {
                0 => s(&["comment", &inp, "-c", odd]),
                1 => s(&["comment", &inp, "-c", odd, "-f", &format!("{}n.{}", r.pick(&ODD), i.ext)]),
                _ => s(&["rename", &inp, "-n", "NEW", "-f", &format!("{}n.{}", r.pick(&ODD), i.ext)]),
            };
            scn.steps.push(one(run(&a).yes()));
        } else if r.pct(50) {
            let e = *r.pick(&["txt", "json", "8xp"]);
            let out = format!("{}2.{}", r.pick(&ODD), e);
            scn.steps.push(one(run(&s(&["convert", &inp, "-o", &out])).yes()));
        } else {
            let outd = *r.pick(&ODD);
            scn = Scn::new("C04", "characters-mass");
            scn.file(&format!("/w/in/p.{}", i.ext), &i.bytes);
            scn.steps.push(one(run(&s(&["convert", "in", "-m", "-o", &format!("o{}", outd)])).yes()));
        }
        return Ok(vec![scn]);
    }
    let mut scn = save_job(r, "C04");
    if r.pct(20) && !cmd0(&scn.steps[0]).mass {
        let p = scn.steps[0].procs[0].clone();
        scn.steps[0].procs[0] = p.policy(&[], r.pick::<&str>(&["n", "", "<eof>"]));
    }
    if cmd0(&scn.steps[0]).mass {
        let p = scn.steps[0].procs[0].clone();
        scn.steps[0].procs[0] = p.policy(&[("skip", if r.pct(50) { "y" } else { "n" })], "y");
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let mut v = vec![scn.clone()];
    v.extend(with_faults(r, &scn, &ops, 0, 5, 2, false, &no_std));
    if r.pct(30) {
        let mut s = scn.clone();
        s.cap = Some(scn.build().used() + r.below(400) as u64);
        v.push(s);
    }
    Ok(v)
}

fn chk04(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    if scn.kind.starts_with("characters") {
        ctx.nontrivial = true;
    }
    for (i, st) in run.steps.iter().enumerate() {
        let p = st.p();
        let c = cmd0(&scn.steps[i]);
        if scn.kind == "impossible" {
            ctx.nontrivial = true;
            let what = scn.steps[i].procs[0].args()[1..].join(" ");
            if p.status == Status::Exit(0) || stripped(&p.out).contains("Successfully") {
                bad!("\"{}\" can't be done, but it ends with {}: {:?}", what, p.code(), cut(&stripped(&p.out)));
            }
            let d = diff(&st.before.tree(), &st.after.tree());
            if !d.is_empty() {
                bad!("\"{}\" can't be done, but it changed {}", what, names_list(&d));
            }
            continue;
        }
        let clean = ctx.clean_from(&st.before, &scn.steps[i])?;
        let outs = c.outputs(&st.before);
        let code = p.code();
        let said = stripped(&p.out);
        let alias = c.output.as_ref().map(|o| target(&st.before, o) == target(&st.before, &c.input)).unwrap_or(true);
        let done = |o: &str| -> Chk {
            let (a, b) = (st.after.read(o), clean.after.read(o));
            if b.is_none() || a != b {
                bad!("success was reported but {} holds {}, not the complete result ({})", o, show(&a), show(&b));
            }
            Ok(())
        };
        let old_gone = || -> Chk {
            if c.delete_old && c.output.is_some() && !alias && st.after.exists(&c.input) {
                bad!("success was reported but the old file {} is still there", c.input);
            }
            Ok(())
        };
        if c.mass {
            for l in said.lines().filter(|l| l.contains("Successfully saved")) {
                if let Some(o) = outs.iter().find(|o| l.ends_with(&format!(" to {}", o))) {
                    done(o)?;
                } else if let Some(o) = outs.iter().find(|o| l.ends_with(&format!(" to {}/{}", c.output.clone().unwrap_or_default(), o.rsplit('/').next().unwrap()))) {
                    done(o)?;
                } else {
                    bad!("the message {:?} names no file this conversion makes", l);
                }
            }
            let skipped = p.asked.iter().any(|a| String::from_utf8_lossy(&a.prompt).contains("skip this file"));
            let list_failed = said.contains("Failed to read an entry");
            // answers that came one by one: a question each
            let each = p.asked.iter().all(|a| a.got.is_empty() || (a.got.ends_with(b"\n") && a.got.iter().filter(|b| **b == b'\n').count() == 1));
            let no = |skip: bool| p.asked.iter().any(|a| String::from_utf8_lossy(&a.prompt).contains("skip this file") == skip && !is_yes(&String::from_utf8_lossy(&a.got)));
            let stop = each && no(true) && !no(false);
            if stop && code == 0 {
                bad!("a save failed and the user did not choose to go on, yet it exits with 0");
            }
            if code == 0 && !skipped && !list_failed && all_yes(p) {
                for o in &outs {
                    done(o)?;
                }
            }
        } else {
            let declined = !all_yes(p);
            if said.contains("Successfully") || (code == 0 && !declined && !outs.is_empty()) {
                for o in &outs {
                    done(o)?;
                }
                old_gone()?;
            }
            if said.contains("Successfully") && code != 0 && !p.mute() {
                bad!("it says the work was done but exits with {}", code);
            }
        }
        if code != 0 && !p.killed() && !p.mute() && p.out.is_empty() && p.err.is_empty() {
            bad!("it exits with {} and says nothing", code);
        }
        // nothing failed
        let dir_there = outs.iter().any(|o| st.before.exists(o) && st.before.read(o).is_none());
        if !dir_there && p.fired.is_empty() && scn.cap.is_none() && all_yes(p) && st.before.exists(&c.input) {
            if code != 0 {
                bad!("nothing failed, yet it exits with {}: {}", code, (said.clone() + &p.errs()).trim());
            }
            if !outs.is_empty() && !c.mass && !said.contains("Successfully") {
                bad!("nothing failed, yet it does not report success: {:?}", said);
            }
            if c.mass {
                for o in &outs {
                    if !said.lines().any(|l| l.contains("Successfully saved") && l.contains(o.rsplit('/').next().unwrap())) {
                        bad!("nothing failed, yet saving {} is not reported", o);
                    }
                }
            } else if c.verb == "convert" {
                let o = &outs[0];
                if !said.contains(&format!(" to {}", o)) {
                    bad!("the success message does not name the file {}: {:?}", o, said);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

fn gen05(r: &mut Rng) -> Scns {
    let mut scn = match r.below(12) {
        0 | 1 => mass_job(r, "C05", true),
        2 => {
            // several programs of one name
            let mut scn = Scn::new("C05", "mass-same-names");
            let nm = name(r);
            let alike = r.pct(50);
            for k in 0..r.range(2, 5) {
                let i = loop {
                    let i = portable(r, &nm);
                    if !alike || i.ext == "8xp" {
                        break i;
                    }
                };
                // names that some orders take for equal
                let f = match r.below(5) {
                    0 | 3 => r.pick(&["prog", "Prog", "PROG", "pRoG", "prog ", "prög"]).to_string(),
                    1 => r.pick(&["f1", "f01", "f001", "f10", "f2", "F1"]).to_string(),
                    _ => format!("{}{}", r.pick(&["a", "b", "z", "m"]), k),
                };
                scn.file(&format!("/w/d/{}.{}", f, i.ext), &i.bytes);
            }
            let out = if r.pct(30) { "d" } else { "o" };
            let p = run(&s(&["convert", "d", "-m", "-o", out]));
            let p = match r.below(3) {
                0 => p.policy(&[("skip", "y"), ("already exists", "n")], "y"),
                _ => p.yes(),
            };
            scn.steps.push(one(p));
            scn
        }
        3 => {
            let mut scn = Scn::new("C05", "search");
            let t = table(LATEST);
            let keys: Vec<_> = t.keys().collect();
            let k = *r.pick(&keys);
            let mode = r.below(3);
            let (ty, txt) = match r.below(3) {
                0 => ("accessible", t[k].text[1].clone()),
                1 => ("pretty", t[k].text[0].clone()),
                _ => ("byte", format!("0x{}", k.iter().map(|b| format!("{:02X}", b)).collect::<String>())),
            };
            let _ = mode;
            let txt = if txt.starts_with('-') || txt == "--" { "sin(".to_string() } else { txt };
            let txt = if r.pct(20) { "nMin".to_string() } else { txt };
            scn.steps.push(one(run(&s(&["search", &txt, "-t", ty]))));
            scn
        }
        4 | 5 | 6 => {
            // text in any display mode, with tokens that look alike
            let mut scn = Scn::new("C05", "encode");
            let mode = r.below(3);
            let i = loop {
                let i = txt(r, mode);
                if i.bytes.len() > 60 {
                    break i;
                }
            };
            let mut bytes = i.bytes.clone();
            // plant texts several tokens share
            let pt = parse_txt(&bytes).unwrap();
            let l = table(model(&pt.model).order);
            let mut by: BTreeMap<&str, Vec<&Vec<u8>>> = BTreeMap::new();
            for (k, t) in l.iter() {
                by.entry(&t.text[mode]).or_default().push(k);
            }
            let dups: Vec<&str> = by.iter().filter(|(t, v)| v.len() > 1 && !t.contains('\n')).map(|(t, _)| *t).collect();
            if !dups.is_empty() {
                for _ in 0..r.range(1, 4) {
                    bytes.extend(format!("\n{}", r.pick(&dups)).into_bytes());
                }
            }
            scn.file("/w/a.txt", &bytes);
            let e = *r.pick(&["8xp", "8xp", "83p", "json"]);
            let mut a = s(&["convert", "a.txt", "-o", &format!("o.{}", e), "-e", r.pick::<&str>(&["min", "max", "smart"])]);
            if r.pct(30) {
                a.push("-p".into());
            }
            scn.steps.push(one(run(&a)));
            scn
        }
        7 => {
            let mut scn = edit_job(r, "C05");
            if r.pct(50) {
                scn.steps[0].procs[0].stdin = terminal(r);
            }
            scn
        }
        8 => {
            let mut scn = Scn::new("C05", "mass-print");
            for k in 0..r.range(2, 5) {
                let i = input(r);
                scn.file(&format!("/w/d/{}{}.{}", r.pick(&["q", "b", "Z"]), k, i.ext), &i.bytes);
            }
            if r.pct(30) {
                scn.file("/w/d/bad.8xp", b"short");
            }
            let mut a = s(&["convert", "d", "-m", "-p"]);
            if r.pct(30) {
                a.push("-c".into());
            }
            mode_args(r, &mut a);
            scn.steps.push(one(run(&a)));
            scn
        }
        9 => {
            let mut scn = Scn::new("C05", "print");
            let i = input(r);
            scn.file(&format!("/w/a.{}", i.ext), &i.bytes);
            let a = match r.below(3) {
                0 if is_calc(&i.ext) => s(&["details", &format!("a.{}", i.ext)]),
                1 => s(&["models"]),
                _ => s(&["convert", &format!("a.{}", i.ext), "-p", "-c", "-d", r.pick::<&str>(&MODES)]),
            };
            scn.steps.push(one(run(&a)));
            scn
        }
        _ => convert_job(r, "C05"),
    };
    scn.set("vary", &r.next().to_string());
    scn.set("variants", "3");
    Ok(vec![scn])
}

fn chk05(scn: &Scn, ctx: &mut Ctx) -> Chk {
    ctx.nontrivial = true;
    let a = ctx.run(scn)?;
    let mut r = Rng::new(scn.par("vary").parse().unwrap_or(1));
    for _ in 0..scn.par("variants").parse().unwrap_or(3u32) {
        let mut v = scn.clone();
        for st in &mut v.steps {
            for p in &mut st.procs {
                circumstances(&mut r, p);
                if let Stdin::Script(items) = &mut p.stdin {
                    // the terminal may hand over an answer in pieces
                    let mut out = vec![];
                    for it in items.drain(..) {
                        match it {
                            StdinItem::Data(d) if d.len() > 1 && r.pct(40) => {
                                let k = r.range(1, d.len() - 1);
                                out.push(StdinItem::Data(d[..k].to_vec()));
                                out.push(StdinItem::Data(d[k..].to_vec()));
                            }
                            x => out.push(x),
                        }
                    }
                    *items = out;
                }
            }
        }
        // files that are none of the command's business
        let listed = v.disk.len();
        if r.pct(35) {
            let c = cmd0(&v.steps[0]);
            let near: Vec<String> = if c.mass { vec![format!("{}/p.8xp", c.input), format!("{}/p.txt", c.output.clone().unwrap_or(".".into()))] } else { [Some(c.input.clone()), c.output.clone()].into_iter().flatten().collect() };
            for n in &near {
                if !n.is_empty() {
                    let used: Vec<&str> = near.iter().map(|x| x.as_str()).collect();
                    gen::neighbours(&mut r, &mut v, n, false, &used);
                }
            }
        }
        let added: Vec<Vec<u8>> = v.disk[listed..].iter().map(|e| e.path().to_vec()).collect();
        let b = ctx.run(&v)?;
        for (i, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
            let (p, q) = (x.p(), y.p());
            let how = {
                let z = &v.steps[i].procs[0];
                format!(
                    "[hash seed {}, pid {}, listing {}, read pieces {}, write pieces {}, interrupted every {}, clock {}, environment {}, other files {}]",
                    z.hash_seed, z.pid, z.list_seed, z.rchunk, z.wchunk, z.eintr, z.skew, names_list(&z.env), names_list(&added)
                )
            };
            if p.code() != q.code() {
                bad!("exit status {} or {} depending on chance {}", p.code(), q.code(), how);
            }
            let (t, u) = (x.after.tree(), y.after.tree());
            let d: Vec<_> = diff(&t, &u).into_iter().filter(|f| !added.iter().any(|a| in_dir(f, a))).collect();
            if !d.is_empty() {
                bad!("the files differ from one run to another: {} {}", names_list(&d), how);
            }
            // a panic message carries the thread's number
            let err = |p: &ProcResult, pid: i64| p.errs().replace(&format!("'main' ({})", pid), "'main'");
            if p.out != q.out || err(p, scn.steps[i].procs[0].pid) != err(q, v.steps[i].procs[0].pid) {
                bad!("the printed text differs from one run to another: {:?} or {:?} {}", cut(&p.outs()), cut(&q.outs()), how);
            }
        }
    }
    Ok(())
}
fn cut(s: &str) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s.into()
    }
}

include!("props2.rs");
