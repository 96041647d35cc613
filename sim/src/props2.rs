// ------------------------------------------------------------------------------------------ histories

struct Hist<'a> {
    steps: usize,
    fault_pct: usize,
    kill: bool,
    power_pct: usize,
    allow: &'a dyn Fn(&OpRec) -> bool,
}

/// A sequence of commands, each chosen from the disk the previous ones left, some with faults.
fn history(r: &mut Rng, ctx: &mut Ctx, scn: &mut Scn, h: Hist, pick: &mut dyn FnMut(&mut Rng, &Fs, usize) -> Option<ProcSpec>) -> Chk {
    let mut fs = scn.build();
    for k in 0..h.steps {
        let Some(p) = pick(r, &fs, k) else { break };
        let mut st = one(p);
        if r.pct(20) {
            circumstances(r, &mut st.procs[0]);
        }
        if r.pct(h.fault_pct) {
            let ops = ctx.step_from(&fs, &st)?.p().ops.clone();
            let n = if r.pct(70) { 1 } else { 2 };
            st.procs[0].faults = faults(r, &ops, n, h.kill, h.allow);
        }
        if r.pct(h.power_pct) {
            st.power = Some(Power { lost: r.below(8) as u32, data: r.below(4) as u8 });
        }
        fs = ctx.step_from(&fs, &st)?.after;
        scn.steps.push(st);
    }
    Ok(())
}

fn files(fs: &Fs, want: &dyn Fn(&str) -> bool) -> Vec<String> {
    fs.tree()
        .into_iter()
        .filter(|(p, e)| matches!(e, Ent::File(_)) && want(ext(p)) && p.starts_with(b"/w/"))
        .map(|(p, _)| le(&p[3..]))
        .collect()
}

// ------------------------------------------------------------------------------------------ C06

fn any_ext(e: &str) -> bool {
    is_calc(e) || e == "txt" || e == "json"
}

fn gen06(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    if r.pct(6) {
        return Ok(vec![oversize(r)]);
    }
    let mut scn = Scn::new("C06", "history");
    for k in 0..r.range(1, 3) {
        let i = input(r);
        scn.file(&format!("/w/f{}.{}", k, i.ext), &i.bytes);
    }
    if r.pct(30) {
        let j = prog(r).bytes("8xp");
        scn.file("/w/out.8xp", &j);
    }
    let n = r.range(2, 6);
    let h = Hist { steps: n, fault_pct: 35, kill: true, power_pct: 8, allow: &|_| true };
    history(r, ctx, &mut scn, h, &mut |r, fs, k| {
        let all = files(fs, &any_ext);
        if all.is_empty() {
            return None;
        }
        let i = r.pick(&all).clone();
        let ie = ext(i.as_bytes()).to_string();
        let a = if is_calc(&ie) && r.pct(55) {
            let ed = if r.pct(85) { edit(r) } else { bad_edit(r) };
            let mut a = ed.args(&i);
            if r.pct(35) {
                a.extend(s(&["-f", &format!("e{}.{}", k, r.pick(&["8xp", "8xp", "83p", "82p"]))]));
                if r.pct(40) {
                    a.push("-d".into());
                }
            }
            a
        } else if r.pct(12) {
            s(&["convert", ".", "-m", "-o", r.pick::<&str>(&["o", "."])])
        } else {
            let o = if r.pct(30) { "out".to_string() } else { format!("c{}", k) };
            let mut a = s(&["convert", &i, "-o", &format!("{}.{}", o, r.pick(&["8xp", "8xp", "8xp", "83p", "82p", "txt", "json"]))]);
            if ie != "txt" && ie != "json" {
                if r.pct(30) {
                    a.extend(s(&["-d", r.pick::<&str>(&MODES)]));
                }
            } else if r.pct(30) {
                a.extend(s(&["-e", r.pick::<&str>(&["min", "max", "smart"])]));
            }
            a
        };
        let p = run(&a);
        Some(if r.pct(85) { p.yes() } else { p.policy(&[("skip", "y")], "n") })
    })?;
    scn.set("seed", &r.next().to_string());
    Ok(vec![scn])
}

/// programs at and over the limit of the 16-bit lengths
fn oversize(r: &mut Rng) -> Scn {
    let mut scn = Scn::new("C06", "oversize");
    let e = *r.pick(&["8xp", "83p", "82p"]);
    match r.below(4) {
        0 | 1 => {
            // 83p programs whose body just fits: two bytes more of metadata do not
            let n = r.range(65512, 65518);
            let p = Prog::new("BIG", &vec![0x31; n]);
            let b = p.bytes("83p");
            scn.file("/w/a.83p", &b);
            let a = if r.pct(60) {
                s(&["convert", "a.83p", "-o", &format!("o.{}", e)])
            } else {
                s(&["lock", "a.83p", "-f", &format!("o.{}", e)])
            };
            scn.steps.push(one(run(&a).yes()));
        }
        2 => {
            let n = r.range(65514, 65518);
            let p = Prog::new("BIG", &vec![0x31; n]);
            let j = to_json(&p, "83p", 1).unwrap();
            scn.file("/w/a.json", j.render(false).as_bytes());
            scn.steps.push(one(run(&s(&["convert", "a.json", "-o", &format!("o.{}", e)])).yes()));
        }
        _ => {
            let n = *r.pick(&[65515usize, 65516, 65517, 65518, 65534, 65535, 65536, 65540, 65600, 66000, 131_100]);
            let mut text = String::with_capacity(n + 60);
            text.push_str("BIG\n\nProgram\nRAM\naccessible\nTI-84+CE\n");
            for i in 0..n {
                text.push(if i % 2 == 0 { 'A' } else { '\n' });
            }
            if text.ends_with('\n') {
                text.push('B');
            }
            scn.file("/w/a.txt", text.as_bytes());
            scn.steps.push(one(run(&s(&["convert", "a.txt", "-o", &format!("o.{}", e)])).yes()));
        }
    }
    scn.set("seed", "1");
    scn
}

fn chk06(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    let mut rng = Rng::new(scn.par("seed").parse().unwrap_or(1));
    // files given are taken as they are; everything else ending in a calculator extension must be sound
    let mut ok: BTreeSet<u64> = run.init.tree().values().filter_map(|e| if let Ent::File(d) = e { Some(hash(d)) } else { None }).collect();
    for st in &run.steps {
        let mut look = |fs: &Fs, k: usize, how: &str| -> Chk {
            for (p, e) in fs.tree() {
                let x = ext(&p).to_string();
                if let (true, Ent::File(d)) = (is_calc(&x), &e) {
                    let h = mix(hash(d), hash(x.as_bytes()));
                    if ok.contains(&h) || ok.contains(&hash(d)) {
                        continue;
                    }
                    if let Err(why) = well_formed(d, &x) {
                        bad!("{} {} (change {} of a step) is not a sound calculator file: {}", le(&p), how, k, why);
                    }
                    ok.insert(h);
                }
            }
            Ok(())
        };
        let n = st.prefixes(|fs, k| look(fs, k, "when the process is killed"))?;
        look(&st.after, st.journal.len(), "at the end")?;
        let m = st.power_losses(&mut rng, 25, |fs, k| look(fs, k, "after a power loss"))?;
        ctx.stats.inspected += n + m;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07

fn gen07(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = Scn::new("C07", "edits");
    let i = calc(r);
    scn.file(&format!("/w/p.{}", i.ext), &i.bytes);
    if r.pct(30) {
        let j = calc(r);
        scn.file(&format!("/w/q.{}", j.ext), &j.bytes);
    }
    let n = r.range(2, 7);
    let h = Hist { steps: n, fault_pct: 30, kill: true, power_pct: 7, allow: &no_std };
    history(r, ctx, &mut scn, h, &mut |r, fs, k| {
        let all = files(fs, &is_calc);
        if all.is_empty() {
            return None;
        }
        let i = r.pick(&all).clone();
        let ed = if r.pct(82) { edit(r) } else { bad_edit(r) };
        let mut a = ed.args(&i);
        if r.pct(28) {
            let e = match r.below(10) {
                0..=5 => ext(i.as_bytes()).to_string(),
                6 | 7 => r.pick(&["8xp", "83p", "82p"]).to_string(),
                _ => r.pick(&["txt", "json"]).to_string(),
            };
            let o = if r.pct(25) && all.len() > 1 { r.pick(&all).clone() } else { format!("n{}.{}", k, e) };
            a.extend(s(&["-f", &o]));
            if r.pct(30) {
                a.push("-d".into());
            }
        }
        let p = run(&a);
        Some(match r.below(10) {
            0..=7 => p.yes(),
            8 => p.policy(&[], "n"),
            _ => {
                let mut p = p;
                p.stdin = terminal(r);
                p
            }
        })
    })?;
    Ok(vec![scn])
}

/// Is `d` the text or json form of the edited program?
fn saved_as(ed: &Edit, edited: &[u8], ie: &str, d: &[u8], oe: &str) -> bool {
    let Some(p) = Prog::parse(edited, ie) else { return false };
    // the comment as it was typed; in a calculator file its bytes are read one by one
    let typed = match ed {
        Edit::Comment(c) => c.clone(),
        _ => latin(&p.comment),
    };
    // the older formats have no place for the destination
    let dest = if meta_len(ie) == 17 && *ed == Edit::Archive { "Archive" } else { p.dest_s() };
    if oe == "txt" {
        let mut p = p;
        if dest == "Archive" {
            p.dest = 0x80;
        }
        let Some(t) = p.txt(1) else { return false };
        let mut l: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
        let one = l.join("\n");
        l[1] = typed.replace('\n', " ");
        return [one, l.join("\n")].iter().any(|x| x.as_bytes() == d);
    }
    let Some(mut j) = std::str::from_utf8(d).ok().and_then(|s| J::parse(s).ok()) else { return false };
    if let Some(h) = j.get_mut("header") {
        if h.gstr("comment") == typed {
            h.set("comment", J::s(&latin(&p.comment)));
        }
    }
    if let Some(m) = j.get_mut("metadata") {
        if m.gstr("destination") == dest {
            m.set("destination", J::s(p.dest_s()));
        }
    }
    json_agrees(&j).is_ok() && json_bytes(&j).map(|(b, _)| b == edited).unwrap_or(false) && j.gstr("display_mode") == MODE_JSON[1]
}

fn chk07(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    for (i, st) in run.steps.iter().enumerate() {
        let c = cmd0(&scn.steps[i]);
        let Some(ed) = c.edit.clone() else { continue };
        let Some(cur) = st.before.read(&c.input) else { continue };
        let p = st.p();
        let ie = ext(c.input.as_bytes()).to_string();
        let out = c.output.clone().unwrap_or_else(|| c.input.clone());
        let oe = ext(out.as_bytes()).to_string();
        if !any_ext(&oe) || well_formed(&cur, &ie).is_err() {
            continue;
        }
        // saved as text or json: the edited program in that form
        let form = if is_calc(&oe) { oe.clone() } else { ie.clone() };
        let edited = ed.apply_to(&cur, &ie, &form).map(std::sync::Arc::new);
        let exp = if is_calc(&oe) {
            edited.clone()
        } else {
            match (&edited, st.after.read(&out)) {
                (Some(e), Some(d)) if saved_as(&ed, e, &ie, &d, &oe) => Some(d),
                _ => None,
            }
        };
        let ack = p.status == Status::Exit(0) && success_said(p);
        let same = target(&st.before, &out).is_some() && target(&st.before, &out) == target(&st.before, &c.input);
        let was = st.before.read(&out);
        let now = st.after.read(&out);
        let ambiguous = scn.steps[i].power.is_some() || p.mute() || matches!(p.status, Status::Killed | Status::Hang | Status::Signal(_));
        let what = format!("step {} ({})", i + 1, c.verb);
        let off = |a: &Option<std::sync::Arc<Vec<u8>>>, b: &Option<std::sync::Arc<Vec<u8>>>| match (a, b) {
            (Some(a), Some(b)) => match a.iter().zip(b.iter()).position(|(x, y)| x != y) {
                Some(k) => format!(" (first difference at byte {})", k),
                None => format!(" ({} bytes instead of {})", a.len(), b.len()),
            },
            _ => format!(" ({} instead of {})", show(a), show(b)),
        };
        if edited.is_none() && p.fired.is_empty() && !matches!(p.status, Status::Exit(0) | Status::Exit(1) | Status::Killed) {
            bad!("{}: an invalid edit is not refused, the command {}", what, if p.status == Status::Hang { "hangs".into() } else { format!("ends with {}", p.code()) });
        }
        if edited.is_some() && c.output.is_none() && p.fired.is_empty() && scn.cap.is_none() && scn.steps[i].power.is_none() && p.status == Status::Exit(1) && all_yes(p) {
            bad!("{}: nothing failed and the edit is valid, but it is refused: {}", what, cut(&p.errs()));
        }
        if ack {
            if edited.is_none() {
                bad!("{}: an invalid edit was acknowledged", what);
            }
            if !ambiguous && (now != exp || exp.is_none()) {
                bad!("{}: acknowledged, but {} is not the program with that field set and the rest unchanged{}", what, out, off(&now, &exp));
            }
        } else if !ambiguous && now != was && !(c.delete_old && now == exp) {
            // (with --delete-old, only removing the old file may have failed)
            bad!("{}: not acknowledged (exit {}), but {} changed{}", what, p.code(), out, off(&now, &was));
        }
        if ambiguous && now != was && (now != exp || exp.is_none()) {
            bad!("{}: interrupted, and {} is neither as before nor with the edit{}", what, out, off(&now, &exp));
        }
        if !same && !c.delete_old && c.output.is_some() && st.after.read(&c.input) != Some(cur.clone()) {
            bad!("{}: an edit saved to {} changed its input {}", what, out, c.input);
        }
        if c.delete_old && !same {
            let left = st.after.read(&c.input);
            if left.is_some() && left != Some(cur.clone()) {
                bad!("{}: the old file {} was changed", what, c.input);
            }
            if left.is_none() && !ambiguous && now != exp {
                bad!("{}: the old file is gone, but {} is not the edited program", what, out);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08

fn gen08(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = Scn::new("C08", "history");
    let h = |n| Hist { steps: n, fault_pct: 22, kill: true, power_pct: 0, allow: &no_std };
    if r.pct(35) {
        scn.kind = "circle".into();
        let i = txt(r, 1);
        scn.file("/w/a.txt", &i.bytes);
        let e = *r.pick(&["min", "max", "smart"]);
        let mut plan = vec![
            s(&["convert", "a.txt", "-o", "a.8xp", "-e", e]),
            s(&["convert", "a.8xp", "-o", "b.txt"]),
            s(&["convert", "b.txt", "-o", "b.8xp", "-e", e]),
        ];
        if r.pct(50) {
            plan.push(s(&["convert", "a.8xp", "-o", "j.json", "-d", r.pick::<&str>(&MODES)]));
            plan.push(s(&["convert", "j.json", "-o", "k.8xp"]));
        }
        if r.pct(30) {
            plan.push(s(&["details", "a.8xp"]));
            plan.push(s(&["convert", "b.8xp", "-p"]));
        }
        // a step that failed is repeated
        let mut q: Vec<Vec<String>> = vec![];
        for a in plan {
            if r.pct(15) {
                q.push(a.clone());
            }
            q.push(a);
        }
        let n = q.len();
        history(r, ctx, &mut scn, h(n), &mut |_, _, k| Some(run(&q[k]).yes()))?;
        return Ok(vec![scn]);
    }
    if r.pct(2) {
        // nearly as large as a program can be
        scn.kind = "large".into();
        let n = *r.pick(&[32_768usize, 50_000, 60_000, 65_000, 65_516 - 1, 65_516]);
        let body: Vec<u8> = (0..n).map(|k| 0x30 + (k % 10) as u8).collect();
        let e = *r.pick(&["8xp", "83p"]);
        scn.file(&format!("/w/a.{}", e), &Prog::new("BIG", &body).bytes(e));
        let plan = vec![
            s(&["convert", &format!("a.{}", e), "-o", "a.json"]),
            s(&["convert", "a.json", "-o", &format!("b.{}", e)]),
            s(&["convert", "a.json", "-o", "b.txt"]),
            s(&["convert", "b.txt", "-o", "c.8xp"]),
            s(&["convert", "c.8xp", "-p"]),
        ];
        let n = plan.len();
        history(r, ctx, &mut scn, Hist { steps: n, fault_pct: 0, kill: false, power_pct: 0, allow: &no_std }, &mut |_, _, k| Some(run(&plan[k]).yes()))?;
        return Ok(vec![scn]);
    }
    for k in 0..r.range(1, 3) {
        let i = if r.pct(30) { txt_any(r) } else { input(r) };
        let mut b = i.bytes.clone();
        if is_calc(&i.ext) && r.pct(20) {
            skew(r, &mut b, &i.ext);
        }
        scn.file(&format!("/w/f{}.{}", k, i.ext), &b);
    }
    let n = r.range(2, 6);
    history(r, ctx, &mut scn, h(n), &mut |r, fs, k| {
        let all = files(fs, &any_ext);
        let i = r.pick(&all).clone();
        let ie = ext(i.as_bytes()).to_string();
        let a = if is_calc(&ie) && r.pct(15) {
            s(&["details", &i])
        } else if r.pct(18) {
            s(&["convert", &i, if r.pct(60) { "-p" } else { "-c" }, "-d", r.pick::<&str>(&MODES)])
        } else {
            let mut a = s(&["convert", &i, "-o", &format!("c{}.{}", k, r.pick(&["8xp", "83p", "82p", "txt", "txt", "json", "json"]))]);
            mode_args(r, &mut a);
            a
        };
        Some(run(&a).yes())
    })?;
    Ok(vec![scn])
}
/// Bytes around the program that do not agree with it.
fn skew(r: &mut Rng, b: &mut [u8], e: &str) {
    let n = b.len();
    let m = 55 + meta_len(e);
    for _ in 0..r.range(1, 3) {
        let at = match r.below(6) {
            0 => r.range(8, 9),
            1 => r.range(53, 54),
            2 => r.range(55, 58),
            3 => r.range(n - 2, n - 1),
            4 if e == "8xp" => 68,
            _ => r.range(m - 4, m - 1),
        };
        b[at] = if r.pct(50) { b[at] ^ 1 << r.below(8) } else { r.below(256) as u8 };
    }
}

fn txt_any(r: &mut Rng) -> Input {
    let m = r.below(3);
    txt(r, m)
}

fn hex_bytes(s: &str) -> Vec<u8> {
    s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| x.len() == 2).filter_map(|x| u8::from_str_radix(x, 16).ok()).collect()
}

fn chk08(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    let mut all_ok = true;
    for (i, st) in run.steps.iter().enumerate() {
        let c = cmd0(&scn.steps[i]);
        let p = st.p();
        let Some(src) = st.before.read(&c.input) else { continue };
        let ie = ext(c.input.as_bytes()).to_string();
        let ok = p.status == Status::Exit(0);
        let what = || format!("step {} ({})", i + 1, scn.steps[i].procs[0].args()[1..].join(" "));
        let parsed = if ie == "json" { J::parse(&String::from_utf8_lossy(&src)).ok() } else { None };
        let agrees = parsed.as_ref().map(|j| json_agrees(j).is_ok()).unwrap_or(false);
        // what it was given must itself be sound
        let sound = match ie.as_str() {
            "txt" => parse_txt(&src).is_some(),
            "json" => agrees && parsed.as_ref().and_then(json_bytes).map(|(b, e)| well_formed(&b, &e).is_ok()).unwrap_or(false),
            _ => well_formed(&src, &ie).is_ok(),
        };
        if !sound {
            // lengths, checksum or marks that nothing else in the file agrees with are kept as they are
            if (is_calc(&ie) || agrees) && c.verb == "convert" && ok && success_said(p) {
                if let Err(why) = work_done(&c, st, ctx) {
                    bad!("{}: the program is not kept: {}", what(), why);
                }
            }
            continue;
        }
        if c.verb == "details" && ok {
            if let Some(d) = Prog::parse(&src, &ie).and_then(|q| q.details(&ie)) {
                if stripped(&p.out) != d {
                    bad!("{}: details prints {:?}, the file says {:?}", what(), cut(&p.outs()), cut(&d));
                }
            }
        } else if c.output.is_none() && c.verb == "convert" && ok {
            if is_calc(&ie) {
                let q = Prog::parse(&src, &ie).unwrap();
                if c.preview && !c.content {
                    if let Some(d) = q.preview(&ie, c.mode) {
                        if stripped(&p.out) != d {
                            bad!("{}: the preview {:?} is not what the file says {:?}", what(), cut(&p.outs()), cut(&d));
                        }
                    }
                }
                if c.content && !c.preview && hex_bytes(&stripped(&p.out)) != *src {
                    bad!("{}: the content printed is not the file's", what());
                }
            } else if ie == "json" && c.preview && !c.content {
                if let Some((b, e)) = J::parse(&String::from_utf8_lossy(&src)).ok().and_then(|j| json_bytes(&j)) {
                    let t = stripped(&p.out);
                    if hex_bytes(t.split("\n\n").next().unwrap_or("")) != b {
                        bad!("{}: the preview's bytes are not the json file's", what());
                    }
                    let _ = e;
                }
            } else if ie == "txt" && c.preview && !c.content {
                let t = parse_txt(&src).unwrap();
                let q = hex_bytes(&stripped(&p.out));
                if well_formed(&q, "8xp").is_err() || decode(&q[74..q.len() - 2], model(&t.model).order, t.mode) != Some(t.text.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")) {
                    bad!("{}: the previewed bytes do not stand for the text", what());
                }
            }
        } else if let Some(o) = &c.output {
            if ok && success_said(p) {
                let oe = ext(o.as_bytes()).to_string();
                match st.after.read(o) {
                    None => bad!("{}: success was reported but there is no {}", what(), o),
                    Some(d) => {
                        if let Err(why) = cmdline::represents(&c, &src, &ie, &d, &oe, &ctx.version) {
                            bad!("{}: {} does not keep the program: {}", what(), o, why);
                        }
                    }
                }
            } else {
                all_ok = false;
            }
        }
    }
    if scn.kind == "circle" {
        let f = |p: &str| run.fin.read(p);
        let _ = all_ok;
        if let (Some(t), Some(a)) = (f("a.txt"), f("a.8xp")) {
            let t0 = parse_txt(&t).unwrap();
            let same_table = model(&t0.model).order == model(header_model(&t0.model)).order;
            if let Some(t1) = f("b.txt").and_then(|b| parse_txt(&b)) {
                if same_table && t1.text != t0.text {
                    bad!("text converted to a calculator file and back is another text");
                }
                if (&t1.name, &t1.ftype, &t1.dest, t1.model.as_str()) != (&t0.name, &t0.ftype, &t0.dest, header_model(&t0.model)) {
                    bad!("converted to a calculator file and back: {} / {} / {} / {} became {} / {} / {} / {}", t0.name, t0.ftype, t0.dest, t0.model, t1.name, t1.ftype, t1.dest, t1.model);
                }
            }
            if let Some(b) = f("b.8xp") {
                let (x, y) = (Prog::parse(&a, "8xp"), Prog::parse(&b, "8xp"));
                if same_table && x.as_ref().map(|p| &p.body) != y.as_ref().map(|p| &p.body) {
                    bad!("a calculator file encoded from text, converted to text and back has another body");
                }
            }
            if let Some(k) = f("k.8xp") {
                if k != a {
                    bad!("json does not give back the bytes it was made from");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09

fn damage(r: &mut Rng, b: &[u8], e: &str) -> Vec<u8> {
    let mut v = b.to_vec();
    match r.below(12) {
        0 | 1 => {
            let n = if r.pct(60) { r.below(v.len().min(100) + 1) } else { r.below(v.len() + 1) };
            v.truncate(n);
        }
        2 | 3 => {
            for _ in 0..r.range(1, 4) {
                if !v.is_empty() {
                    let at = if r.pct(60) { r.below(v.len().min(90)) } else { r.below(v.len()) };
                    v[at] ^= 1 << r.below(8);
                }
            }
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 10, 54, 55, 56, 73, 74, 75, 76, 77, 200]);
            v = (0..n).map(|_| r.below(256) as u8).collect();
        }
        5 => {
            if !v.is_empty() {
                let a = r.below(v.len());
                let n = r.range(1, 30).min(v.len() - a);
                for x in &mut v[a..a + n] {
                    *x = *r.pick(&[0u8, 0xff, 0x5c, 0x7e, 0xbb, 0xef, 0x0a, b'"', b'{']);
                }
            }
        }
        6 => {
            if !v.is_empty() {
                let a = r.below(v.len());
                let n = r.range(1, 40).min(v.len() - a);
                v.drain(a..a + n);
            }
        }
        7 => {
            let a = r.below(v.len() + 1);
            let junk: Vec<u8> = (0..r.range(1, 20)).map(|_| r.below(256) as u8).collect();
            v.splice(a..a, junk);
        }
        8 if is_calc(e) => {
            // a two-byte token cut in half
            let at = v.len().saturating_sub(2);
            v.insert(at, *r.pick(&[0x5Cu8, 0x5D, 0x5E, 0x60, 0x61, 0x62, 0x63, 0x7E, 0xAA, 0xBB, 0xEF]));
        }
        9 if e == "txt" => {
            let t = String::from_utf8_lossy(&v).to_string();
            let mut l: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
            let k = r.below(l.len().min(7));
            match r.below(4) {
                0 => {
                    l.remove(k);
                }
                1 => {
                    let k = if r.pct(40) { 0 } else { k };
                    l[k] = r.pick(&["", "é", "WAYTOOLONGNAME", "ABCDEFGé", "ABCDEFθθ", "éééééééééé", "aéθ✓🂡zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "漢字漢字", "Locked", "flash", "\u{0}", "TI-99", "ti", "unknown¤token"]).to_string()
                }
                2 => l.truncate(k),
                _ => l.swap(0, k),
            }
            v = l.join("\n").into_bytes();
        }
        8 | 9 | 10 if e == "json" => v = damage_json(r, &v),
        _ => {
            v = match r.below(8) {
                0 => vec![],
                1 => b"{}".to_vec(),
                2 => b"null".to_vec(),
                3 => vec![b'['; r.range(100, 20_000)],
                4 => b"{\"header\":".repeat(r.range(2, 400)),
                5 => vec![0; r.range(1, 3000)],
                6 => vec![0xff; r.range(1, 300)],
                _ => b"PK\x03\x04zip".to_vec(),
            }
        }
    }
    v
}

fn damage_json(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let Ok(mut j) = J::parse(&String::from_utf8_lossy(v)) else { return v.to_vec() };
    let sect = *r.pick(&["header", "metadata", "body", "checksum", "model", "display_mode"]);
    let junk = |r: &mut Rng| match r.below(9) {
        0 => J::Null,
        1 => J::Int(-1),
        2 => J::Int(70_000),
        3 => J::s("x"),
        4 => J::Arr(vec![]),
        5 => J::Arr(vec![J::Int(1); r.below(100)]),
        6 => J::Arr(vec![J::Int(256)]),
        7 => J::Num(1.5),
        _ => J::Bool(true),
    };
    match r.below(4) {
        0 => {
            let x = junk(r);
            j.set(sect, x);
        }
        1 => {
            if let J::Obj(o) = &mut j {
                if !o.is_empty() {
                    let k = r.below(o.len());
                    o.remove(k);
                }
            }
        }
        _ => {
            let x = junk(r);
            let long = r.pct(50);
            if let Some(J::Obj(o)) = j.get_mut(sect) {
                if !o.is_empty() {
                    let k = r.below(o.len());
                    if o[k].0 == "bytes" && long {
                        // another length than the section has
                        if let J::Arr(a) = &mut o[k].1 {
                            let n = *r.pick(&[0usize, 1, 2, 3, 5, 13, 16, 17, 18, 19, 20, 54, 56, 100]);
                            a.resize(n, J::Int(65));
                        }
                    } else {
                        o[k].1 = x;
                    }
                }
            }
        }
    }
    j.render(false).into_bytes()
}

/// Arguments put together without sense.
fn odd_arguments(r: &mut Rng) -> Scn {
    let mut scn = Scn::new("C09", "arguments");
    let i = input(r);
    let inp = format!("in.{}", i.ext);
    scn.file(&format!("/w/{}", inp), &i.bytes);
    scn.file(&format!("/w/d/{}", inp), &i.bytes);
    scn.file("/w/noext", &i.bytes);
    scn.file("/w/é.8xp", &calc(r).bytes);
    scn.file("/w/€.8xp", &calc(r).bytes);
    scn.dir("/w/o");
    let verbs = [
        "convert", "convert", "convert", "search", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "models", "help", "version", "bogus", "", "-h", "--help", "--",
        "-o", "é", "CONVERT", "convert ", "€", "c€", "😀",
    ];
    let long = "L".repeat(3000);
    let values = [
        "d", "o", ".", "..", "/", "", "missing", "missing.8xp", "noext", "noext/x.8xp", "é.8xp", "new.8xp", "new.txt", "new.json", "new.83p", "o/new.txt", "no/new.txt", "new.", ".8xp", "new.8XP", "x/", "accessible", "pretty", "ti",
        "min", "max", "smart", "nonsense", "NAME", "name9", "TOOLONGNAME", "é", "[color:red]", "{}", "%s", "-1", "0", "sin(", "0xBB", "0xBB31", "0x5D00", "0x", "0xZZ", "0xB", "x", "$BB$31", "byte", "accessible ",
        "help", "convert", "help:convert", ":", "\u{3b8}", "a\nb", " ", "0xé", "0x00000000000000000000", "bb31", "0XBB31", &long, "€", "1€", "-€", "--€", "€.8xp", "a日本.txt", "😀", "\u{301}", "x😀=1",
    ];
    let flags = [
        "-o", "--output", "-d", "-e", "-c", "-p", "-m", "-n", "-f", "-t", "-h", "--help", "--", "-", "--new-file", "--delete-old", "--display-mode", "--encode-mode", "--content", "--preview", "--mass", "--type", "--name",
        "--comment", "-x", "--nonsense", "-op", "--output=new.txt", "-oo",
    ];
    let mut a: Vec<String> = vec![];
    if !r.pct(3) {
        a.push(r.pick(&verbs).to_string());
        for k in 0..r.below(8) {
            a.push(match r.below(10) {
                0 | 1 => inp.clone(),
                2..=5 if k > 0 => r.pick(&flags).to_string(),
                _ => r.pick::<&str>(&values).to_string(),
            });
        }
    }
    let mut a: Vec<Vec<u8>> = a.into_iter().map(|x| x.into_bytes()).collect();
    if r.pct(8) && !a.is_empty() {
        // not valid text
        let k = r.below(a.len());
        let at = r.below(a[k].len() + 1);
        a[k].insert(at, *r.pick(&[0xffu8, 0xc3, 0x80, 0xed]));
    }
    scn.steps.push(one(cmdb(&a).policy(&[("skip", "y")], if r.pct(70) { "y" } else { "n" })));
    scn
}

fn gen09(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut v = vec![];
    if r.pct(10) {
        for _ in 0..4 {
            v.push(odd_arguments(r));
        }
    } else if r.pct(70) {
        for _ in 0..4 {
            let mut scn = Scn::new("C09", "damaged");
            let i = if r.pct(30) { json(r) } else { input(r) };
            let mut bytes = damage(r, &i.bytes, &i.ext);
            if r.pct(20) {
                bytes = damage(r, &bytes, &i.ext);
            }
            let e = if r.pct(85) { i.ext.clone() } else { r.pick(&["8xp", "83p", "82p", "txt", "json", "8XP", "bin"]).to_string() };
            let inp = format!("x.{}", e);
            scn.file(&format!("/w/{}", inp), &bytes);
            let a = match r.below(10) {
                0..=4 => {
                    let mut a = s(&["convert", &inp, "-o", &format!("o.{}", r.pick(&["8xp", "83p", "82p", "txt", "json"]))]);
                    mode_args(r, &mut a);
                    a
                }
                5 => s(&["convert", &inp, "-p"]),
                6 => s(&["convert", &inp, "-c", "-d", r.pick::<&str>(&MODES)]),
                7 => s(&["details", &inp]),
                _ => {
                    let mut a = edit(r).args(&inp);
                    if r.pct(40) {
                        a.extend(s(&["-f", &format!("n.{}", r.pick(&["8xp", "83p", "txt", "json"]))]));
                    }
                    a
                }
            };
            if r.pct(15) {
                scn.file("/w/o.txt", b"old");
                scn.file("/w/o.8xp", b"old");
            }
            scn.steps.push(one(run(&a).yes()));
            // what was made of it is an input again
            if r.pct(25) && a[0] == "convert" && a[2] == "-o" {
                let o = a[3].clone();
                scn.steps.push(one(run(&s(&["convert", &o, "-o", &format!("second.{}", r.pick(&["8xp", "txt", "json"]))])).yes()));
                if is_calc(ext(o.as_bytes())) {
                    scn.steps.push(one(run(&s(&["details", &o]))));
                }
            }
            v.push(scn);
        }
    } else if r.pct(50) {
        // a directory with anything in it
        let mut scn = Scn::new("C09", "damaged-directory");
        scn.dir("/w/d");
        scn.dir("/w/o");
        for k in 0..r.range(1, 5) {
            let i = input(r);
            let b = if r.pct(55) { damage(r, &i.bytes, &i.ext) } else { i.bytes };
            scn.file(&format!("/w/d/{}{}.{}", r.pick(&["a", "m", "z"]), k, i.ext), &b);
        }
        let odd = {
            let e: &[u8] = r.pick::<&[u8]>(&[b".8xp", b".83p", b".txt", b".json", b".8XP", b""]);
            let stem: &[u8] = r.pick::<&[u8]>(&[b"\xff\xfe", b"a\xc3", b"\xe9t\xe9", b"\xed\xa0\x80"]);
            [b"/w/d/", stem, e].concat()
        };
        match r.below(10) {
            7 => scn.linkb(&odd, b"nowhere"),
            8 => scn.linkb(&odd, odd.rsplit(|b| *b == b'/').next().unwrap()),
            9 => {
                let i = input(r);
                let b = damage(r, &i.bytes, &i.ext);
                scn.fileb(&odd, &b);
            }
            0 => scn.dir("/w/d/folder.8xp"),
            1 => scn.dir("/w/d/folder.json"),
            2 => scn.link("/w/d/dangling.8xp", "nowhere"),
            3 => scn.link("/w/d/loop.txt", "loop.txt"),
            4 => scn.fileb(b"/w/d/\xff\xfe.8xp", &Prog::new("BYTES", &[0x31]).bytes("8xp")),
            5 => scn.fileb(b"/w/d/name.\xff\xfe", b"x"),
            _ => {}
        }
        let mut a = s(&["convert", "d", "-m", "-o", "o"]);
        if r.pct(20) {
            a = s(&["convert", "d", "-m", "-p"]);
        }
        mode_args(r, &mut a);
        scn.steps.push(one(run(&a).policy(&[("skip", if r.pct(60) { "y" } else { "n" })], "y")));
        v.push(scn);
    } else {
        // sound input, failing reads
        let mut scn = if r.pct(70) {
            let mut scn = convert_job(r, "C09");
            if r.pct(40) {
                let i = calc(r);
                scn = Scn::new("C09", "");
                scn.file(&format!("/w/p.{}", i.ext), &i.bytes);
                let a = if r.pct(50) { s(&["details", &format!("p.{}", i.ext)]) } else { edit(r).args(&format!("p.{}", i.ext)) };
                scn.steps.push(one(run(&a).yes()));
            }
            scn
        } else {
            mass_job(r, "C09", true)
        };
        scn.kind = "read-errors".into();
        let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
        let rd = |o: &OpRec| matches!(o.class, Class::Read | Class::OpenR | Class::Stat | Class::List);
        for _ in 0..4 {
            let mut t = scn.clone();
            let f: Vec<Fault> = faults(r, &ops, 1, false, &rd);
            if f.is_empty() {
                continue;
            }
            t.steps[0].procs[0].faults = f;
            v.push(t);
        }
        if r.pct(30) {
            let mut t = scn.clone();
            t.steps[0].procs[0].faults = vec![Fault { at: r.below(ops.len().max(1)) as u32, kind: FaultKind::Sticky(Class::Read, EIO) }];
            v.push(t);
        }
    }
    Ok(v)
}

/// What an accepted conversion of a file that may be damaged must still give.
fn work_done(c: &Cmd, st: &StepResult, ctx: &Ctx) -> Result<(), String> {
    let p = st.p();
    let ie = ext(c.input.as_bytes()).to_string();
    let Some(src) = st.before.read(&c.input) else { return Err("the input can't be read".into()) };
    if is_calc(&ie) {
        let q = Prog::parse(&src, &ie).ok_or("the input is too short")?;
        let text = q.text(c.mode).ok_or("its body is no sequence of tokens of its model")?;
        if c.preview && !c.content && !stripped(&p.out).contains(&stripped(text.as_bytes())) {
            return Err("the preview is not the text of the program".into());
        }
        let Some(o) = &c.output else { return Ok(()) };
        let oe = ext(o.as_bytes()).to_string();
        let (true, Some(out)) = (all_yes(p), st.after.read(o)) else { return Ok(()) };
        if oe == "json" {
            let j = std::str::from_utf8(&out).ok().and_then(|x| J::parse(x).ok()).ok_or("no json")?;
            if json_bytes(&j).map(|x| x.0) != Some(src.to_vec()) {
                return Err("the json file does not hold the bytes of the input".into());
            }
            if j.get("body").map(|x| x.gstr("translation")) != Some(text) {
                return Err("the json file does not hold the text of the program".into());
            }
            return json_agrees(&j);
        }
        if is_calc(&oe) && meta_len(&ie) != meta_len(&oe) {
            return Ok(());
        }
        return cmdline::represents(c, &src, &ie, &out, &oe, &ctx.version);
    }
    let Some(o) = &c.output else { return Ok(()) };
    let oe = ext(o.as_bytes()).to_string();
    let (true, Some(out)) = (all_yes(p), st.after.read(o)) else { return Ok(()) };
    if ie == "txt" {
        return cmdline::represents(c, &src, &ie, &out, &oe, &ctx.version);
    }
    let j = std::str::from_utf8(&src).ok().and_then(|x| J::parse(x).ok());
    let Some((_, f)) = j.as_ref().and_then(json_bytes) else { return Ok(()) };
    for (sect, n) in [("header", &[55usize][..]), ("metadata", &[17, 19]), ("checksum", &[2])] {
        let have = j.as_ref().and_then(|j| j.get(sect)).and_then(|x| x.get("bytes")).and_then(|x| x.bytes()).map(|b| b.len()).unwrap_or(0);
        if !n.contains(&have) {
            return Err(format!("the {} of a program can't have {} bytes", sect, have));
        }
    }
    let named = j.as_ref().and_then(|j| j.get("model")).map(|x| x.gstr("model")).unwrap_or_default();
    if model(&named).name != named {
        return Ok(());
    }
    if oe == "json" || is_calc(&oe) && meta_len(&f) != meta_len(&oe) {
        return Ok(());
    }
    cmdline::represents(c, &src, &ie, &out, &oe, &ctx.version)
}

fn chk09(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    for (i, st) in run.steps.iter().enumerate() {
        let p = st.p();
        let c = cmd0(&scn.steps[i]);
        let what = scn.steps[i].procs[0].args()[1..].join(" ");
        match p.status {
            Status::Exit(0) | Status::Exit(1) => {}
            Status::Exit(n) => bad!("\"{}\" crashes: exit {} {:?}", what, n, cut(&p.errs())),
            Status::Signal(n) => bad!("\"{}\" crashes with signal {}", what, n),
            _ => continue,
        }
        let d = diff(&st.before.tree(), &st.after.tree());
        if p.status == Status::Exit(1) {
            let text = stripped(&p.out) + &p.errs();
            let text = text.replace("> ", "");
            if text.trim().is_empty() {
                bad!("\"{}\" exits with 1 and says nothing", what);
            }
            if !c.mass && !d.is_empty() && scn.kind != "arguments" {
                bad!("\"{}\" refused, yet changed {}", what, names_list(&d));
            }
        } else if scn.kind == "arguments" {
            if !c.mass && p.out.is_empty() && p.err.is_empty() {
                bad!("\"{}\" exits with 0 and prints nothing", what);
            }
        } else if !c.mass {
            // it accepted: it did its work
            if let (Some(o), true) = (c.output.as_ref(), c.verb == "convert") {
                if all_yes(p) && !st.after.exists(o) {
                    bad!("\"{}\" exits with 0 but made no {}", what, o);
                }
            }
            if p.out.is_empty() && p.err.is_empty() {
                bad!("\"{}\" exits with 0 and prints nothing", what);
            }
            if p.fired.is_empty() && c.verb == "convert" {
                if let Err(e) = work_done(&c, st, ctx) {
                    bad!("\"{}\" exits with 0, but did not do its work: {}", what, e);
                }
            }
        }
        if c.mass {
            // inputs stay as they are
            let ind = real(&st.before, &c.input);
            let outd = c.output.as_ref().map(|o| real(&st.before, o)).unwrap_or_default();
            if ind != outd {
                for x in &d {
                    if in_dir(x, &ind) {
                        bad!("\"{}\" changed the input {}", what, le(x));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C10

const HOSTILE8: [&[u8]; 34] = [
    b"../X", b"..", b".", b"", b"/X", b"/etc/X", b"a/b", b"sub/X", b"../../X", b"/w/X", b"./X", b"X/..", b"X/.", b"X/", b"//X", b"sub/../X",
    b"~", b"~/X", b"A\\B", b"C:X", b".X", b"X.", b"X.8xp", b"X.txt", b"-o", b" ", b"X Y", b"\xe9\xff", b"\xb7\x01", b"sub", b"LNK", b"DIRLNK", b"..\\X", b"\nX",
];

fn gen10(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = Scn::new("C10", "hostile");
    scn.dir("/w/d");
    for d in ["/etc", "/tmp", "/w/sub", "/w/o/sub", "/w/a", "/X"] {
        if r.pct(70) {
            scn.dir(d);
        }
    }
    scn.file("/w/secret.txt", b"secret");
    scn.file("/w/X.txt", b"outside");
    if r.pct(50) {
        scn.file("/w/sub/X.txt", b"outside too");
    }
    let outs = ["o", "o/", "./o", "/w/o", "o/.", "../w/o", "ol", "o/deep", "."];
    let mut outd = r.pick(&outs).to_string();
    if r.pct(40) {
        outd = "o".into();
    }
    match outd.as_str() {
        "ol" => {
            scn.dir("/w/elsewhere");
            scn.link("/w/ol", "elsewhere");
        }
        "o/deep" => scn.dir("/w/o/deep"),
        _ => {
            if r.pct(85) || outd != "o" {
                scn.dir("/w/o");
            }
        }
    }
    if r.pct(40) && outd != "." && outd != "ol" {
        scn.link("/w/o/LNK.txt", "../secret.txt");
        scn.link("/w/o/LNK.8xp", "../secret.txt");
        scn.link("/w/o/DIRLNK.txt", "../sub");
        scn.dir("/w/o/ADIR.txt");
    }
    let same = outd == "." || r.pct(10);
    let ind = if same { outd.clone() } else { "d".into() };
    let base = if same { gen::abs(&outd) } else { "/w/d".to_string() };
    for k in 0..r.range(1, 5) {
        let h: Vec<u8> = if r.pct(80) {
            r.pick(&HOSTILE8).to_vec()
        } else if r.pct(50) {
            r.pick(&[&b"ADIR"[..], b"LNK", b"X"]).to_vec()
        } else {
            (0..r.range(1, 8)).map(|_| *r.pick(&[b'.', b'/', b'A', b'w', b'o', 0xE9, b'\\', 0])).collect()
        };
        let mut p = prog(r);
        p.name = pad(&h, 8);
        match r.below(10) {
            0..=5 => {
                let e = *r.pick(&["8xp", "8xp", "83p", "82p"]);
                if e != "8xp" {
                    p.dest = 0;
                    p.version = 0;
                }
                scn.file(&format!("{}/f{}.{}", base, k, e), &p.bytes(e));
            }
            6..=8 => {
                let m = r.below(3);
                let mut j = to_json(&p, "8xp", m).unwrap();
                let long = "N".repeat(300);
                let deep = "../".repeat(20) + "etc/X";
                let n = *r.pick(&[
                    "../X", "../../../etc/X", "/etc/passwd", "..", ".", "", "a/../../X", "sub/X", "/w/secret", "X\u{0}Y", "..\u{0}", "é/ü", "normal", "NORMALNAME.WITH.DOTS",
                    "../secret", "/w/X", "o/../../X", &long, &deep,
                ]);
                if let Some(mm) = j.get_mut("metadata") {
                    mm.set("name", J::s(n));
                }
                scn.file(&format!("{}/f{}.json", base, k), j.render(true).as_bytes());
            }
            _ => {
                let t = format!("{}\n\nProgram\nRAM\naccessible\nlatest\nDisp 1", String::from_utf8_lossy(&h));
                scn.file(&format!("{}/f{}.txt", base, k), t.as_bytes());
            }
        }
    }
    let a = s(&["convert", &ind, "-m", "-o", &outd]);
    let mut p = run(&a).yes();
    if r.pct(20) {
        circumstances(r, &mut p);
    }
    scn.steps.push(one(p));
    scn.set("seed", &r.next().to_string());
    let mut v = vec![scn.clone()];
    if r.pct(30) {
        let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
        v.extend(with_faults(r, &scn, &ops, 0, 2, 2, true, &|_| true));
    }
    Ok(v)
}

fn chk10(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    for (i, st) in run.steps.iter().enumerate() {
        let c = cmd0(&scn.steps[i]);
        let Some(o) = c.output.clone() else { continue };
        let outd = target(&st.before, &o).unwrap_or_else(|| real(&st.before, &o));
        let before = st.before.tree();
        let look = |fs: &Fs, k: usize| -> Chk {
            for x in diff(&before, &fs.tree()) {
                if !in_dir(&x, &outd) {
                    bad!("{} outside the output directory {} was created, changed or removed (change {} of the run)", le(&x), le(&outd), k);
                }
            }
            Ok(())
        };
        ctx.stats.inspected += st.prefixes(|fs, k| look(fs, k))?;
        look(&st.after, st.journal.len())?;
        // naming: the program's name and the extension, directly in the directory
        let plan = c.mass_plan(&st.before);
        let p = st.p();
        let mut expected: BTreeSet<Vec<u8>> = BTreeSet::new();
        for (_, e, name, _) in &plan {
            for x in ["txt", "8xp"] {
                if (x == "txt" && e != "txt") || (x == "8xp" && (e == "txt" || e == "json")) {
                    let mut q = outd.clone();
                    q.push(b'/');
                    q.extend(format!("{}.{}", name, x).into_bytes());
                    expected.insert(q);
                }
            }
        }
        let ended = matches!(p.status, Status::Exit(0));
        let after = st.after.tree();
        if ended && p.fired.is_empty() {
            for x in diff(&before, &after) {
                if x != outd && !expected.contains(&x) {
                    bad!("{} was created, changed or removed: no program's name with the extension added", le(&x));
                }
            }
            // and the ordinary names among them are there
            for (ip, e, name, _) in &plan {
                let plain = !name.is_empty() && name.len() < 200 && name.chars().all(|c| c.is_alphanumeric() || c == '.') && !name.starts_with('.') && !name.contains("..");
                if !plain {
                    continue;
                }
                let x = if e == "txt" { "8xp" } else { "txt" };
                let mut q = outd.clone();
                q.push(b'/');
                q.extend(format!("{}.{}", name, x).into_bytes());
                match after.get(&q) {
                    Some(_) => {}
                    None => bad!("{} (program {:?}) was not saved as {}", ip, name, le(&q)),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11

fn gen11(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = mass_job(r, "C11", true);
    let mut v = vec![];
    // any listing order, chance and circumstance
    circumstances(r, &mut scn.steps[0].procs[0]);
    scn.steps[0].procs[0].list_seed = r.next() | 2;
    if r.pct(25) {
        let p = scn.steps[0].procs[0].clone();
        scn.steps[0].procs[0] = p.policy(&[("skip", "y"), ("already exists", "n")], "y");
        scn.kind = "mass-declined".into();
    }
    v.push(scn.clone());
    let p = scn.steps[0].procs[0].clone();
    scn.steps[0].procs[0] = p.policy(&[("skip", "y")], "y");
    scn.steps[0].procs[0].rchunk = 0;
    scn.steps[0].procs[0].wchunk = 0;
    scn.steps[0].procs[0].eintr = 0;
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let save = |o: &OpRec| matches!(o.class, Class::Data | Class::Sync | Class::Rename) || (o.class == Class::Create && o.op == 2);
    for _ in 0..4 {
        let mut t = scn.clone();
        t.kind = "mass-failing".into();
        let n = if r.pct(70) { 1 } else { 2 };
        let fl: Vec<Fault> = faults(r, &ops, n, false, &save).into_iter().filter(|f| !matches!(f.kind, FaultKind::Sticky(..))).collect();
        if fl.is_empty() {
            continue;
        }
        t.steps[0].procs[0].faults = fl;
        v.push(t);
    }
    Ok(v)
}

fn chk11(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    let st = &run.steps[0];
    let c = cmd0(&scn.steps[0]);
    let p = st.p();
    let plan = c.mass_plan(&st.before);
    let declined: usize = p.asked.iter().filter(|a| String::from_utf8_lossy(&a.prompt).contains("already exists") && !is_yes(&String::from_utf8_lossy(&a.got))).count();
    let hard = p.fired.iter().filter(|f| !f.starts_with("short") && *f != "eintr" && *f != "lost-writeback").count();
    if !matches!(p.status, Status::Exit(_)) {
        bad!("the conversion ends with {:?}", p.status);
    }
    if p.fired.iter().all(|f| f == "eintr") && p.code() != 0 && st.before.exists(&c.input) {
        bad!("nothing failed, yet it exits with {}: {}", p.code(), cut(&p.errs()));
    }
    let mut missing: Vec<String> = vec![];
    let mut groups = 0;
    for (inp, _, _, outs) in &plan {
        let mut lost = false;
        for o in outs {
            let oe = ext(o.as_bytes()).to_string();
            let mut a = s(&["convert", inp, "-o", &format!("/w/zz-single.{}", oe)]);
            for (k, x) in scn.steps[0].procs[0].args().iter().enumerate() {
                if k >= 2 && (x == "-d" || x == "-e" || x == "--display-mode" || x == "--encode-mode") {
                    a.push(x.clone());
                    a.push(scn.steps[0].procs[0].args()[k + 1].clone());
                }
            }
            let single = ctx.step_from(&st.before, &one(gen::run(&a).yes()))?;
            let Some(want) = single.after.read(&format!("/w/zz-single.{}", oe)) else {
                if st.after.read(o) != st.before.read(o) {
                    bad!("converting {} alone is refused, yet the mass conversion made {}", inp, o);
                }
                continue;
            };
            let got = st.after.read(o);
            if got.as_ref() != Some(&want) {
                if got != st.before.read(o) {
                    bad!("{} ({}) is not what converting {} alone gives ({})", o, show(&got), inp, show(&Some(want)));
                }
                missing.push(o.clone());
                lost = true;
            }
        }
        if lost {
            groups += 1;
        }
    }
    // an input that cannot be read ends the conversion
    let inputs = p.fired.iter().any(|f| ["stat", "open", "read", "list", "other", "stdin", "stdout", "stderr"].iter().any(|c| f.ends_with(&format!(":{}", c))));
    if groups > declined + hard && !inputs {
        bad!("not converted: {} (programs: {}), though only {} save(s) failed or were declined", missing.join(", "), groups, declined + hard);
    }
    // others are ignored and inputs stay
    let outs: BTreeSet<Vec<u8>> = plan.iter().flat_map(|x| x.3.iter().map(|o| real(&st.after, o))).collect();
    let outd = c.output.as_ref().map(|o| gen::abs(o).into_bytes()).unwrap_or_default();
    for x in diff(&st.before.tree(), &st.after.tree()) {
        if outs.contains(&x) || x == outd {
            continue;
        }
        if hard >= 2 && !st.before.tree().contains_key(&x) && !any_ext(ext(&x)) {
            continue; // removing what a failed save left failed as well
        }
        bad!("{} was created, changed or removed", le(&x));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C12

fn gen12(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn;
    if r.pct(55) {
        scn = save_job(r, "C12");
        if r.pct(4) {
            nowhere(r, &mut scn);
        }
        if r.pct(40) {
            // the same again with files around
            let c = cmd0(&scn.steps[0]);
            if let Some(o) = c.output {
                if !c.mass {
                    let stem = o.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(o.clone());
                    for e in ["bak", "old", "orig", "tmp"] {
                        if r.pct(50) {
                            scn.file(&gen::abs(&format!("{}.{}", stem, e)), b"mine");
                            scn.file(&gen::abs(&format!("{}.{}", o, e)), b"mine");
                        }
                    }
                }
            }
        }
    } else {
        scn = Scn::new("C12", "no-output");
        let i = input(r);
        let inp = format!("in.{}", i.ext);
        scn.file(&format!("/w/{}", inp), &i.bytes);
        let k = calc(r);
        let cal = format!("k.{}", k.ext);
        scn.file(&format!("/w/{}", cal), &k.bytes);
        scn.file(&format!("/w/d/{}", inp), &i.bytes);
        scn.dir("/w/o");
        bystanders(r, &mut scn);
        let a = match r.below(22) {
            19 => {
                let mut a = edit(r).args(&cal);
                a.push(r.pick::<&str>(&["-f", "--new-file"]).to_string());
                a
            }
            20 => s(&["convert", &inp, "-o", "x.txt", r.pick::<&str>(&["-d", "-e"])]),
            0 => s(&["details", &cal]),
            1 => s(&["details", &inp]),
            2 => s(&["search", "sin("]),
            3 => s(&["search", "0x5D00", "-t", "byte"]),
            4 => s(&["models"]),
            5 => s(&["help"]),
            6 => s(&["help", "convert"]),
            7 => s(&["version"]),
            8 => s(&["convert", &inp, "-p"]),
            9 => s(&["convert", &inp, "-c", "-p"]),
            10 => s(&["convert", &inp]),
            11 => s(&["convert", "d", "-m", "-p"]),
            12 => {
                let mut a = edit(r).args(&cal);
                a.push("-d".into());
                a
            }
            13 => s(&["convert", &inp, "-o", "x.txt", "-d", "nonsense"]),
            14 => s(&["convert", &inp, "-o", "x.8xp", "-e", "nonsense"]),
            15 => s(&["convert", "missing.8xp", "-o", "x.txt"]),
            16 => s(&["rename", &cal]),
            17 => s(&["convert", "d", "-o", "x.txt"]),
            18 => s(&["bogus", &cal]),
            _ => {
                let mut a = bad_edit(r).args(&cal);
                if r.pct(60) {
                    a.extend(s(&["-f", "n.8xp", "-d"]));
                }
                a
            }
        };
        scn.steps.push(one(run(&a).yes()));
    }
    if r.pct(35) {
        for e in scn.disk.iter_mut() {
            if let DiskEnt::File(_, _, m) = e {
                if r.pct(60) {
                    *m = *r.pick(&[0o600u32, 0o640, 0o664, 0o755, 0o700, 0o444, 0o400, 0o666]);
                }
            }
        }
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let mut v = vec![scn.clone()];
    v.extend(with_faults(r, &scn, &ops, 0, 4, 2, true, &|_| true));
    if r.pct(15) {
        let mut t = scn.clone();
        t.steps[0].procs[0] = t.steps[0].procs[0].clone().policy(&[("skip", "y")], "n");
        v.push(t);
    }
    Ok(v)
}

fn chk12(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    for (i, st) in run.steps.iter().enumerate() {
        let c = cmd0(&scn.steps[i]);
        let p = st.p();
        let args = scn.steps[i].procs[0].args();
        let before = st.before.tree();
        let mut may: BTreeSet<Vec<u8>> = BTreeSet::new();
        let bare = matches!(args.last().map(|x| x.as_str()), Some("-f" | "--new-file" | "-o" | "--output" | "-e" | "--encode-mode"))
            || c.verb == "convert" && matches!(args.last().map(|x| x.as_str()), Some("-d" | "--display-mode"));
        let refused = c.delete_old && c.output.is_none() || bare;
        if !refused {
            for o in c.outputs(&st.before) {
                may.insert(real(&st.before, &o));
                // a file written through a link it was told to write
                if let Some(t) = target(&st.before, &o) {
                    may.insert(t);
                }
            }
            if c.delete_old {
                may.insert(real(&st.before, &c.input));
            }
            if c.mass {
                if let Some(o) = &c.output {
                    if !st.before.exists(o) {
                        may.insert(gen::abs(o).into_bytes());
                    }
                }
            }
        }
        let what = args[1..].join(" ");
        let look = |fs: &Fs, k: usize| -> Chk {
            let now = fs.tree();
            for (x, e) in &before {
                if !may.contains(x) && now.get(x) != Some(e) {
                    bad!("\"{}\" changed or removed {} (change {} of the run)", what, le(x), k);
                }
            }
            Ok(())
        };
        ctx.stats.inspected += st.prefixes(|fs, k| look(fs, k))?;
        look(&st.after, st.journal.len())?;
        // permissions stay, those of a replaced file as well
        if matches!(p.status, Status::Exit(_)) && !p.fired.iter().any(|f| f.ends_with(":stat") || f.ends_with(":other") || f.ends_with(":open")) {
            let now = st.after.modes();
            for (x, m) in st.before.modes() {
                if let Some(n) = now.get(&x) {
                    if *n != m {
                        bad!("\"{}\" changed the permissions of {} from {:o} to {:o}", what, le(&x), m, n);
                    }
                }
            }
        }
        // nothing new but what was asked for; only several failures at once (the removal of the unfinished
        // file among them) or a kill may leave something behind
        let ended = matches!(p.status, Status::Exit(_));
        let excuse = p.fired.iter().filter(|f| *f != "eintr" && !f.starts_with("short")).count() >= 2;
        // a directory in the way of the output is a failure of its own
        let excuse = excuse || (p.fired.iter().any(|f| f.ends_with(":unlink")) && ctx.clean_from(&st.before, &scn.steps[i])?.p().code() != 0);
        if ended && !excuse {
            for x in diff(&before, &st.after.tree()) {
                if !may.contains(&x) {
                    bad!("\"{}\" created {}", what, le(&x));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13

fn gen13(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    if ctx.build == "release" && r.pct(1) {
        // far more text than a program holds: the work must stay proportional to it
        let mut scn = Scn::new("C13", "long-text");
        let m = model(r.pick(&MODELS[..]).name);
        let line = *r.pick(&["Disp 1:abcdefghij\n", "A", "\"x\"\n", "normalcdf(", "\n", "¤", "0123456789"]);
        let n = r.range(150_000, 300_000);
        let mut t = format!("A\n\nProgram\nRAM\n{}\n{}\n", r.pick(&MODES), m.name);
        while t.len() < n {
            t.push_str(line);
        }
        scn.file("/w/a.txt", t.as_bytes());
        scn.steps.push(one(run(&s(&["convert", "a.txt", "-o", "a.8xp", "-e", r.pick::<&str>(&["min", "max", "smart"])]))));
        scn.set("limit", "5000");
        return Ok(vec![scn]);
    }
    let mut scn = match r.below(10) {
        0..=2 => {
            let mut s = convert_job(r, "C13");
            let c = cmd0(&s.steps[0]);
            if let Some(o) = c.output {
                if r.pct(60) && !s.build().exists(&o) {
                    s.file(&gen::abs(&o), b"old");
                }
            }
            s
        }
        3 if r.pct(50) => {
            let mut scn = odd_arguments(r);
            scn.prop = "C13".into();
            scn
        }
        4 if r.pct(50) => {
            // an edit to be refused
            let mut scn = Scn::new("C13", "bad-edit");
            let i = calc(r);
            let f = format!("x.{}", i.ext);
            scn.file(&format!("/w/{}", f), &i.bytes);
            let mut a = bad_edit(r).args(&f);
            if r.pct(40) {
                a.extend(s(&["-f", "n.8xp"]));
            }
            scn.steps.push(one(run(&a).yes()));
            scn
        }
        3 | 4 => edit_job(r, "C13"),
        5..=7 => mass_job(r, "C13", false),
        8 => {
            let mut scn = Scn::new("C13", "text");
            let m = model(r.pick(&MODELS[..]).name);
            // text no token, or only an empty one, fits
            let t = match r.below(5) {
                0 => "\u{1F600}".to_string(),
                1 => "\t\u{a0}".into(),
                2 => "\r\r\r".into(),
                3 => "abc\u{0}def".into(),
                _ => "¤".repeat(r.range(1, 50)),
            };
            scn.file("/w/a.txt", format!("A\n\nProgram\nRAM\n{}\n{}\nDisp 1{}", r.pick(&MODES), m.name, t).as_bytes());
            scn.steps.push(one(run(&s(&["convert", "a.txt", "-o", "a.8xp", "-e", r.pick::<&str>(&["min", "max", "smart"])]))));
            scn
        }
        _ => {
            let mut scn = Scn::new("C13", "other");
            let i = calc(r);
            let d = damage(r, &i.bytes, &i.ext);
            let f = format!("x.{}", i.ext);
            scn.file(&format!("/w/{}", f), &d);
            let a = match r.below(6) {
                0 => s(&["details", &f]),
                1 => s(&["search", r.pick::<&str>(&["", "[", "0x", "\u{1F600}", "sin("])]),
                2 => s(&["help", "help"]),
                3 => s(&["convert", &f, "-p", "-c"]),
                4 => s(&["rename", &f, "-n", "A"]),
                _ => s(&["comment", &f, "-c", r.pick::<&str>(&["[", "[[", "[x:", "]", "[color", "a[b"])]),
            };
            scn.steps.push(one(run(&a).yes()));
            scn
        }
    };
    scn.set("limit", "5000");
    let mut v = vec![];
    let pr = scn.steps[0].procs[0].clone();
    for _ in 0..3 {
        let mut t = scn.clone();
        let p = &mut t.steps[0].procs[0];
        match r.below(8) {
            0 => p.stdin = terminal(r),
            1 => p.stdin = Stdin::Script(vec![]),
            2 => p.stdin = Stdin::Script(vec![StdinItem::Stuck(*r.pick(&[EIO, EAGAIN, EBADF]))]),
            3 => *p = pr.clone().policy(&[], r.pick::<&str>(&["maybe", "", "Y E S", "0"])),
            4 => *p = pr.clone().policy(&[("skip", "y")], "n"),
            5 => p.stdin = Stdin::Script((0..200).map(|_| StdinItem::Data(vec![*r.pick(&[b'\n', b'q', 0xff]); 3])).collect()),
            6 => *p = pr.clone().policy(&[("skip", "y")], "<eof>"),
            _ => {}
        }
        v.push(t);
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    if !ops.is_empty() {
        for _ in 0..4 {
            let mut t = scn.clone();
            let k = r.below(ops.len());
            let c = ops[k].class;
            let e = match c {
                Class::Create if r.pct(30) => EEXIST,
                // would block: not to be waited for in a busy loop
                _ if r.pct(15) => EAGAIN,
                _ => *r.pick(c.errnos()),
            };
            // a name taken is a passing condition, the others stay
            let kind = if e == EEXIST { FaultKind::Err(e) } else { FaultKind::Sticky(c, e) };
            t.steps[0].procs[0].faults = vec![Fault { at: k as u32, kind }];
            if r.pct(30) {
                let mut fs2 = faults(r, &ops, 1, false, &|_| true);
                t.steps[0].procs[0].faults.append(&mut fs2);
            }
            if r.pct(30) {
                t.steps[0].procs[0] = t.steps[0].procs[0].clone().policy(&[("skip", "y")], "y");
            }
            t.steps[0].procs[0].eintr = if r.pct(30) { 2 } else { 0 };
            v.push(t);
        }
        let mut t = scn.clone();
        t.cap = Some(scn.build().used() + r.below(60) as u64);
        t.steps[0].procs[0] = t.steps[0].procs[0].clone().policy(&[("skip", "y")], "y");
        v.push(t);
    }
    Ok(v)
}

fn chk13(scn: &Scn, ctx: &mut Ctx) -> Chk {
    ctx.nontrivial = true;
    let base: usize = scn.par("limit").parse().unwrap_or(5000);
    let size: usize = scn.build().used() as usize;
    let run = ctx.run_limit(scn, base + size)?;
    for (k, st) in run.steps.iter().enumerate() {
        let p = st.p();
        // nothing refused it memory here: it took all there was
        if p.status == Status::Signal(6) && scn.steps[k].procs[0].alloc == 0 && le(&p.err).contains("memory allocation of") {
            bad!("still working when all memory was used up: {}", le(&p.err));
        }
        if p.status == Status::Hang {
            let tail: Vec<String> = p.ops.iter().rev().take(6).map(|o| format!("{} {}", OPS[o.op as usize], le(&o.path))).collect();
            bad!("still running after {} calls or 10 s of processor time; the last calls: {}", p.ops.len(), tail.join(", "));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C14

fn gen14(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = Scn::new("C14", "");
    let n = if r.pct(70) { 2 } else { 3 };
    let mut ps: Vec<ProcSpec> = vec![];
    match r.below(12) {
        0 | 1 => {
            scn.kind = "different-outputs".into();
            let i = input(r);
            let mut outs: Vec<String> = vec![];
            scn.file(&format!("/w/in.{}", i.ext), &i.bytes);
            for k in 0..n {
                let (inp, e) = if r.pct(50) {
                    (format!("in.{}", i.ext), i.ext.clone())
                } else {
                    let j = calc(r);
                    scn.file(&format!("/w/j{}.{}", k, j.ext), &j.bytes);
                    (format!("j{}.{}", k, j.ext), j.ext)
                };
                let oe = out_ext(r, &e);
                let mut out = format!("o{}.{}", k, oe);
                // close together: the same name with another extension or in another directory
                let near = r.pick(&[format!("o.{}", oe), format!("a/o.{}", oe), format!("a/o0.{}", oe), format!("b/o.{}", oe)]).clone();
                if r.pct(60) && !outs.contains(&near) {
                    out = near;
                    scn.dir("/w/a");
                    scn.dir("/w/b");
                }
                outs.push(out.clone());
                if r.pct(30) {
                    let c = old_content(r);
                    scn.file(&format!("/w/{}", out), &c);
                }
                let a = if is_calc(&e) && r.pct(40) {
                    let mut a = edit(r).args(&inp);
                    a.extend(s(&["-f", &out]));
                    a
                } else {
                    let mut a = s(&["convert", &inp, "-o", &out]);
                    mode_args(r, &mut a);
                    a
                };
                ps.push(run(&a).yes());
            }
        }
        2 | 3 => {
            scn.kind = "same-output".into();
            let e = *r.pick(&["8xp", "txt", "json"]);
            if r.pct(40) {
                let c = old_content(r);
                scn.file(&format!("/w/out.{}", e), &c);
            }
            for k in 0..n {
                let j = input(r);
                scn.file(&format!("/w/j{}.{}", k, j.ext), &j.bytes);
                ps.push(run(&s(&["convert", &format!("j{}.{}", k, j.ext), "-o", &format!("out.{}", e)])).yes());
            }
        }
        4 | 5 => {
            scn.kind = "reader".into();
            let x = calc(r);
            let f = format!("x.{}", x.ext);
            scn.file(&format!("/w/{}", f), &x.bytes);
            if r.pct(50) {
                ps.push(run(&edit(r).args(&f)).yes());
            } else {
                let mut y = Prog::parse(&calc_ext(r, &x.ext).bytes, &x.ext).unwrap();
                y.name = pad(b"OTHER", 8);
                scn.file(&format!("/w/y.{}", x.ext), &y.bytes(&x.ext));
                ps.push(run(&s(&["convert", &format!("y.{}", x.ext), "-o", &f])).yes());
            }
            for k in 1..n {
                ps.push(match r.below(3) {
                    0 => run(&s(&["details", &f])),
                    1 => run(&s(&["convert", &f, "-p", "-d", r.pick::<&str>(&MODES)])),
                    _ => run(&s(&["convert", &f, "-o", &format!("r{}.{}", k, r.pick(&["txt", "json", "8xp"]))])),
                });
            }
        }
        6 => {
            scn.kind = "mass".into();
            // made by whoever comes first
            if r.pct(60) {
                scn.dir("/w/o");
            }
            let nm = names(r, 6);
            for k in 0..2 {
                scn.dir(&format!("/w/d{}", k));
                for q in 0..r.range(1, 3) {
                    let i = portable(r, &nm[k * 3 + q]);
                    scn.file(&format!("/w/d{}/{}.{}", k, nm[k * 3 + q], i.ext), &i.bytes);
                }
                ps.push(run(&s(&["convert", &format!("d{}", k), "-m", "-o", "o"])).yes());
            }
        }
        7 => {
            // the same inputs, or inputs of the same names
            scn.kind = "mass-overlap".into();
            if r.pct(70) {
                scn.dir("/w/o");
            }
            let nm = names(r, 3);
            let twice = r.pct(40);
            for k in 0..if twice { 1 } else { 2 } {
                scn.dir(&format!("/w/d{}", k));
                for q in 0..r.range(1, 3) {
                    let i = portable(r, &nm[q]);
                    scn.file(&format!("/w/d{}/{}.{}", k, nm[q], i.ext), &i.bytes);
                }
            }
            if r.pct(30) {
                let c = old_content(r);
                scn.dir("/w/o");
                scn.file(&format!("/w/o/{}.{}", nm[0], r.pick(&["txt", "8xp"])), &c);
            }
            for k in 0..2 {
                ps.push(run(&s(&["convert", &format!("d{}", if twice { 0 } else { k }), "-m", "-o", "o"])).yes());
            }
        }
        8 | 9 => {
            // a directory is converted while one of the files in it changes or appears
            scn.kind = "mass-reader".into();
            scn.dir("/w/d");
            let o = if r.pct(70) { "o" } else { "d" };
            if o == "o" {
                scn.dir("/w/o");
            }
            let nm = names(r, 4);
            let x = portable(r, &nm[0]);
            let f = format!("d/{}.{}", nm[0], x.ext);
            if is_calc(&x.ext) && r.pct(60) {
                scn.file(&format!("/w/{}", f), &x.bytes);
                ps.push(run(&edit(r).args(&f)).yes());
            } else {
                // a new file, or another version of one
                let y = portable(r, &nm[0]);
                let oe = out_ext(r, &y.ext);
                scn.file(&format!("/w/y.{}", y.ext), &y.bytes);
                if r.pct(50) && x.ext == oe {
                    scn.file(&format!("/w/{}", f), &x.bytes);
                }
                ps.push(run(&s(&["convert", &format!("y.{}", y.ext), "-o", &format!("d/{}.{}", nm[0], oe)])).yes());
            }
            for q in 1..r.range(1, 4) {
                let i = portable(r, &nm[q]);
                scn.file(&format!("/w/d/{}.{}", nm[q], i.ext), &i.bytes);
            }
            ps.push(run(&s(&["convert", "d", "-m", "-o", o])).yes());
        }
        10 => {
            // a file is replaced by an edited one of another name while others read it
            scn.kind = "moved".into();
            let x = calc(r);
            let f = format!("x.{}", x.ext);
            scn.file(&format!("/w/{}", f), &x.bytes);
            let mut a = edit(r).args(&f);
            a.extend(s(&["-f", &format!("y.{}", x.ext), "-d"]));
            ps.push(run(&a).yes());
            for k in 1..n {
                ps.push(match r.below(3) {
                    0 => run(&s(&["details", &f])),
                    _ => run(&s(&["convert", &f, "-o", &format!("r{}.{}", k, r.pick(&["txt", "json", "8xp"]))])),
                });
            }
        }
        _ => {
            scn.kind = "edits".into();
            let x = calc(r);
            let f = format!("x.{}", x.ext);
            scn.file(&format!("/w/{}", f), &x.bytes);
            for _ in 0..2 {
                ps.push(run(&edit(r).args(&f)).yes());
            }
        }
    }
    let same_pid = r.pct(12);
    for (k, p) in ps.iter_mut().enumerate() {
        p.pid = if same_pid { 77 } else { 1000 + k as i64 };
        p.hash_seed = r.next();
        if r.pct(25) {
            p.wchunk = r.range(1, 200) as u32;
        }
        if r.pct(25) {
            p.rchunk = r.range(16, 400) as u32;
        }
    }
    let mut v = vec![];
    for _ in 0..4 {
        let mut t = scn.clone();
        let mut ps = ps.clone();
        if r.pct(35) {
            // one of them fails or is killed half-way
            let k = r.below(ps.len());
            let ops = ctx.step_from(&scn.build(), &one(ps[k].clone()))?.p().ops.clone();
            ps[k].faults = faults(r, &ops, 1, true, &no_std);
        }
        t.steps.push(Step { procs: ps, schedule: vec![], sched_seed: r.next() | 1, power: None });
        v.push(t);
    }
    Ok(v)
}
fn calc_ext(r: &mut Rng, e: &str) -> Input {
    loop {
        let c = calc(r);
        if c.ext == e {
            return c;
        }
    }
}

fn chk14(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    let st = &run.steps[0];
    let n = st.procs.len();
    let spec = &scn.steps[0].procs;
    let mut alone = vec![];
    for p in spec {
        let mut p = p.clone();
        p.faults.clear();
        alone.push(ctx.step_from(&st.before, &one(p))?);
    }
    // hurt by a fault or killed: whatever it does is no measure, but what it leaves is
    let hurt: Vec<bool> = spec.iter().map(|p| !p.faults.is_empty()).collect();
    let any_hurt = hurt.iter().any(|h| *h);
    let cmds: Vec<Cmd> = spec.iter().map(cmdline::parse).collect();
    for (k, p) in st.procs.iter().enumerate() {
        if !matches!(p.status, Status::Exit(0) | Status::Exit(1)) && !(hurt[k] && matches!(p.status, Status::Exit(_) | Status::Killed)) {
            bad!("process {} ends with {:?}: {}", k, p.status, cut(&p.errs()));
        }
    }
    match scn.kind.as_str() {
        "different-outputs" | "mass" => {
            for k in 0..n {
                for o in cmds[k].outputs(&st.before) {
                    if hurt[k] && st.after.read(&o) == st.before.read(&o) {
                        continue;
                    }
                    if st.after.read(&o) != alone[k].after.read(&o) {
                        bad!("{} ({}) is not what process {} makes when it runs alone ({})", o, show(&st.after.read(&o)), k, show(&alone[k].after.read(&o)));
                    }
                }
                if !hurt[k] && st.procs[k].code() != alone[k].p().code() {
                    bad!("process {} exits with {}, alone with {}: {}", k, st.procs[k].code(), alone[k].p().code(), cut(&st.procs[k].errs()));
                }
            }
            let mut known: BTreeSet<Vec<u8>> = st.before.tree().into_keys().collect();
            for a in &alone {
                known.extend(a.after.tree().into_keys());
            }
            for x in st.after.tree().into_keys() {
                if !known.contains(&x) && (!any_hurt || any_ext(ext(&x))) {
                    bad!("{} was left behind", le(&x));
                }
            }
        }
        "mass-overlap" => {
            let outs: BTreeSet<String> = cmds.iter().flat_map(|c| c.outputs(&st.before)).collect();
            for o in &outs {
                let last: Vec<_> = alone.iter().map(|a| a.after.read(o)).collect();
                let old = st.before.read(o);
                let mut count = 0;
                st.prefixes(|fs, k| {
                    count += 1;
                    let now = fs.read(o);
                    if now != old && !last.contains(&now) {
                        bad!("at change {} {} holds {}: no complete file either process writes", k, o, show(&now));
                    }
                    Ok(())
                })?;
                ctx.stats.inspected += count;
                let now = st.after.read(o);
                // who makes it when alone, and was not hurt, has made it
                let must = (0..n).any(|k| !hurt[k] && cmds[k].outputs(&st.before).contains(o));
                if must && !last.contains(&now) {
                    bad!("in the end {} holds {}: no complete file one of them wrote", o, show(&now));
                }
            }
            for k in 0..n {
                if !hurt[k] && st.procs[k].code() != alone[k].p().code() {
                    bad!("process {} exits with {}, alone with {}: {}", k, st.procs[k].code(), alone[k].p().code(), cut(&st.procs[k].errs()));
                }
            }
            if !any_hurt {
                for x in st.after.tree().into_keys() {
                    if !st.before.tree().contains_key(&x) && !alone.iter().any(|a| a.after.tree().contains_key(&x)) {
                        bad!("{} was left behind", le(&x));
                    }
                }
            }
        }
        "mass-reader" | "moved" => {
            let old = st.before.clone();
            let new = alone[0].after.clone();
            let main = cmds[0].output.clone().unwrap_or_else(|| cmds[0].input.clone());
            let mut ok: Vec<_> = vec![old.read(&main), new.read(&main)];
            // in the same directory the output may be one of the mass conversion as well
            let mut seen = vec![];
            for k in 1..n {
                let mut sp = spec[k].clone();
                sp.faults.clear();
                seen.push([ctx.step_from(&old, &one(sp.clone()))?, ctx.step_from(&new, &one(sp))?]);
            }
            for w in seen.iter().flatten() {
                ok.push(w.after.read(&main));
            }
            let mut count = 0;
            st.prefixes(|fs, k| {
                count += 1;
                if !ok.contains(&fs.read(&main)) {
                    bad!("at change {} a reader of {} would see a mixture", k, main);
                }
                if scn.kind == "moved" && fs.read(&cmds[0].input) != old.read(&cmds[0].input) && fs.read(&main) != new.read(&main) {
                    bad!("at change {} neither {} nor {} is there", k, cmds[0].input, main);
                }
                Ok(())
            })?;
            ctx.stats.inspected += count;
            if !hurt[0] && (st.procs[0].code() != alone[0].p().code() || !ok[1..].contains(&st.after.read(&main))) {
                bad!("process 0 exits with {}, alone with {}; {} holds {}", st.procs[0].code(), alone[0].p().code(), main, show(&st.after.read(&main)));
            }
            for k in 1..n {
                let [a, b] = &seen[k - 1];
                let p = &st.procs[k];
                if hurt[k] {
                    continue;
                }
                if ![a.p().code(), b.p().code()].contains(&p.code()) {
                    bad!("process {} exits with {}: {}", k, p.code(), cut(&p.errs()));
                }
                if cmds[k].verb == "details" && p.out != a.p().out && p.out != b.p().out {
                    bad!("process {} printed {:?}, which fits neither the old nor the new version", k, cut(&p.outs()));
                }
                let outs: BTreeSet<String> = cmds[k].outputs(&old).into_iter().chain(cmds[k].outputs(&new)).collect();
                for o in outs.iter().filter(|o| **o != main) {
                    let now = st.after.read(o);
                    if now != a.after.read(o) && now != b.after.read(o) {
                        bad!("{} made by process {} ({}) fits neither the old nor the new version", o, k, show(&now));
                    }
                }
            }
        }
        "same-output" => {
            let o = cmds[0].output.clone().unwrap();
            let mut ok: Vec<_> = alone.iter().map(|a| a.after.read(&o)).collect();
            let last = ok.clone();
            ok.push(st.before.read(&o));
            let mut count = 0;
            st.prefixes(|fs, k| {
                count += 1;
                if !ok.contains(&fs.read(&o)) {
                    bad!("at change {} {} holds {}: no complete file either process writes", k, o, show(&fs.read(&o)));
                }
                Ok(())
            })?;
            ctx.stats.inspected += count;
            if st.procs.iter().any(|p| p.code() == 0 && success_said(p)) && !last.contains(&st.after.read(&o)) {
                bad!("in the end {} holds {}: no complete file one of them wrote", o, show(&st.after.read(&o)));
            }
        }
        "reader" => {
            let x = ext(cmds[0].output.as_deref().unwrap_or(&cmds[0].input).as_bytes()).to_string();
            let f = format!("x.{}", x);
            let old = st.before.clone();
            let new = alone[0].after.clone();
            let mut w = old.clone();
            let mut bad_at = None;
            for (k, m) in st.journal.iter().enumerate() {
                w.apply(m);
                if w.read(&f) != old.read(&f) && w.read(&f) != new.read(&f) {
                    bad_at = Some(k);
                }
            }
            if let Some(k) = bad_at {
                bad!("at change {} a reader of {} would see a mixture", k, f);
            }
            for k in 1..n {
                let mut sp = spec[k].clone();
                sp.faults.clear();
                let a = ctx.step_from(&old, &one(sp.clone()))?;
                let b = ctx.step_from(&new, &one(sp))?;
                let p = &st.procs[k];
                if !hurt[k] && p.out != a.p().out && p.out != b.p().out {
                    bad!("process {} printed {:?}, which fits neither the old nor the new version", k, cut(&p.outs()));
                }
                if !hurt[k] && p.code() != a.p().code() && p.code() != b.p().code() {
                    bad!("process {} exits with {}", k, p.code());
                }
                if let Some(o) = &cmds[k].output {
                    let got = st.after.read(o);
                    if got != a.after.read(o) && got != b.after.read(o) && !(hurt[k] && got == old.read(o)) {
                        bad!("{} made by process {} fits neither the old nor the new version", o, k);
                    }
                }
            }
        }
        _ => {
            let e = ext(cmds[0].input.as_bytes()).to_string();
            let f = &cmds[0].input;
            let x = st.before.read(f).unwrap();
            let (a, b) = (cmds[0].edit.clone().unwrap(), cmds[1].edit.clone().unwrap());
            let mut ok: Vec<Option<Vec<u8>>> = vec![a.apply(&x, &e), b.apply(&x, &e)];
            ok.push(a.apply(&x, &e).and_then(|y| b.apply(&y, &e)));
            ok.push(b.apply(&x, &e).and_then(|y| a.apply(&y, &e)));
            if any_hurt {
                ok.push(Some(x.to_vec()));
            }
            let got = st.after.read(f).map(|d| d.to_vec());
            if !ok.contains(&got) {
                bad!("after two edits at once {} is neither edit's complete result", f);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15

fn gen15(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = loop {
        let s = save_job(r, "C15");
        let c = cmd0(&s.steps[0]);
        // into its own directory, the second time there are other programs to convert
        if !(c.mass && c.output.as_deref().map(gen::abs) == Some(gen::abs(&c.input))) {
            break s;
        }
    };
    let st = scn.steps.remove(0);
    let mut v = vec![];
    for _ in 0..2 {
        let mut t = scn.clone();
        let mut fs = t.build();
        let same_pid = r.pct(40);
        for _ in 0..r.range(1, 4) {
            let mut s1 = st.clone();
            if !same_pid {
                s1.procs[0].pid = r.range(2, 40000) as i64;
            }
            if r.pct(20) {
                circumstances(r, &mut s1.procs[0]);
            }
            let ops = ctx.step_from(&fs, &s1)?.p().ops.clone();
            let n = if r.pct(70) { 1 } else { 2 };
            s1.procs[0].faults = faults(r, &ops, n, true, &|_| true);
            if r.pct(8) {
                s1.procs[0].alloc = r.range(1, 30_000) as u32;
            }
            if r.pct(25) {
                s1.power = Some(Power { lost: r.below(8) as u32, data: r.below(4) as u8 });
            }
            fs = ctx.step_from(&fs, &s1)?.after;
            t.steps.push(s1);
        }
        t.steps.push(st.clone());
        v.push(t);
    }
    // repeating it when nothing went wrong
    let mut t = scn.clone();
    t.steps.push(st.clone());
    t.steps.push(st.clone());
    v.push(t);
    Ok(v)
}

fn chk15(scn: &Scn, ctx: &mut Ctx) -> Chk {
    ctx.nontrivial = true;
    let run = ctx.run(scn)?;
    let init = scn.build();
    let Some(lst) = scn.steps.last() else { return Ok(()) };
    let clean = ctx.clean_from(&init, lst)?;
    let st = run.steps.last().unwrap();
    let c = cmd0(lst);
    let p = st.p();
    if !lst.procs[0].faults.is_empty() || lst.power.is_some() {
        return Ok(());
    }
    if clean.p().code() != 0 {
        return Ok(()); // never worked in the first place
    }
    let outs = c.outputs(&init);
    // with --delete-old the work may be finished already
    let gone = c.delete_old && !st.before.exists(&c.input);
    if gone {
        for o in &outs {
            if st.before.read(o) != clean.after.read(o) {
                bad!("the old file is gone, but {} holds {} instead of the complete new file", o, show(&st.before.read(o)));
            }
        }
        return Ok(());
    }
    if p.code() != 0 {
        bad!("repeated after the failures, it exits with {}: {}", p.code(), cut(&(p.outs() + &p.errs())));
    }
    for o in &outs {
        let (a, b) = (st.after.read(o), clean.after.read(o));
        if a != b {
            bad!("repeated after the failures, {} holds {} instead of {}", o, show(&a), show(&b));
        }
    }
    if c.delete_old && !clean.after.exists(&c.input) && st.after.exists(&c.input) {
        bad!("repeated after the failures, the old file is still there");
    }
    // and nothing the user has would be lost or added, but for remains of what was killed
    let (a, b) = (clean.after.tree(), st.after.tree());
    let fired_kill = run.steps.iter().zip(&scn.steps).any(|(x, y)| {
        y.power.is_some() || matches!(x.p().status, Status::Killed | Status::Signal(_) | Status::Hang) || x.p().fired.len() > 1
    });
    for x in diff(&a, &b) {
        match (a.get(&x), b.get(&x)) {
            (None, Some(_)) if fired_kill => {
                if any_ext(ext(&x)) {
                    bad!("{} was left behind and will be taken for a program", le(&x));
                }
            }
            (None, Some(_)) => bad!("{} was left behind", le(&x)),
            _ => bad!("repeated after the failures, {} is not as it would have been", le(&x)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16

fn gen16(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    if r.pct(25) {
        // refused without any injected fault
        let mut scn = save_job(r, "C16");
        scn.kind = format!("{}-refused", scn.kind);
        let c = cmd0(&scn.steps[0]);
        let a = &mut scn.steps[0].procs[0].argv;
        let at = a.iter().position(|x| x == b"-o" || x == b"-f");
        match r.below(6) {
            0 | 1 | 2 if at.is_some() && !c.mass => {
                let o = *r.pick(&["nodir/bad.xyz", "nodir/deep/x.xyz", "nodir/deep/x.8xp", "nodir/noext", "./nodir/x.json", "/w/nodir/sub/x.txt", "nodir/x.83p", "bad.xyz", "noext", "x.8XP", "nodir/x.txt", "x.TXT", ".8xp", "x.8xp.", "ro/x.8xp", "ro/there.8xp", "adir.txt", "plain/x.8xp"]);
                a[at.unwrap() + 1] = o.as_bytes().to_vec();
                scn.disk.push(DiskEnt::Dir(b"/w/ro".to_vec(), 0o555));
                scn.disk.insert(0, DiskEnt::File(b"/w/ro/there.8xp".to_vec(), std::sync::Arc::new(b"old".to_vec()), 0o444));
                scn.dir("/w/adir.txt");
                scn.file("/w/plain", b"a file");
                if r.pct(50) {
                    scn.file("/w/bad.xyz", b"old");
                    scn.file("/w/noext", b"old");
                    scn.file("/w/x.8XP", b"old");
                    scn.file("/w/x.TXT", b"old");
                }
            }
            3 | 4 => {
                scn.cap = Some(scn.build().used() + r.below(60) as u64);
            }
            _ => {
                // the directory of the output cannot be written
                if let Some(o) = c.outputs(&scn.build()).first() {
                    let full = gen::abs(o);
                    let d = full.rsplit_once('/').unwrap().0.to_string();
                    if d != "/w" && !d.is_empty() {
                        scn.disk.push(DiskEnt::Dir(d.into_bytes(), 0o555));
                    }
                }
            }
        }
        let p = scn.steps[0].procs[0].clone();
        scn.steps[0].procs[0] = p.policy(&[("skip", "y")], "y");
        return Ok(vec![scn]);
    }
    let mut scn = save_job(r, "C16");
    let p = scn.steps[0].procs[0].clone();
    scn.steps[0].procs[0] = p.policy(&[("skip", if r.pct(60) { "y" } else { "n" })], "y");
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let mut v = vec![];
    for _ in 0..6 {
        let mut t = scn.clone();
        let mut f = faults(r, &ops, 1, false, &no_std);
        if f.is_empty() {
            continue;
        }
        // a torn write ends in an error: what was written so far is on the disk
        if let (FaultKind::Short(_), true) = (&f[0].kind, r.pct(80)) {
            let at = f[0].at + 1;
            f.push(Fault { at, kind: FaultKind::Err(*r.pick(&[ENOSPC, EIO, EDQUOT])) });
        }
        t.steps[0].procs[0].faults = f;
        v.push(t);
    }
    for _ in 0..2 {
        let mut t = scn.clone();
        t.cap = Some(scn.build().used() + r.below(600) as u64);
        t.kind = format!("{}-full", t.kind);
        v.push(t);
    }
    Ok(v)
}

fn chk16(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    if scn.kind.ends_with("refused") {
        ctx.nontrivial = true;
    }
    for (i, st) in run.steps.iter().enumerate() {
        let p = st.p();
        let c = cmd0(&scn.steps[i]);
        if !matches!(p.status, Status::Exit(_)) || p.mute() {
            continue;
        }
        let d = diff(&st.before.tree(), &st.after.tree());
        let clean = ctx.clean_from(&st.before, &scn.steps[i])?;
        let outs: BTreeMap<Vec<u8>, String> = c.outputs(&st.before).into_iter().map(|o| (real(&st.before, &o), o)).collect();
        // several independent failures (the clean-up among them) are another matter
        let hard = p.fired.iter().filter(|f| !f.starts_with("short") && *f != "eintr" && *f != "disk-full" && *f != "lost-writeback" && *f != "writeback-error").count();
        let hard = if p.fired.iter().any(|f| f.starts_with("sticky")) { 1 } else { hard };
        // a directory in the way of the output is a failure of its own
        let hard = hard + (clean.p().code() != 0) as usize;
        if hard > 1 {
            continue;
        }
        if c.mass {
            let outd = c.output.as_ref().map(|o| gen::abs(o).into_bytes()).unwrap_or_default();
            for x in &d {
                match outs.get(x) {
                    Some(o) if st.after.read(o) == clean.after.read(o) => {}
                    None if *x == outd => {}
                    _ => bad!("a mass conversion in which saves failed left {} neither as it was nor complete (exit {}, {:?})", le(x), p.code(), p.fired),
                }
            }
            continue;
        }
        if p.code() == 0 {
            continue;
        }
        for x in &d {
            // the save went through and removing the old file failed: that is not a failed save
            let saved = c.delete_old && outs.get(x).map(|o| st.after.read(o) == clean.after.read(o)).unwrap_or(false);
            if !saved {
                bad!("\"{}\" failed (exit {}, {:?}) and left {} changed ({})", scn.steps[i].procs[0].args()[1..].join(" "), p.code(), p.fired, le(x), show(&st.after.read_b(x)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C21

/// A command whose work is what it prints.
fn print_job(r: &mut Rng) -> Scn {
    let mut scn = Scn::new("C21", "print");
    let i = input(r);
    let inp = format!("in.{}", i.ext);
    scn.file(&format!("/w/{}", inp), &i.bytes);
    let k = calc(r);
    let cal = format!("k.{}", k.ext);
    scn.file(&format!("/w/{}", cal), &k.bytes);
    let t = table(LATEST);
    let keys: Vec<_> = t.keys().collect();
    let a = match r.below(14) {
        0 | 1 => s(&["details", &cal]),
        2 => {
            let b = *r.pick(&keys);
            s(&["search", &format!("0x{}", b.iter().map(|b| format!("{:02X}", b)).collect::<String>()), "-t", "byte"])
        }
        3 => {
            let b = *r.pick(&keys);
            let x = t[b].text[1].clone();
            s(&["search", if x.starts_with('-') { "sin(" } else { &x }])
        }
        4 => {
            let b = *r.pick(&keys);
            let x = t[b].text[0].clone();
            s(&["search", if x.starts_with('-') { "sin(" } else { &x }, "-t", "pretty"])
        }
        5 => s(&["models"]),
        6 => s(&["help"]),
        7 => s(&["help", r.pick::<&str>(&["convert", "rename", "search", "details", "lock"])]),
        8 => s(&["version"]),
        9 => s(&["convert", &inp, "-p"]),
        10 => s(&["convert", &inp, "-c"]),
        11 => s(&["convert", &inp, "-c", "-p", "-d", r.pick::<&str>(&MODES)]),
        12 => s(&["convert", &inp, "-p", "-e", r.pick::<&str>(&["min", "max", "smart"])]),
        _ => {
            for j in 0..r.range(1, 4) {
                let i = input(r);
                scn.file(&format!("/w/d/{}{}.{}", r.pick(&["q", "b", "Z"]), j, i.ext), &i.bytes);
            }
            scn.kind = "print-mass".into();
            s(&["convert", "d", "-m", if r.pct(50) { "-p" } else { "-c" }])
        }
    };
    scn.steps.push(one(run(&a)));
    scn
}

fn gen21(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let prints = r.pct(70);
    let mut scn = if prints { print_job(r) } else { save_job(r, "C21") };
    if r.pct(30) {
        circumstances(r, &mut scn.steps[0].procs[0]);
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let outs: Vec<u32> = (0..ops.len()).filter(|k| ops[*k].class == Class::Stdout).map(|k| k as u32).collect();
    let mut v = vec![];
    for _ in 0..6 {
        let mut t = scn.clone();
        let mut f = vec![];
        if !outs.is_empty() {
            let at = if r.pct(35) { *outs.last().unwrap() } else { *r.pick(&outs) };
            let n = ops[at as usize].n;
            let e = *r.pick(&[EPIPE, EIO, ENOSPC, ENOSPC]);
            match r.below(8) {
                0 | 1 | 2 => f.push(Fault { at, kind: FaultKind::Err(e) }),
                3 | 4 => f.push(Fault { at, kind: FaultKind::Sticky(Class::Stdout, e) }),
                5 | 6 if n > 1 => {
                    f.push(Fault { at, kind: FaultKind::Short(r.range(1, n - 1) as u32) });
                    f.push(Fault { at: at + 1, kind: FaultKind::Err(e) });
                }
                _ => {
                    f.push(Fault { at, kind: FaultKind::Err(e) });
                    f.push(Fault { at: at + r.range(1, 3) as u32, kind: FaultKind::Err(e) });
                }
            }
        }
        if r.pct(20) {
            // what is to be printed cannot be read
            f.extend(faults(r, &ops, 1, false, &|o| matches!(o.class, Class::Read | Class::OpenR | Class::Stat | Class::Stderr)));
        }
        if f.is_empty() {
            continue;
        }
        f.sort_by_key(|x| x.at);
        f.dedup_by_key(|x| x.at);
        t.steps[0].procs[0].faults = f;
        v.push(t);
    }
    Ok(v)
}

/// What is printed is whole, or the command does not claim success; nothing is garbled on the way.
fn chk21(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    let st = &run.steps[0];
    let p = st.p();
    let clean = ctx.clean_from(&st.before, &scn.steps[0])?;
    let q = clean.p();
    let only_out = p.fired.iter().all(|f| f == "eintr" || f.ends_with(":stdout"));
    if only_out && !q.out.starts_with(&p.out) {
        bad!("what reaches the terminal is not the beginning of what belongs there: {:?} instead of {:?}", cut(&p.outs()), cut(&q.outs()));
    }
    let c = cmd0(&scn.steps[0]);
    // reads that fail may leave out what cannot be read, as long as that is said: the other checks judge that
    let reads = p.fired.iter().any(|f| !f.ends_with(":stdout") && !f.ends_with(":stderr") && f != "eintr");
    if p.code() == 0 && q.code() == 0 && p.out != q.out && !(reads && c.output.is_some()) {
        bad!(
            "it exits with 0 although only {} of the {} bytes it prints could be delivered: {:?} instead of {:?}",
            p.out.len(), q.out.len(), cut(&p.outs()), cut(&q.outs())
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C22

fn gen22(r: &mut Rng, ctx: &mut Ctx) -> Scns {
    let mut scn = save_job(r, "C22");
    if r.pct(30) {
        circumstances(r, &mut scn.steps[0].procs[0]);
    }
    let p = scn.steps[0].procs[0].clone();
    scn.steps[0].procs[0] = p.policy(&[("skip", "y")], "y");
    scn.set("seed", &r.next().to_string());
    if r.pct(30) {
        // another save after the first
        let c = cmd0(&scn.steps[0]);
        if let (Some(o), false) = (c.output.clone(), c.mass) {
            if is_calc(ext(o.as_bytes())) {
                scn.steps.push(one(run(&edit(r).args(&o)).yes()));
            }
        }
    }
    let ops = ctx.run(&scn)?.steps[0].p().ops.clone();
    let mut v = vec![scn.clone()];
    v.extend(with_faults(r, &scn, &ops, 0, 3, 1, false, &no_std));
    // cut short after some of its outputs were announced
    v.extend(with_faults(r, &scn, &ops, 0, 1, 1, true, &no_std));
    Ok(v)
}

/// Outputs a message named as saved, and the number of changes made when that message was complete.
fn announced(p: &ProcResult, saved: &[(String, std::sync::Arc<Vec<u8>>)]) -> Vec<(String, std::sync::Arc<Vec<u8>>, usize)> {
    let mut out = vec![];
    let mut at = 0;
    let mut lines: Vec<(String, usize)> = vec![];
    let mut from = 0;
    for o in p.ops.iter().filter(|o| o.class == Class::Stdout && o.ret > 0) {
        at = (at + o.ret as usize).min(p.out.len());
        while let Some(n) = p.out[from..at].iter().position(|b| *b == b'\n') {
            lines.push((stripped(&p.out[from..from + n]), o.jlen));
            from += n + 1;
        }
    }
    for (o, d) in saved {
        let name = o.rsplit('/').next().unwrap();
        let hit: Vec<usize> = lines.iter().filter(|(l, _)| l.starts_with("Successfully saved") && (l.ends_with(&format!("/{}", name)) || l.ends_with(&format!(" to {}", o)))).map(|x| x.1).collect();
        // a name saved twice is not told apart
        if hit.len() == 1 {
            out.push((o.clone(), d.clone(), hit[0]));
        }
    }
    out
}

fn chk22(scn: &Scn, ctx: &mut Ctx) -> Chk {
    let run = ctx.run(scn)?;
    ctx.nontrivial = true;
    let mut rng = Rng::new(scn.par("seed").parse().unwrap_or(1));
    for (i, st) in run.steps.iter().enumerate() {
        let p = st.p();
        let c = cmd0(&scn.steps[i]);
        // where the names could not be forced to the disk for a fault injected there, nothing can be done
        let dir = |path: &[u8]| {
            let i = match path.strip_prefix(b"#") {
                Some(n) => String::from_utf8_lossy(n).parse().ok(),
                None => st.after.resolve(st.after.resolve(ROOT, b"/w", true).ok().and_then(|f| f.ino).unwrap_or(ROOT), path, true).ok().and_then(|f| f.ino),
            };
            i.map(|i: Ino| i < st.after.inodes.len() && st.after.is_dir(i)).unwrap_or(false)
        };
        if p.ops.iter().any(|o| o.ret < 0 && matches!(o.class, Class::Sync | Class::OpenR) && dir(&o.path)) {
            continue;
        }
        let mut saved: Vec<(String, std::sync::Arc<Vec<u8>>)> = vec![];
        for o in c.outputs(&st.before) {
            if let Some(d) = st.after.read(&o) {
                if st.before.read(&o).as_ref() != Some(&d) {
                    saved.push((o, d));
                }
            }
        }
        if saved.is_empty() {
            continue;
        }
        let len = st.journal.len();
        let dev = devices(&st.before, &st.journal);
        // announced as saved, whatever became of the command afterwards
        let told = announced(p, &saved);
        for _ in 0..if told.is_empty() { 0 } else { 8 } {
            let (o, d, k) = rng.pick(&told).clone();
            let t = rng.range(k, len);
            let mut cut = committed(&st.journal[..t], &dev);
            if rng.pct(60) {
                for x in &mut cut {
                    *x = rng.range(*x, t);
                }
            }
            let fs = power_loss(&st.before, &st.journal[..t], &dev, cut, rng.below(4) as u8);
            ctx.stats.inspected += 1;
            if fs.read(&o).as_ref() != Some(&d) {
                bad!("\"{}\" said that {} was saved, but after a power loss at change {} it holds {} instead of {}", scn.steps[i].procs[0].args()[1..].join(" "), o, t, show(&fs.read(&o)), show(&Some(d.clone())));
            }
        }
        if p.status != Status::Exit(0) {
            continue;
        }
        let com = committed(&st.journal, &dev);
        for n in 0..12 {
            let mut cut = com;
            if n > 3 {
                for x in &mut cut {
                    *x = rng.range(*x, len);
                }
            }
            let fs = power_loss(&st.before, &st.journal, &dev, cut, (n % 4) as u8);
            ctx.stats.inspected += 1;
            for (o, d) in &saved {
                if fs.read(o).as_ref() != Some(d) {
                    bad!("\"{}\" reported success, but after a power loss {} holds {} instead of {}", scn.steps[i].procs[0].args()[1..].join(" "), o, show(&fs.read(o)), show(&Some(d.clone())));
                }
            }
        }
    }
    Ok(())
}
