//! Makes a failing scenario smaller: every candidate is executed again and kept only if the property is still
//! broken in it.

use crate::exec::*;
use crate::props;
use crate::scenario::*;
use crate::{guarded, Conf};
use std::time::Instant;

pub fn shrink(scn: &Scn, msg: &str, ctx: &mut Ctx, conf: &Conf) -> (Scn, String) {
    let t0 = Instant::now();
    let mut best = scn.clone();
    let mut best_msg = msg.to_string();
    let limit: u64 = std::env::var("TISIM_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(45);
    // a schedule written out instead of a seed
    if best.steps.iter().any(|s| s.procs.len() > 1) {
        if let Ok(r) = ctx.run(&best) {
            let mut c = best.clone();
            for (s, x) in c.steps.iter_mut().zip(&r.steps) {
                if s.procs.len() > 1 {
                    s.schedule = x.schedule.clone();
                }
            }
            if let Some(m) = still(&c, msg, ctx, conf) {
                best = c;
                best_msg = m;
            }
        }
    }
    loop {
        let mut progress = false;
        for c in candidates(&best) {
            if t0.elapsed().as_secs() > limit {
                return (best, best_msg);
            }
            if let Some(m) = still(&c, msg, ctx, conf) {
                best = c;
                best_msg = m;
                progress = true;
                break;
            }
        }
        if !progress {
            return (best, best_msg);
        }
    }
}

/// the words of a message without names, paths and numbers
fn shape(m: &str) -> Vec<&str> {
    m.split(|c: char| !c.is_ascii_alphabetic() && !"/.-_\"".contains(c)).filter(|w| w.len() > 2 && w.chars().all(|c| c.is_ascii_lowercase())).take(5).collect()
}

fn still(c: &Scn, msg: &str, ctx: &mut Ctx, conf: &Conf) -> Option<String> {
    ctx.forget();
    match guarded(|| Ok(props::check(c, ctx))) {
        Ok(Err(Fail::Bad(m))) if shape(&m) == shape(msg) => Some(m),
        Ok(Err(Fail::Bad(_))) => None,
        Ok(Ok(())) => None,
        _ => {
            if let Ok(n) = conf.ctx() {
                ctx.replace(n);
            }
            None
        }
    }
}

fn candidates(s: &Scn) -> Vec<Scn> {
    let mut v = vec![];
    let mut add = |f: &dyn Fn(&mut Scn)| {
        let mut c = s.clone();
        f(&mut c);
        v.push(c);
    };
    if s.steps.len() > 1 {
        for k in (0..s.steps.len()).rev() {
            add(&|c| {
                c.steps.remove(k);
            });
        }
    }
    if s.cap.is_some() {
        add(&|c| c.cap = None);
    }
    for (k, st) in s.steps.iter().enumerate() {
        if st.power.is_some() {
            add(&|c| c.steps[k].power = None);
        }
        if st.procs.len() > 1 {
            // fewer switches
            let sw: Vec<usize> = (1..st.schedule.len()).filter(|i| st.schedule[*i] != st.schedule[i - 1]).collect();
            for i in sw.iter().take(24) {
                let i = *i;
                add(&|c| {
                    let x = &mut c.steps[k].schedule;
                    let prev = x[i - 1];
                    let cur = x[i];
                    // move the block of `cur` behind the next block of `prev`
                    let end = (i..x.len()).find(|j| x[*j] != cur).unwrap_or(x.len());
                    let end2 = (end..x.len()).find(|j| x[*j] != prev).unwrap_or(x.len());
                    x[i..end2].rotate_left(end - i);
                });
            }
        }
        for (q, p) in st.procs.iter().enumerate() {
            for f in (0..p.faults.len()).rev() {
                add(&|c| {
                    c.steps[k].procs[q].faults.remove(f);
                });
            }
            if !p.env.is_empty() {
                add(&|c| c.steps[k].procs[q].env.clear());
            }
            if p.alloc > 0 {
                add(&|c| c.steps[k].procs[q].alloc = 0);
            }
            if p.rchunk + p.wchunk + p.eintr > 0 || p.skew != 0 || p.list_seed != 0 {
                add(&|c| {
                    let p = &mut c.steps[k].procs[q];
                    p.rchunk = 0;
                    p.wchunk = 0;
                    p.eintr = 0;
                    p.skew = 0;
                    p.list_seed = 0;
                });
                if p.rchunk > 0 {
                    add(&|c| c.steps[k].procs[q].rchunk = 0);
                }
                if p.wchunk > 0 {
                    add(&|c| c.steps[k].procs[q].wchunk = 0);
                }
                if p.eintr > 0 {
                    add(&|c| c.steps[k].procs[q].eintr = 0);
                }
                if p.skew != 0 {
                    add(&|c| c.steps[k].procs[q].skew = 0);
                }
                if p.list_seed != 0 {
                    add(&|c| c.steps[k].procs[q].list_seed = 0);
                }
            }
        }
    }
    // not what a command reads: refusing to read nothing says nothing
    let inputs: Vec<String> = s.steps.iter().flat_map(|st| st.procs.iter().map(|p| crate::gen::abs(&crate::cmdline::parse(p).input))).collect();
    for d in (0..s.disk.len()).rev() {
        if inputs.iter().any(|i| i.as_bytes() == s.disk[d].path()) {
            continue;
        }
        add(&|c| {
            c.disk.remove(d);
        });
    }
    v
}
