//! The evidence file, and a readable account of one run.

use crate::exec::*;
use crate::fs::*;
use crate::json::*;
use crate::kernel::*;
use crate::scenario::*;
use crate::Conf;

fn counts(m: &std::collections::BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(
    conf: &Conf, prop: &str, st: &Stats, cases: u64, planned: u64, failures: u64, capped: bool, samples: &[(u64, Scn)], violated: bool, explored: f64,
    wall: f64, digest: u64,
) -> Result<(), String> {
    let per_hour = |n: u64| J::Int((n as f64 / explored.max(0.001) * 3600.0) as i64);
    let smp: Vec<J> = samples
        .iter()
        .map(|(i, s)| {
            let mut j = s.to_json();
            trim(&mut j);
            obj(vec![("case", J::Int(*i as i64)), ("scenario", j)])
        })
        .collect();
    let cov = obj(vec![
        ("evaluations", J::Int(st.evaluations as i64)),
        ("distinct_nontrivial", J::Int(st.nontrivial.len() as i64)),
        ("rule", J::s("case i of a property is generated by a PRNG seeded with mix(VERIF_SEED, property, i): disk contents, command lines, terminal answers, schedule and faults. An evaluation is one scenario executed and judged. It is non-trivial when a fault was actually delivered, a question was answered, processes ran concurrently or power was lost (or the property's own check marks it so); two are distinct when the sequence of system calls with their classes and results, or a resulting disk, differs")),
        ("seeds", J::Int(cases as i64)),
        ("seeds_planned", J::Int(planned as i64)),
        ("harness_failures", J::Int(failures as i64)),
        ("stopped_by_time_limit", J::Bool(capped)),
        ("simulated_processes", J::Int(st.processes as i64)),
        ("simulated_runs_per_hour", per_hour(st.processes)),
        ("seeds_per_hour", per_hour(cases)),
        ("evaluations_per_hour", per_hour(st.evaluations)),
        ("system_calls_decided", J::Int(st.calls as i64)),
        ("simulated_time_s", J::Num(st.nanos as f64 / 1e9)),
        ("faults_delivered", counts(&st.faults)),
        ("how_processes_ended", counts(&st.statuses)),
        ("distinct_interleavings", J::Int(st.traces.len() as i64)),
        ("distinct_interleavings_measure", J::s("distinct (schedule, sequence of system calls with class and result, exit) of a step")),
        ("distinct_final_disks", J::Int(st.states.len() as i64)),
        ("crash_states_inspected", J::Int(st.inspected as i64)),
        ("scenario_kinds", counts(&st.kinds)),
        ("evaluations_by_build", counts(&st.builds)),
        ("digest_of_all_runs", J::Str(format!("{:016x}", digest))),
        ("real_code", J::Arr(vec![J::s("the whole ti-tools binary, in a release build and in a build with overflow checks and debug assertions, from /repo's working tree, Rust std, serde_json, libc's pure functions")])),
        ("stubs", J::Arr(vec![J::s("file system, terminal, directory listing, clock, randomness, process ids, memory exhaustion: the simulated kernel behind the libc calls std makes; process start is a fork from a server of the same binary")])),
        ("samples", J::Arr(smp)),
    ]);
    let e = obj(vec![
        ("property", J::s(prop)),
        ("tier", J::s(&conf.tier)),
        ("seed", J::Int(conf.seed as i64)),
        ("level", J::s("exploration")),
        ("coverage", cov),
        (
            "assumptions",
            J::Arr(vec![
                J::s("the simulated file system behaves like a journalling Linux file system: rename, link and unlink are atomic and reach the disk in order, per file system; file data not synced may be lost, cut or kept"),
                J::s("a process interacts with the outside world only through the libc calls intercepted by the shim; any other call ends the check with an error"),
                J::s("the release build optimises the same program the user runs; the PRNG samples the space, it does not exhaust it"),
            ]),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(violated as i64)),
    ]);
    let dir = std::env::var("TISIM_EVIDENCE").unwrap_or("/verif/evidence".into());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(format!("{}/{}.json", dir, prop), e.render(true)).map_err(|e| e.to_string())
}

/// long file contents are cut in samples
fn trim(j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(trim),
        J::Obj(o) => o.iter_mut().for_each(|(_, v)| trim(v)),
        J::Str(s) if s.chars().count() > 400 => {
            let n = s.chars().count();
            *s = format!("{}... ({} characters)", s.chars().take(300).collect::<String>(), n);
        }
        _ => {}
    }
}

pub fn narrate(s: &Scn, r: &Run) -> String {
    let mut o = String::new();
    let disk = |o: &mut String, fs: &crate::fs::Fs| {
        for (p, e) in fs.tree() {
            let d = match e {
                Ent::File(d) => format!("{} bytes, {:016x}", d.len(), crate::rng::hash(&d)),
                Ent::Dir => "directory".into(),
                Ent::Link(l) => format!("-> {}", String::from_utf8_lossy(&l)),
            };
            o.push_str(&format!("    {}  {}\n", String::from_utf8_lossy(&p), d));
        }
    };
    o.push_str("initial disk\n");
    disk(&mut o, &r.init);
    for (i, st) in r.steps.iter().enumerate() {
        for (k, p) in st.procs.iter().enumerate() {
            o.push_str(&format!("step {} process {}: {:?}\n", i, k, s.steps[i].procs[k].args()));
            for (n, c) in p.ops.iter().enumerate() {
                o.push_str(&format!("  {:4} {} {} {} -> {}\n", n, OPS[c.op as usize], c.class.name(), String::from_utf8_lossy(&c.path), c.ret));
            }
            o.push_str(&format!("  {:?}, faults {:?}\n", p.status, p.fired));
            for a in &p.asked {
                o.push_str(&format!("  asked, answered {:?}\n", String::from_utf8_lossy(&a.got)));
            }
            o.push_str(&format!("  stdout: {}\n  stderr: {}\n", p.outs(), p.errs()));
        }
        if st.procs.len() > 1 {
            o.push_str(&format!("  schedule {:?}\n", st.schedule));
        }
        o.push_str("disk afterwards\n");
        disk(&mut o, &st.after);
    }
    o
}
