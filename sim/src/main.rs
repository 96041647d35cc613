//! tisim check <property> | replay <file> | trace <file> | selftest
//!
//! Environment: TI_BIN, TI_SHIM, TI_REPO, VERIF_SEED, VERIF_TIER, TISIM_CASES, TISIM_JOBS, TISIM_ONLY

#[macro_use]
mod exec;
mod cmdline;
mod fs;
mod gen;
mod json;
mod kernel;
mod model;
mod props;
mod report;
mod rng;
mod scenario;
mod server;
mod shrink;

use exec::*;
use rng::*;
use scenario::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Conf {
    pub bin: String,
    pub checked: String,
    pub shim: String,
    pub version: String,
    pub seed: u64,
    pub tier: String,
    pub jobs: usize,
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or(d.to_string())
}

impl Conf {
    fn new() -> Conf {
        Conf {
            bin: env("TI_BIN", "/verif/build/app/release/ti-tools"),
            checked: env("TI_BIN_CHECKED", "/verif/build/app/debug/ti-tools"),
            shim: env("TI_SHIM", "/verif/build/shim.so"),
            version: std::fs::read_to_string(env("TI_REPO", "/repo") + "/Cargo.toml")
                .unwrap_or_default()
                .lines()
                .find_map(|l| l.strip_prefix("version = \""))
                .map(|l| l.trim_end().trim_end_matches('"').to_string())
                .unwrap_or_default(),
            seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
            tier: if env("VERIF_TIER", "quick") == "thorough" { "thorough".into() } else { "quick".into() },
            jobs: env("TISIM_JOBS", "8").parse().unwrap_or(8),
        }
    }
    pub fn ctx(&self) -> Result<Ctx, String> {
        let s = server::Server::start(&self.bin, &self.shim)?;
        let o = if self.checked.is_empty() { None } else { Some(server::Server::start(&self.checked, &self.shim)?) };
        Ok(Ctx::new(s, o, if self.tier == "thorough" { 1 } else { 0 }, &self.version))
    }
}

fn case_seed(conf: &Conf, prop: &str, i: u64) -> u64 {
    mix(mix(conf.seed, hash(prop.as_bytes())), i + 1)
}

fn generate(conf: &Conf, prop: &str, i: u64, ctx: &mut Ctx) -> Result<Vec<Scn>, Fail> {
    let seed = case_seed(conf, prop, i);
    let build = if mix(seed, 99) % 3 == 0 { "checked" } else { "release" };
    ctx.forget();
    ctx.choose(build);
    let mut v = props::gen(prop, seed, ctx)?;
    for s in &mut v {
        s.set("build", build);
    }
    Ok(v)
}

/// All scenarios of one case; the first that breaks the property, with what broke.
fn case(conf: &Conf, prop: &str, i: u64, ctx: &mut Ctx) -> Result<Option<(Scn, String)>, String> {
    let scns = match generate(conf, prop, i, ctx) {
        Ok(v) => v,
        Err(Fail::Bad(m)) => return Err(format!("generator of case {}: {}", i, m)),
        Err(Fail::Harness(m)) => return Err(format!("generator of case {}: {}", i, m)),
    };
    for s in scns {
        match props::check(&s, ctx) {
            Ok(()) => {}
            Err(Fail::Bad(m)) => return Ok(Some((s, m))),
            Err(Fail::Harness(m)) => return Err(format!("case {} ({}): {}", i, s.kind, m)),
        }
    }
    Ok(None)
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or("panic in the simulator".into())),
    }
}

struct Outcome {
    stats: Stats,
    cases: u64,
    found: Option<(u64, Scn, String)>,
    samples: Vec<(u64, Scn)>,
    digest: u64,
    capped: bool,
    failures: u64,
}

fn explore(conf: &Conf, prop: &str, cases: u64, cap_s: u64) -> Result<Outcome, String> {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let done = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let broken = AtomicU64::new(0);
    let dead = Mutex::new(None::<String>);
    let found = Mutex::new(Vec::<(u64, Scn, String)>::new());
    let total = Mutex::new((Stats::default(), Vec::<(u64, Scn)>::new(), 0u64));
    let t0 = Instant::now();
    if gen::LOOKED_AT.get().is_none() {
        let mut ctx = conf.ctx()?;
        let found = guarded(|| props::settings(&mut ctx).map_err(|e| format!("{:?}", e))).unwrap_or_default();
        let _ = gen::LOOKED_AT.set(found);
    }
    // each takes seconds
    exec::SPUN_LIMIT.store(exec::SPUN.load(Ordering::SeqCst) + 32, Ordering::SeqCst);
    std::thread::scope(|sc| {
        for _ in 0..conf.jobs {
            sc.spawn(|| {
                let mut ctx = match conf.ctx() {
                    Ok(c) => c,
                    Err(e) => {
                        *dead.lock().unwrap() = Some(e);
                        return;
                    }
                };
                let mut samples = vec![];
                let mut digest = 0u64;
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases || i > best.load(Ordering::SeqCst) || dead.lock().unwrap().is_some() {
                        break;
                    }
                    if t0.elapsed().as_secs() > cap_s {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    ctx.digest = 0;
                    let mut r = guarded(|| case(conf, prop, i, &mut ctx));
                    if r.is_err() && exec::too_many_spun() {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    if let Err(e) = &r {
                        // a broken fork server is replaced once
                        eprintln!("tisim: retrying case {}: {}", i, e);
                        match conf.ctx() {
                            Ok(c) => {
                                ctx.replace(c);
                                ctx.digest = 0;
                                r = guarded(|| case(conf, prop, i, &mut ctx));
                            }
                            Err(e) => r = Err(e),
                        }
                    }
                    digest = digest.wrapping_add(mix(ctx.digest, i));
                    match r {
                        Ok(None) => {
                            if i < 3 {
                                if let Ok(v) = generate(conf, prop, i, &mut ctx) {
                                    samples.extend(v.into_iter().take(1).map(|s| (i, s)));
                                }
                            }
                        }
                        Ok(Some((s, m))) => {
                            best.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push((i, s, m));
                        }
                        Err(e) => {
                            // left out and reported; too many of them and there is no answer
                            eprintln!("tisim: case {} is left out: {}", i, e);
                            if broken.fetch_add(1, Ordering::SeqCst) >= 3 + cases / 200 {
                                *dead.lock().unwrap() = Some(e);
                                break;
                            }
                            match conf.ctx() {
                                Ok(c) => ctx.replace(c),
                                Err(e) => {
                                    *dead.lock().unwrap() = Some(e);
                                    break;
                                }
                            }
                            continue;
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                }
                let mut t = total.lock().unwrap();
                t.0.merge(std::mem::take(&mut ctx.stats));
                t.1.extend(samples);
                t.2 = t.2.wrapping_add(digest);
            });
        }
    });
    exec::SPUN_LIMIT.store(u64::MAX, Ordering::SeqCst);
    if let Some(e) = dead.into_inner().unwrap() {
        return Err(e);
    }
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    let (stats, mut samples, digest) = total.into_inner().unwrap();
    samples.sort_by_key(|x| x.0);
    Ok(Outcome {
        stats,
        cases: done.load(Ordering::SeqCst),
        found: f.into_iter().next(),
        samples,
        digest,
        capped: capped.load(Ordering::SeqCst),
        failures: broken.load(Ordering::SeqCst),
    })
}

/// Cases per property in the quick tier.
fn cases_of(conf: &Conf, prop: &str) -> u64 {
    let n: u64 = match env("TISIM_CASES", "").parse() {
        Ok(n) => return n,
        Err(_) => match prop {
            "C01" => 5000,
            "C02" | "C05" | "C07" | "C08" | "C22" => 8000,
            "C03" | "C04" => 7000,
            "C06" => 6000,
            "C09" => 30_000,
            "C10" => 25_000,
            "C12" => 14_000,
            "C13" => 8000,
            "C11" => 5000,
            "C14" | "C15" => 3000,
            "C21" => 6000,
            _ => 5000,
        },
    };
    if conf.tier == "thorough" {
        n * 10
    } else {
        n
    }
}

fn check_cmd(conf: &Conf, prop: &str) -> Result<i32, String> {
    if !props::PROPS.contains(&prop) {
        return Err(format!("no property {}", prop));
    }
    let t0 = Instant::now();
    let cases = cases_of(conf, prop);
    let cap = if conf.tier == "thorough" { 3000 } else { 420 };
    let o = explore(conf, prop, cases, cap)?;
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((i, scn, msg)) = &o.found {
        let mut ctx = conf.ctx()?;
        let (small, msg2) = shrink::shrink(scn, msg, &mut ctx, conf);
        let dir = env("TISIM_REPLAYS", "/verif/replays");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = format!("{}/{}-seed{}-case{}.json", dir, prop, conf.seed, i);
        let mut j = small.to_json();
        if let json::J::Obj(v) = &mut j {
            v.push(("violation".into(), json::J::s(&msg2)));
            v.push(("seed".into(), json::J::Str(conf.seed.to_string())));
            v.push(("case".into(), json::J::Int(*i as i64)));
        }
        std::fs::write(&path, j.render(true)).map_err(|e| e.to_string())?;
        println!("{}", msg2);
        println!("seed {} case {}; minimised from: {}", conf.seed, i, msg.lines().next().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    report::evidence(conf, prop, &o.stats, o.cases, cases, o.failures, o.capped, &o.samples, o.found.is_some(), explored, t0.elapsed().as_secs_f64(), o.digest)?;
    if code == 0 {
        println!(
            "{}: held in {} cases, {} evaluations, {} processes, {} faults, digest {:016x}, {:.1} s{}",
            prop,
            o.cases,
            o.stats.evaluations,
            o.stats.processes,
            o.stats.faults.values().sum::<u64>(),
            o.digest,
            t0.elapsed().as_secs_f64(),
            if o.capped { " (stopped by the time limit)" } else { "" }
        );
    }
    Ok(code)
}

fn load(path: &str) -> Result<Scn, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    Ok(Scn::from_json(&json::J::parse(&t)?))
}

fn replay_cmd(conf: &Conf, path: &str) -> Result<i32, String> {
    let s = load(path)?;
    let mut ctx = conf.ctx()?;
    match props::check(&s, &mut ctx) {
        Ok(()) => {
            println!("{}: the property holds in this replay, digest {:016x}", s.prop, ctx.digest);
            Ok(0)
        }
        Err(Fail::Bad(m)) => {
            println!("{}\ndigest {:016x}\nVIOLATION property={} replay={}", m, ctx.digest, s.prop, path);
            Ok(1)
        }
        Err(Fail::Harness(m)) => Err(m),
    }
}

/// Prints what happens in a scenario.
fn trace_cmd(conf: &Conf, path: &str) -> Result<i32, String> {
    let s = load(path)?;
    let mut ctx = conf.ctx()?;
    ctx.choose(&s.par("build"));
    let r = ctx.run(&s).map_err(|e| format!("{:?}", e))?;
    print!("{}", report::narrate(&s, &r));
    Ok(0)
}

/// The same seeds twice, with different numbers of workers: every system call and every resulting disk must agree.
fn selftest(conf: &Conf) -> Result<i32, String> {
    let mut bad = 0;
    for p in props::PROPS {
        let n = env("TISIM_CASES", "40").parse().unwrap_or(40);
        let a = explore(conf, p, n, 600)?;
        let c1 = Conf { jobs: 3, bin: conf.bin.clone(), checked: conf.checked.clone(), shim: conf.shim.clone(), version: conf.version.clone(), tier: conf.tier.clone(), seed: conf.seed };
        let b = explore(&c1, p, n, 600)?;
        let same = a.digest == b.digest && a.stats.calls == b.stats.calls && a.stats.processes == b.stats.processes;
        println!("{} {:016x} {:016x} {}", p, a.digest, b.digest, if same { "same" } else { "DIFFERENT" });
        bad += !same as i32;
    }
    Ok(if bad > 0 { 2 } else { 0 })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let conf = Conf::new();
    let r = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
        ["check", p] => check_cmd(&conf, p),
        ["replay", f] => replay_cmd(&conf, f),
        ["trace", f] => trace_cmd(&conf, f),
        ["gen", p, i] => (|| {
            let mut c = conf.ctx()?;
            for s in generate(&conf, p, i.parse().unwrap_or(0), &mut c).map_err(|e| format!("{:?}", e))? {
                println!("{}", s.to_json().render(true));
            }
            Ok(0)
        })(),
        ["selftest"] => selftest(&conf),
        _ => Err("usage: tisim check <property> | replay <file> | trace <file> | gen <property> <case> | selftest".into()),
    };
    std::process::exit(match r {
        Ok(c) => c,
        Err(e) => {
            eprintln!("tisim: {}", e);
            2
        }
    });
}
