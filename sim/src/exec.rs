//! Executes scenarios and keeps count of what was covered.

use crate::fs::*;
use crate::kernel::*;
use crate::rng::*;
use crate::scenario::*;
use crate::server::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Debug)]
pub enum Fail {
    /// the property is broken
    Bad(String),
    /// the simulator is broken
    Harness(String),
}
pub type Chk = Result<(), Fail>;
#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::exec::Fail::Bad(format!($($a)*))) };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub processes: u64,
    pub calls: u64,
    pub nanos: i64,
    pub faults: BTreeMap<String, u64>,
    pub statuses: BTreeMap<String, u64>,
    pub traces: HashSet<u64>,
    pub states: HashSet<u64>,
    pub inspected: u64,
    pub nontrivial: HashSet<u64>,
    pub kinds: BTreeMap<String, u64>,
    pub builds: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.processes += o.processes;
        self.calls += o.calls;
        self.nanos += o.nanos;
        self.inspected += o.inspected;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.statuses {
            *self.statuses.entry(k).or_default() += v;
        }
        for (k, v) in o.builds {
            *self.builds.entry(k).or_default() += v;
        }
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        self.traces.extend(o.traces);
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
    }
}

pub struct Run {
    pub init: Fs,
    pub fin: Fs,
    pub steps: Vec<StepResult>,
}

impl StepResult {
    pub fn p(&self) -> &ProcResult {
        &self.procs[0]
    }
    /// Every disk a killed process can leave: after each change, and halfway through each write.
    pub fn prefixes(&self, mut f: impl FnMut(&Fs, usize) -> Chk) -> Result<u64, Fail> {
        let mut fs = self.before.clone();
        f(&fs, 0)?;
        let mut n = 1;
        for (k, m) in self.journal.iter().enumerate() {
            if let Mut::Write { ino, off, data } = m {
                if data.len() > 1 {
                    let mut half = fs.clone();
                    half.apply(&Mut::Write { ino: *ino, off: *off, data: std::sync::Arc::new(data[..data.len() / 2].to_vec()) });
                    f(&half, k)?;
                    n += 1;
                }
            }
            if matches!(m, Mut::Sync { .. } | Mut::SyncAll) {
                continue;
            }
            fs.apply(m);
            f(&fs, k + 1)?;
            n += 1;
        }
        Ok(n)
    }
    /// Disks found after the power failed at some instant of this step.
    pub fn power_losses(&self, rng: &mut Rng, max: usize, mut f: impl FnMut(&Fs, usize) -> Chk) -> Result<u64, Fail> {
        let len = self.journal.len();
        let dev = devices(&self.before, &self.journal);
        // durable[k]: how many of the first k changes are certainly durable, per file system
        let mut durable = vec![[0; DEVICES]; len + 1];
        for (k, m) in self.journal.iter().enumerate() {
            durable[k + 1] = durable[k];
            match m {
                Mut::Sync { .. } => durable[k + 1][dev[k]] = k + 1,
                Mut::SyncAll => durable[k + 1] = [k + 1; DEVICES],
                _ => {}
            }
        }
        let mut used: Vec<usize> = dev.clone();
        used.sort();
        used.dedup();
        let main = used.first().copied().unwrap_or(0);
        let total: usize = (1..=len).map(|k| (k + 1 - durable[k][main]) * 4).sum();
        let mut points: Vec<(usize, usize, u8)> = vec![];
        if total <= 4000 {
            for k in 1..=len {
                for meta in durable[k][main]..=k {
                    for data in 0..4 {
                        points.push((k, meta, data));
                    }
                }
            }
            if points.len() > max {
                rng.shuffle(&mut points);
                points.truncate(max);
            }
        } else {
            // too many instants to list: half anywhere, half next to a change of names, a sync or the end
            let edges: Vec<usize> = (1..=len).filter(|k| *k == len || !matches!(self.journal[*k - 1], Mut::Write { .. }) || !matches!(self.journal[*k], Mut::Write { .. })).collect();
            for j in 0..max {
                let k = if j % 2 == 0 { rng.range(1, len) } else { *rng.pick(&edges) };
                points.push((k, rng.range(durable[k][main], k), rng.below(4) as u8));
            }
        }
        let n = points.len() as u64;
        for (k, meta, data) in points {
            let mut cut = [meta; DEVICES];
            for d in used.iter().skip(1) {
                cut[*d] = rng.range(durable[k][*d], k);
            }
            let fs = power_loss(&self.before, &self.journal[..k], &dev, cut, data);
            f(&fs, k)?;
        }
        Ok(n)
    }
}

pub fn tree_hash(t: &Tree) -> u64 {
    let mut h = 7;
    for (p, e) in t {
        h = mix(h, hash(p));
        h = mix(
            h,
            match e {
                Ent::File(d) => hash(d),
                Ent::Dir => 1,
                Ent::Link(l) => hash(l) ^ 2,
            },
        );
    }
    h
}

pub struct Ctx {
    pub server: Server,
    /// the other build of the same tree
    pub other: Option<Server>,
    pub build: &'static str,
    pub stats: Stats,
    pub tier: u32,
    cache: HashMap<u64, Rc<Run>>,
    sig: u64,
    pub nontrivial: bool,
    /// of everything executed, for comparing two explorations
    pub digest: u64,
    pub version: String,
    /// an undisturbed command that used up its time without coming to an end
    pub spun: Option<String>,
}

pub const CALLS: usize = 300_000;

/// Processes ended for using too much time so far, and how many an exploration bears before it stops.
pub static SPUN: AtomicU64 = AtomicU64::new(0);
pub static SPUN_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub fn too_many_spun() -> bool {
    SPUN.load(Ordering::SeqCst) >= SPUN_LIMIT.load(Ordering::SeqCst)
}

impl Ctx {
    pub fn new(server: Server, other: Option<Server>, tier: u32, version: &str) -> Ctx {
        Ctx { server, other, build: "release", stats: Stats::default(), tier, cache: HashMap::new(), sig: 0, nontrivial: false, digest: 0, version: version.into(), spun: None }
    }
    /// Chooses the build processes run: "release", or "checked" with overflow checks and debug assertions.
    pub fn choose(&mut self, build: &str) {
        let want = if build == "checked" { "checked" } else { "release" };
        if self.build != want {
            if let Some(o) = &mut self.other {
                std::mem::swap(o, &mut self.server);
                self.build = want;
                self.cache.clear();
            }
        }
    }
    pub fn replace(&mut self, c: Ctx) {
        let b = self.build;
        self.server = c.server;
        self.other = c.other;
        self.build = "release";
        self.choose(b);
    }
    pub fn forget(&mut self) {
        self.cache.clear();
    }

    pub fn begin(&mut self) {
        self.sig = 1;
        self.nontrivial = false;
    }
    pub fn end(&mut self, scn: &Scn) {
        self.stats.evaluations += 1;
        *self.stats.kinds.entry(scn.kind.clone()).or_default() += 1;
        *self.stats.builds.entry(self.build.into()).or_default() += 1;
        if self.nontrivial {
            self.stats.nontrivial.insert(self.sig);
        }
    }

    pub fn run(&mut self, scn: &Scn) -> Result<Rc<Run>, Fail> {
        self.run_limit(scn, CALLS)
    }
    pub fn run_limit(&mut self, scn: &Scn, limit: usize) -> Result<Rc<Run>, Fail> {
        let r = self.exec(scn.build(), scn.cap, &scn.steps, limit)?;
        Ok(Rc::new(r))
    }
    /// The same without counting it twice when asked again.
    pub fn cached(&mut self, scn: &Scn) -> Result<Rc<Run>, Fail> {
        let key = hash(scn.to_json().render(false).as_bytes());
        if let Some(r) = self.cache.get(&key) {
            return Ok(r.clone());
        }
        let r = self.run(scn)?;
        if self.cache.len() > 64 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        Ok(r)
    }
    /// One step from a given disk.
    pub fn step_from(&mut self, fs: &Fs, step: &Step) -> Result<StepResult, Fail> {
        Ok(self.exec(fs.clone(), None, std::slice::from_ref(step), CALLS)?.steps.remove(0))
    }
    /// What the step does when nothing goes wrong.
    pub fn clean_from(&mut self, fs: &Fs, step: &Step) -> Result<StepResult, Fail> {
        let mut s = step.clone();
        s.power = None;
        for p in &mut s.procs {
            *p = p.clean();
        }
        self.step_from(fs, &s)
    }

    fn exec(&mut self, init: Fs, cap: Option<u64>, steps: &[Step], limit: usize) -> Result<Run, Fail> {
        let mut fs = init.clone();
        let mut clock = 0;
        let mut out = Vec::new();
        for st in steps {
            let mut w = World::new(fs, cap.map(|c| c));
            w.clock = clock;
            if too_many_spun() {
                return Err(Fail::Harness("too many commands do not come to an end".into()));
            }
            let spun = self.server.spun;
            let mut r = self.server.run(&mut w, st, limit).map_err(Fail::Harness)?;
            if self.server.spun > spun {
                SPUN.fetch_add(self.server.spun - spun, Ordering::SeqCst);
                if st.procs.iter().all(|p| p.faults.is_empty() && p.alloc == 0 && p.eintr == 0) {
                    self.spun = r.procs.iter().position(|p| p.status == Status::Hang).map(|i| st.procs[i].args()[1..].join(" "));
                }
            }
            clock = w.clock;
            let s = &mut self.stats;
            s.processes += r.procs.len() as u64;
            s.nanos += r.nanos;
            let mut h = hash(&r.schedule);
            for (i, p) in r.procs.iter().enumerate() {
                s.calls += p.ops.len() as u64;
                for f in &p.fired {
                    *s.faults.entry(f.clone()).or_default() += 1;
                }
                let st_name = match p.status {
                    Status::Exit(c) => format!("exit {}", c),
                    Status::Signal(c) => format!("signal {}", c),
                    Status::Killed => "killed".into(),
                    Status::Hang => "hang".into(),
                };
                *s.statuses.entry(st_name).or_default() += 1;
                for o in &p.ops {
                    h = mix(h, o.op as u64 * 8 + o.class as u64 * 1000 + (o.ret < 0) as u64 * (2 - o.ret) as u64);
                }
                h = mix(h, p.code() as u64 + i as u64 * 77);
                if !p.fired.is_empty() || !p.asked.is_empty() {
                    self.nontrivial = true;
                }
            }
            if r.procs.len() > 1 {
                self.nontrivial = true;
            }
            s.traces.insert(h);
            if let Some(p) = st.power {
                r.after = power_off(&r.before, &r.journal, p.lost as usize, p.data);
                *s.faults.entry("power-loss".into()).or_default() += 1;
                self.nontrivial = true;
            }
            let th = tree_hash(&r.after.tree());
            s.states.insert(th);
            self.sig = mix(mix(self.sig, h), th);
            self.digest = mix(mix(self.digest, h), th);
            fs = r.after.clone();
            out.push(r);
        }
        Ok(Run { init, fin: fs, steps: out })
    }
}
