//! A scenario describes one simulated execution completely; as JSON it is the replay file.

use crate::fs::*;
use crate::json::*;
use crate::kernel::Class;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// the call fails without effect
    Err(i32),
    /// a read or write transfers at most this many bytes
    Short(u32),
    /// the process is killed before the call
    Kill,
    /// a write transfers this many bytes, then the process is killed
    TornKill(u32),
    /// the process is killed right after the call took effect
    KillAfter,
    /// the call takes effect but reports failure
    ErrAfter(i32),
    /// from here on every call of this class fails
    Sticky(Class, i32),
    /// data written by this call never reaches the disk; only a later sync reports it
    Doom,
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Err(_) => "error",
            FaultKind::Short(_) => "short",
            FaultKind::Kill => "kill",
            FaultKind::TornKill(_) => "torn-write-kill",
            FaultKind::KillAfter => "kill-after",
            FaultKind::ErrAfter(_) => "error-after-effect",
            FaultKind::Sticky(..) => "sticky",
            FaultKind::Doom => "lost-writeback",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq)]
pub enum StdinItem {
    Data(Vec<u8>),
    Eof,
    Err(i32),
    Stuck(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stdin {
    /// what successive reads of the terminal return, then end of input
    Script(Vec<StdinItem>),
    /// answers depending on the question last printed
    Policy { rules: Vec<(String, String)>, default: String },
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProcSpec {
    pub argv: Vec<Vec<u8>>,
    pub stdin: Stdin,
    pub faults: Vec<Fault>,
    pub hash_seed: u64,
    pub pid: i64,
    /// 0: directory listings in name order with types; otherwise permuted, late names, odd: types unknown
    pub list_seed: u64,
    pub rchunk: u32,
    pub wchunk: u32,
    /// every n-th call that can be interrupted is (0: never)
    pub eintr: u32,
    pub skew: i64,
    /// environment variables, NAME=value
    pub env: Vec<Vec<u8>>,
    /// which of the standard streams are a terminal, bit by bit
    pub tty: u8,
    /// the n-th memory allocation fails (0: none)
    pub alloc: u32,
}

pub fn cmd(args: &[&str]) -> ProcSpec {
    cmdb(&args.iter().map(|a| a.as_bytes().to_vec()).collect::<Vec<_>>())
}
pub fn cmdb(args: &[Vec<u8>]) -> ProcSpec {
    let mut argv = vec![b"ti-tools".to_vec()];
    argv.extend(args.iter().cloned());
    ProcSpec {
        argv,
        stdin: Stdin::Script(vec![]),
        faults: vec![],
        hash_seed: 1,
        pid: 4242,
        list_seed: 0,
        rchunk: 0,
        wchunk: 0,
        eintr: 0,
        skew: 0,
        env: vec![],
        tty: 0,
        alloc: 0,
    }
}
impl ProcSpec {
    pub fn answer(mut self, lines: &str) -> ProcSpec {
        self.stdin = Stdin::Script(lines.split_inclusive('\n').map(|l| StdinItem::Data(l.as_bytes().to_vec())).collect());
        self
    }
    pub fn policy(mut self, rules: &[(&str, &str)], default: &str) -> ProcSpec {
        self.stdin = Stdin::Policy {
            rules: rules.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            default: default.to_string(),
        };
        self
    }
    pub fn yes(self) -> ProcSpec {
        self.policy(&[], "y")
    }
    pub fn clean(&self) -> ProcSpec {
        let mut s = self.clone();
        s.faults.clear();
        s.alloc = 0;
        s
    }
    pub fn args(&self) -> Vec<String> {
        self.argv.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub procs: Vec<ProcSpec>,
    /// which process makes its next call, in order; when it runs out, the seed decides
    pub schedule: Vec<u8>,
    pub sched_seed: u64,
    /// the machine loses power after the step: so many name changes and unsynced data are lost
    pub power: Option<Power>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Power {
    /// how many of the last changes had not reached the disk
    pub lost: u32,
    /// what became of data not synced: see fs::power_loss
    pub data: u8,
}
pub fn one(p: ProcSpec) -> Step {
    Step { procs: vec![p], schedule: vec![], sched_seed: 0, power: None }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DiskEnt {
    File(Vec<u8>, Arc<Vec<u8>>, u32),
    Dir(Vec<u8>, u32),
    Link(Vec<u8>, Vec<u8>),
    Hard(Vec<u8>, Vec<u8>),
}
impl DiskEnt {
    pub fn path(&self) -> &[u8] {
        match self {
            DiskEnt::File(p, ..) | DiskEnt::Dir(p, _) | DiskEnt::Link(p, _) | DiskEnt::Hard(p, _) => p,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub prop: String,
    pub kind: String,
    pub disk: Vec<DiskEnt>,
    pub cap: Option<u64>,
    pub steps: Vec<Step>,
    pub params: BTreeMap<String, String>,
}

impl Scn {
    pub fn new(prop: &str, kind: &str) -> Scn {
        Scn { prop: prop.into(), kind: kind.into(), disk: vec![], cap: None, steps: vec![], params: BTreeMap::new() }
    }
    pub fn file(&mut self, path: &str, data: &[u8]) {
        self.disk.push(DiskEnt::File(path.as_bytes().to_vec(), Arc::new(data.to_vec()), 0o644));
    }
    pub fn fileb(&mut self, path: &[u8], data: &[u8]) {
        self.disk.push(DiskEnt::File(path.to_vec(), Arc::new(data.to_vec()), 0o644));
    }
    pub fn dir(&mut self, path: &str) {
        self.disk.push(DiskEnt::Dir(path.as_bytes().to_vec(), 0o755));
    }
    pub fn link(&mut self, path: &str, to: &str) {
        self.linkb(path.as_bytes(), to.as_bytes());
    }
    pub fn linkb(&mut self, path: &[u8], to: &[u8]) {
        self.disk.push(DiskEnt::Link(path.to_vec(), to.to_vec()));
    }
    pub fn hard(&mut self, path: &str, to: &str) {
        self.disk.push(DiskEnt::Hard(path.as_bytes().to_vec(), to.as_bytes().to_vec()));
    }
    pub fn par(&self, k: &str) -> String {
        self.params.get(k).cloned().unwrap_or_default()
    }
    pub fn set(&mut self, k: &str, v: &str) {
        self.params.insert(k.into(), v.into());
    }
    /// without faults
    pub fn clean(&self) -> Scn {
        let mut s = self.clone();
        s.cap = None;
        for st in &mut s.steps {
            st.power = None;
            for p in &mut st.procs {
                *p = p.clean();
            }
        }
        s
    }

    /// Builds the initial disk. The working directory is /w.
    pub fn build(&self) -> Fs {
        let mut fs = Fs::new();
        mkdirs(&mut fs, b"/w");
        mkdirs(&mut fs, b"/tmp");
        for e in &self.disk {
            let p = e.path();
            let cut = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
            let (dir, name) = (&p[..cut], p[cut + 1..].to_vec());
            let d = mkdirs(&mut fs, dir);
            if fs.entries(d).map(|x| x.contains_key(&name)).unwrap_or(true) && !matches!(e, DiskEnt::Dir(..)) {
                continue;
            }
            let ino = fs.inodes.len();
            match e {
                DiskEnt::File(_, data, mode) => {
                    fs.apply(&Mut::New { ino, node: Node::File(data.clone()), mode: 0o100000 | mode });
                    fs.apply(&Mut::Link { dir: d, name, ino });
                }
                DiskEnt::Dir(p, mode) => {
                    let i = mkdirs(&mut fs, p);
                    fs.apply(&Mut::Chmod { ino: i, mode: *mode });
                }
                DiskEnt::Link(_, t) => {
                    fs.apply(&Mut::New { ino, node: Node::Link(Arc::new(t.clone())), mode: 0o120777 });
                    fs.apply(&Mut::Link { dir: d, name, ino });
                }
                DiskEnt::Hard(_, t) => {
                    if let Some(i) = fs.resolve(ROOT, t, true).ok().and_then(|f| f.ino) {
                        fs.apply(&Mut::Link { dir: d, name, ino: i });
                    }
                }
            }
        }
        fs
    }

    pub fn to_json(&self) -> J {
        let disk = self
            .disk
            .iter()
            .map(|e| match e {
                DiskEnt::File(p, d, m) => obj(vec![("path", enc(p)), ("file", enc(d)), ("mode", J::Int(*m as i64))]),
                DiskEnt::Dir(p, m) => obj(vec![("path", enc(p)), ("dir", J::Bool(true)), ("mode", J::Int(*m as i64))]),
                DiskEnt::Link(p, t) => obj(vec![("path", enc(p)), ("link", enc(t))]),
                DiskEnt::Hard(p, t) => obj(vec![("path", enc(p)), ("hard", enc(t))]),
            })
            .collect();
        let steps = self
            .steps
            .iter()
            .map(|s| {
                obj(vec![
                    ("procs", J::Arr(s.procs.iter().map(proc_json).collect())),
                    ("schedule", J::Arr(s.schedule.iter().map(|x| J::Int(*x as i64)).collect())),
                    ("sched_seed", J::Str(s.sched_seed.to_string())),
                    (
                        "power_loss",
                        s.power
                            .map(|p| obj(vec![("lost", J::Int(p.lost as i64)), ("data", J::Int(p.data as i64))]))
                            .unwrap_or(J::Null),
                    ),
                ])
            })
            .collect();
        obj(vec![
            ("property", J::s(&self.prop)),
            ("kind", J::s(&self.kind)),
            ("params", J::Obj(self.params.iter().map(|(k, v)| (k.clone(), enc(v.as_bytes()))).collect())),
            ("disk", J::Arr(disk)),
            ("capacity", self.cap.map(|c| J::Int(c as i64)).unwrap_or(J::Null)),
            ("steps", J::Arr(steps)),
        ])
    }

    pub fn from_json(j: &J) -> Scn {
        let mut s = Scn::new(&j.gstr("property"), &j.gstr("kind"));
        if let Some(J::Obj(v)) = j.get("params") {
            for (k, x) in v {
                s.params.insert(k.clone(), String::from_utf8_lossy(&dec(x)).to_string());
            }
        }
        s.cap = j.get("capacity").and_then(|x| x.int()).map(|x| x as u64);
        for e in j.get("disk").map(|x| x.arr()).unwrap_or(&[]) {
            let p = dec(e.get("path").unwrap_or(&J::Null));
            let mode = e.gint("mode") as u32;
            if let Some(f) = e.get("file") {
                s.disk.push(DiskEnt::File(p, Arc::new(dec(f)), mode));
            } else if let Some(l) = e.get("link") {
                s.disk.push(DiskEnt::Link(p, dec(l)));
            } else if let Some(l) = e.get("hard") {
                s.disk.push(DiskEnt::Hard(p, dec(l)));
            } else {
                s.disk.push(DiskEnt::Dir(p, mode));
            }
        }
        for st in j.get("steps").map(|x| x.arr()).unwrap_or(&[]) {
            s.steps.push(Step {
                procs: st.get("procs").map(|x| x.arr()).unwrap_or(&[]).iter().map(proc_from).collect(),
                schedule: st.get("schedule").map(|x| x.arr()).unwrap_or(&[]).iter().map(|x| x.int().unwrap_or(0) as u8).collect(),
                sched_seed: st.gstr("sched_seed").parse().unwrap_or(0),
                power: st
                    .get("power_loss")
                    .filter(|p| **p != J::Null)
                    .map(|p| Power { lost: p.gint("lost") as u32, data: p.gint("data") as u8 }),
            });
        }
        s
    }
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn proc_json(p: &ProcSpec) -> J {
    let stdin = match &p.stdin {
        Stdin::Script(items) => J::Arr(
            items
                .iter()
                .map(|i| match i {
                    StdinItem::Data(d) => obj(vec![("data", enc(d))]),
                    StdinItem::Eof => obj(vec![("eof", J::Bool(true))]),
                    StdinItem::Err(e) => obj(vec![("err", J::Int(*e as i64))]),
                    StdinItem::Stuck(e) => obj(vec![("stuck", J::Int(*e as i64))]),
                })
                .collect(),
        ),
        Stdin::Policy { rules, default } => obj(vec![
            ("rules", J::Arr(rules.iter().map(|(a, b)| J::Arr(vec![J::s(a), J::s(b)])).collect())),
            ("default", J::s(default)),
        ]),
    };
    let faults = p
        .faults
        .iter()
        .map(|f| {
            let mut v = vec![("at", J::Int(f.at as i64)), ("kind", J::s(f.kind.name()))];
            match &f.kind {
                FaultKind::Err(e) | FaultKind::ErrAfter(e) => v.push(("errno", J::Int(*e as i64))),
                FaultKind::Short(n) | FaultKind::TornKill(n) => v.push(("bytes", J::Int(*n as i64))),
                FaultKind::Sticky(c, e) => {
                    v.push(("class", J::s(c.name())));
                    v.push(("errno", J::Int(*e as i64)));
                }
                _ => {}
            }
            obj(v)
        })
        .collect();
    obj(vec![
        ("argv", J::Arr(p.argv.iter().map(|a| enc(a)).collect())),
        ("stdin", stdin),
        ("faults", J::Arr(faults)),
        ("hash_seed", J::Str(p.hash_seed.to_string())),
        ("pid", J::Int(p.pid)),
        ("list_seed", J::Str(p.list_seed.to_string())),
        ("rchunk", J::Int(p.rchunk as i64)),
        ("wchunk", J::Int(p.wchunk as i64)),
        ("eintr", J::Int(p.eintr as i64)),
        ("skew", J::Int(p.skew)),
        ("env", J::Arr(p.env.iter().map(|a| enc(a)).collect())),
        ("tty", J::Int(p.tty as i64)),
        ("alloc", J::Int(p.alloc as i64)),
    ])
}

fn proc_from(j: &J) -> ProcSpec {
    let mut p = cmdb(&[]);
    p.argv = j.get("argv").map(|x| x.arr()).unwrap_or(&[]).iter().map(dec).collect();
    p.stdin = match j.get("stdin") {
        Some(J::Arr(a)) => Stdin::Script(
            a.iter()
                .map(|i| {
                    if let Some(d) = i.get("data") {
                        StdinItem::Data(dec(d))
                    } else if let Some(e) = i.get("err") {
                        StdinItem::Err(e.int().unwrap_or(5) as i32)
                    } else if let Some(e) = i.get("stuck") {
                        StdinItem::Stuck(e.int().unwrap_or(5) as i32)
                    } else {
                        StdinItem::Eof
                    }
                })
                .collect(),
        ),
        Some(o) => Stdin::Policy {
            rules: o
                .get("rules")
                .map(|x| x.arr())
                .unwrap_or(&[])
                .iter()
                .map(|r| (r.arr()[0].str().unwrap_or("").into(), r.arr()[1].str().unwrap_or("").into()))
                .collect(),
            default: o.gstr("default"),
        },
        None => Stdin::Script(vec![]),
    };
    for f in j.get("faults").map(|x| x.arr()).unwrap_or(&[]) {
        let e = f.gint("errno") as i32;
        let n = f.gint("bytes") as u32;
        let kind = match f.gstr("kind").as_str() {
            "error" => FaultKind::Err(e),
            "short" => FaultKind::Short(n),
            "kill" => FaultKind::Kill,
            "torn-write-kill" => FaultKind::TornKill(n),
            "kill-after" => FaultKind::KillAfter,
            "error-after-effect" => FaultKind::ErrAfter(e),
            "sticky" => FaultKind::Sticky(Class::from_name(&f.gstr("class")), e),
            _ => FaultKind::Doom,
        };
        p.faults.push(Fault { at: f.gint("at") as u32, kind });
    }
    p.hash_seed = j.gstr("hash_seed").parse().unwrap_or(0);
    p.pid = j.gint("pid");
    p.list_seed = j.gstr("list_seed").parse().unwrap_or(0);
    p.rchunk = j.gint("rchunk") as u32;
    p.wchunk = j.gint("wchunk") as u32;
    p.eintr = j.gint("eintr") as u32;
    p.skew = j.gint("skew");
    p.alloc = j.gint("alloc") as u32;
    p.tty = j.gint("tty") as u8;
    p.env = j.get("env").map(|x| x.arr()).unwrap_or(&[]).iter().map(dec).collect();
    p
}

pub fn mkdirs(fs: &mut Fs, path: &[u8]) -> Ino {
    let mut d = ROOT;
    for c in path.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
        let next = fs.entries(d).and_then(|e| e.get(c)).copied();
        d = match next {
            Some(n) => match fs.resolve(d, c, true).ok().and_then(|f| f.ino) {
                Some(t) if fs.is_dir(t) => t,
                _ => n,
            },
            None => {
                let ino = fs.inodes.len();
                fs.apply(&Mut::New { ino, node: Node::Dir { parent: d, entries: Arc::new(BTreeMap::new()) }, mode: 0o40755 });
                fs.apply(&Mut::Link { dir: d, name: c.to_vec(), ino });
                ino
            }
        };
    }
    d
}
