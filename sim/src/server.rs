//! Runs real ti-tools processes under the simulated kernel. Each server is one fork server (the real binary
//! with the preloaded shim); every process of a step is forked from it and talks to us over its own socket.

use crate::fs::*;
use crate::kernel::*;
use crate::rng::Rng;
use crate::scenario::*;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

pub const SLOTS: usize = 4;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}

pub struct Server {
    child: Child,
    ctl: UnixStream,
    ch: Vec<UnixStream>,
    bin: String,
    shim: String,
    dirty: bool,
    /// processes ended for using too much time
    pub spun: u64,
}

pub struct ProcResult {
    pub status: Status,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: Vec<OpRec>,
    pub asked: Vec<Asked>,
    pub fired: Vec<String>,
    pub looked: Vec<Vec<u8>>,
}
impl ProcResult {
    pub fn outs(&self) -> String {
        String::from_utf8_lossy(&self.out).to_string()
    }
    pub fn errs(&self) -> String {
        String::from_utf8_lossy(&self.err).to_string()
    }
    pub fn code(&self) -> i32 {
        match self.status {
            Status::Exit(c) => c,
            Status::Signal(s) => 1000 + s,
            Status::Killed => 2000,
            Status::Hang => 3000,
        }
    }
    /// what it printed was refused: saying so failed, whatever it did
    pub fn mute(&self) -> bool {
        self.fired.iter().any(|f| f.ends_with(":stdout") || f.ends_with(":stderr"))
    }
    pub fn killed(&self) -> bool {
        self.status == Status::Killed
    }
}

pub struct StepResult {
    pub before: Fs,
    pub after: Fs,
    pub journal: Vec<Mut>,
    pub procs: Vec<ProcResult>,
    /// the schedule actually taken
    pub schedule: Vec<u8>,
    pub nanos: i64,
}

impl Server {
    pub fn start(bin: &str, shim: &str) -> Result<Server, String> {
        let (ctl, ctl_c) = UnixStream::pair().map_err(|e| e.to_string())?;
        let mut ch = Vec::new();
        let mut ch_c = Vec::new();
        for _ in 0..SLOTS {
            let (a, b) = UnixStream::pair().map_err(|e| e.to_string())?;
            ch.push(a);
            ch_c.push(b);
        }
        let fds: Vec<(i32, i32)> = std::iter::once((ctl_c.as_raw_fd(), 198))
            .chain(ch_c.iter().enumerate().map(|(i, c)| (c.as_raw_fd(), 200 + i as i32)))
            .collect();
        let mut c = Command::new(bin);
        c.env_clear()
            .env("LD_PRELOAD", shim)
            .env("TISIM", "1")
            .current_dir("/")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(if std::env::var("TISIM_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() });
        unsafe {
            c.pre_exec(move || {
                for (a, b) in &fds {
                    if a == b {
                        fcntl(*a, 2, 0);
                    } else if dup2(*a, *b) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("cannot start {}: {}", bin, e))?;
        drop(ctl_c);
        drop(ch_c);
        let mut s = Server { child, ctl, ch, bin: bin.into(), shim: shim.into(), dirty: false, spun: 0 };
        s.wait_fd(s.ctl.as_raw_fd(), 30_000)?;
        let mut b = [0u8; 1];
        s.ctl.read_exact(&mut b).map_err(|e| format!("the fork server did not start: {}", e))?;
        if b[0] != b'H' {
            return Err("bad handshake".into());
        }
        Ok(s)
    }

    fn wait_fd(&self, fd: i32, ms: i32) -> Result<(), String> {
        let mut p = PollFd { fd, events: 1, revents: 0 };
        let r = unsafe { poll(&mut p, 1, ms) };
        if r <= 0 {
            return Err("timeout".into());
        }
        Ok(())
    }

    fn restart(&mut self) -> Result<(), String> {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (bin, shim) = (self.bin.clone(), self.shim.clone());
        let new = Server::start(&bin, &shim)?;
        let old = std::mem::replace(self, new);
        drop(old);
        Ok(())
    }

    fn read_req(ch: &mut UnixStream) -> std::io::Result<Req> {
        let mut h = [0u8; 48];
        ch.read_exact(&mut h)?;
        let u = |i: usize| u32::from_le_bytes(h[i..i + 4].try_into().unwrap());
        let l = |i: usize| i64::from_le_bytes(h[i..i + 8].try_into().unwrap());
        let mut p1 = vec![0; u(4) as usize];
        ch.read_exact(&mut p1)?;
        let mut p2 = vec![0; u(8) as usize];
        ch.read_exact(&mut p2)?;
        Ok(Req { op: u(0), a: l(16), b: l(24), c: l(32), p1, p2 })
    }
    fn send(ch: &mut UnixStream, ret: i64, err: i32, data: &[u8]) -> std::io::Result<()> {
        let mut b = Vec::with_capacity(16 + data.len());
        b.extend(ret.to_le_bytes());
        b.extend(err.to_le_bytes());
        b.extend((data.len() as u32).to_le_bytes());
        b.extend(data);
        ch.write_all(&b)
    }

    pub fn run(&mut self, w: &mut World, step: &Step, limit: usize) -> Result<StepResult, String> {
        if self.dirty {
            self.restart()?;
        }
        self.dirty = true;
        let r = self.run_inner(w, step, limit);
        if r.is_ok() {
            self.dirty = false;
        }
        r
    }

    fn run_inner(&mut self, w: &mut World, step: &Step, limit: usize) -> Result<StepResult, String> {
        let n = step.procs.len();
        assert!(n >= 1 && n <= SLOTS);
        let before = w.fs.clone();
        w.journal.clear();
        let t0 = w.clock;
        let cwd = w.fs.resolve(ROOT, b"/w", true).ok().and_then(|f| f.ino).unwrap_or(ROOT);
        let mut procs: Vec<Proc> = step.procs.iter().map(|s| Proc::new(s, cwd, limit)).collect();
        let mut pending: Vec<Option<Req>> = (0..n).map(|_| None).collect();
        let mut done = vec![false; n];
        let mut rng = Rng::new(step.sched_seed);
        let mut taken: Vec<u8> = Vec::new();
        self.ctl.write_all(&[n as u8]).map_err(|e| e.to_string())?;
        let mut decision = 0usize;
        loop {
            // let every live process reach its next call
            while (0..n).any(|i| !done[i] && pending[i].is_none()) {
                let mut pf = vec![PollFd { fd: self.ctl.as_raw_fd(), events: 1, revents: 0 }];
                for i in 0..n {
                    let want = !done[i] && pending[i].is_none();
                    pf.push(PollFd { fd: if want { self.ch[i].as_raw_fd() } else { -1 }, events: 1, revents: 0 });
                }
                let r = unsafe { poll(pf.as_mut_ptr(), pf.len() as u64, 60_000) };
                if r <= 0 {
                    return Err("no answer from the process under test within 60 s".into());
                }
                for i in 0..n {
                    if pf[i + 1].revents & 1 != 0 {
                        let q = Self::read_req(&mut self.ch[i]).map_err(|e| format!("channel: {}", e))?;
                        if q.op == OP_START {
                            let s = &procs[i].spec;
                            let mut d = s.hash_seed.to_le_bytes().to_vec();
                            d.extend(s.pid.to_le_bytes());
                            d.extend((s.alloc as i64).to_le_bytes());
                            for a in s.argv.iter().chain(&s.env) {
                                d.extend(a.iter().copied().filter(|c| *c != 0));
                                d.push(0);
                            }
                            Self::send(&mut self.ch[i], s.argv.len() as i64 | (s.env.len() as i64) << 16 | (s.tty as i64) << 32, 0, &d).map_err(|e| e.to_string())?;
                        } else if q.op == OP_GETENV {
                            procs[i].looked.push(q.p1);
                            Self::send(&mut self.ch[i], 0, 0, &[]).map_err(|e| e.to_string())?;
                        } else {
                            pending[i] = Some(q);
                        }
                    }
                }
                if pf[0].revents & 1 != 0 {
                    let mut m = [0u8; 8];
                    self.ctl.read_exact(&mut m).map_err(|e| format!("fork server: {}", e))?;
                    let i = i32::from_le_bytes(m[0..4].try_into().unwrap()) as usize;
                    let st = i32::from_le_bytes(m[4..8].try_into().unwrap());
                    done[i] = true;
                    pending[i] = None;
                    let p = &mut procs[i];
                    if p.status.is_none() {
                        let sig = st & 0x7f;
                        p.status = Some(if sig == 0 {
                            let c = (st >> 8) & 0xff;
                            if (120..=125).contains(&c) {
                                return Err(format!("shim failure {}", c));
                            }
                            Status::Exit(c)
                        } else if sig == 24 {
                            self.spun += 1;
                            Status::Hang
                        } else {
                            Status::Signal(sig)
                        });
                    }
                    if p.spec.alloc > 0 && p.status == Some(Status::Signal(6)) {
                        p.fired.push("allocation".into());
                    }
                    w.ended(p, i);
                } else if pf[0].revents != 0 {
                    return Err("the fork server ended".into());
                }
            }
            let live: Vec<usize> = (0..n).filter(|i| !done[*i]).collect();
            if live.is_empty() {
                break;
            }
            // one call at a time, chosen by the schedule
            let mut order: Vec<usize> = live.clone();
            let first = match step.schedule.get(decision) {
                Some(s) if live.contains(&(*s as usize)) => *s as usize,
                Some(_) => live[0],
                None if step.sched_seed == 0 => live[0],
                None => *rng.pick(&live),
            };
            if n > 1 {
                decision += 1;
            }
            order.retain(|x| *x != first);
            order.insert(0, first);
            let mut progressed = false;
            for i in order {
                let q = pending[i].take().unwrap();
                let (ret, err, data, die) = match w.handle(&mut procs[i], i, &q) {
                    Reply::Ok(v, d) => (v, 0, d, false),
                    Reply::Err(e) => (-1, e, vec![], false),
                    Reply::Die => (-0x7fff_ffff, 0, vec![], true),
                    Reply::Block => {
                        pending[i] = Some(q);
                        continue;
                    }
                };
                let _ = die;
                if n > 1 {
                    taken.push(i as u8);
                }
                Self::send(&mut self.ch[i], ret, err, &data).map_err(|e| e.to_string())?;
                progressed = true;
                break;
            }
            if !progressed {
                // everyone waits for a lock
                for i in live {
                    procs[i].status = Some(Status::Hang);
                    pending[i] = None;
                    Self::send(&mut self.ch[i], -0x7fff_ffff, 0, &[]).map_err(|e| e.to_string())?;
                }
            }
        }
        let procs = procs
            .into_iter()
            .map(|p| ProcResult {
                status: p.status.unwrap(),
                out: p.out,
                err: p.err,
                ops: p.ops,
                asked: p.asked,
                fired: p.fired,
                looked: p.looked,
            })
            .collect();
        Ok(StepResult { before, after: w.fs.clone(), journal: w.journal.clone(), procs, schedule: taken, nanos: w.clock - t0 })
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
