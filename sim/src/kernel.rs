//! The simulated operating system: descriptors, every call the tool makes, the terminal, and fault injection.

use crate::fs::*;
use crate::rng::{hash, mix};
use crate::scenario::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const OP_START: u32 = 1;
pub const OP_GETENV: u32 = 33;
pub const OPS: [&str; 34] = [
    "", "start", "open", "close", "read", "write", "pread", "pwrite", "lseek", "fsync", "ftruncate", "stat", "fstat",
    "unlink", "rename", "link", "symlink", "readlink", "mkdir", "readdir", "realpath", "getcwd", "chdir", "access",
    "chmod", "dup", "clock", "sleep", "utime", "truncate", "flock", "fchmod", "fallocate", "getenv",
];
const O_CREAT: i64 = 0x40;
const O_EXCL: i64 = 0x80;
const O_TRUNC: i64 = 0x200;
const O_APPEND: i64 = 0x400;
const O_DIRECTORY: i64 = 0x10000;
const O_NOFOLLOW: i64 = 0x20000;
const O_TMPFILE: i64 = 0x410000;
const AT_FDCWD: i64 = -100;

pub struct Req {
    pub op: u32,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub p1: Vec<u8>,
    pub p2: Vec<u8>,
}

pub enum Reply {
    Ok(i64, Vec<u8>),
    Err(i32),
    Die,
    Block,
}

/// What kind of thing a call does: the unit in which faults are aimed.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    Data,   // writing file data
    Sync,   // forcing it to disk
    Create, // making a file or directory
    OpenR,  // opening an existing file or directory
    Rename,
    Unlink,
    Read,
    List,
    Stat,
    Stdin,
    Stdout,
    Stderr,
    Other,
}
pub const CLASSES: [Class; 13] = [
    Class::Data, Class::Sync, Class::Create, Class::OpenR, Class::Rename, Class::Unlink, Class::Read, Class::List,
    Class::Stat, Class::Stdin, Class::Stdout, Class::Stderr, Class::Other,
];
impl Class {
    pub fn name(self) -> &'static str {
        match self {
            Class::Data => "write",
            Class::Sync => "sync",
            Class::Create => "create",
            Class::OpenR => "open",
            Class::Rename => "rename",
            Class::Unlink => "unlink",
            Class::Read => "read",
            Class::List => "list",
            Class::Stat => "stat",
            Class::Stdin => "stdin",
            Class::Stdout => "stdout",
            Class::Stderr => "stderr",
            Class::Other => "other",
        }
    }
    pub fn from_name(s: &str) -> Class {
        CLASSES.iter().copied().find(|c| c.name() == s).unwrap_or(Class::Other)
    }
    /// real, persistent error codes a call of this kind can return
    pub fn errnos(self) -> &'static [i32] {
        match self {
            Class::Data => &[ENOSPC, EIO, EDQUOT, EFBIG],
            Class::Sync => &[EIO, ENOSPC, EDQUOT],
            Class::Create => &[EACCES, ENOSPC, EROFS, EMFILE, EIO, EPERM, EDQUOT],
            Class::OpenR => &[EACCES, EIO, EMFILE, ENFILE],
            Class::Rename => &[EIO, EACCES, ENOSPC, EROFS, EPERM, EXDEV, EBUSY],
            Class::Unlink => &[EACCES, EIO, EROFS, EPERM],
            Class::Read => &[EIO],
            Class::List => &[EIO],
            Class::Stat => &[EACCES, EIO, ENOMEM],
            Class::Stdin => &[EIO, EAGAIN],
            Class::Stdout | Class::Stderr => &[EPIPE, EIO, ENOSPC],
            Class::Other => &[EIO],
        }
    }
}

/// the user's limit of open files (ulimit -n)
const MAX_OPEN: usize = 48;

struct Open {
    ino: Ino,
    off: usize,
    r: bool,
    w: bool,
    append: bool,
    list: Option<Vec<(Vec<u8>, Ino, u8)>>,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub op: u32,
    pub class: Class,
    pub path: Vec<u8>,
    pub path2: Vec<u8>,
    pub n: usize,
    pub ret: i64,
    /// journal length after this call
    pub jlen: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    Killed,
    Hang,
}

#[derive(Clone, Debug)]
pub struct Asked {
    pub prompt: Vec<u8>,
    pub got: Vec<u8>,
    pub jlen: usize,
}

pub struct Proc {
    pub spec: ProcSpec,
    fds: BTreeMap<i64, Open>,
    std_closed: [bool; 3],
    cwd: Ino,
    pub ops: Vec<OpRec>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    mark: usize,
    pub asked: Vec<Asked>,
    stdin_i: usize,
    stdin_off: usize,
    sticky: Vec<(Class, i32)>,
    doomed: Vec<(Ino, usize, bool)>,
    doom_next: bool,
    pub fired: Vec<String>,
    /// settings it looked at
    pub looked: Vec<Vec<u8>>,
    pub status: Option<Status>,
    last_eintr: bool,
    pub limit: usize,
    pub kill_now: bool,
}

pub struct World {
    pub fs: Fs,
    pub journal: Vec<Mut>,
    pub clock: i64,
    pub cap: Option<u64>,
    locks: BTreeMap<Ino, Vec<(usize, i64, bool)>>,
    mtimes: BTreeMap<Ino, u64>,
}

type R = Result<(i64, Vec<u8>), i32>;

impl Proc {
    pub fn new(spec: &ProcSpec, cwd: Ino, limit: usize) -> Proc {
        Proc {
            spec: spec.clone(),
            fds: BTreeMap::new(),
            std_closed: [false; 3],
            cwd,
            ops: Vec::new(),
            out: Vec::new(),
            err: Vec::new(),
            mark: 0,
            asked: Vec::new(),
            stdin_i: 0,
            stdin_off: 0,
            sticky: Vec::new(),
            doomed: Vec::new(),
            doom_next: false,
            fired: Vec::new(),
            looked: Vec::new(),
            status: None,
            last_eintr: false,
            limit,
            kill_now: false,
        }
    }
    fn stdin(&mut self, n: usize) -> Result<Vec<u8>, i32> {
        let prompt = self.out[self.mark.min(self.out.len())..].to_vec();
        let data: Result<Vec<u8>, i32> = match &self.spec.stdin {
            Stdin::Script(items) => match items.get(self.stdin_i) {
                None | Some(StdinItem::Eof) => {
                    self.stdin_i += 1;
                    Ok(Vec::new())
                }
                Some(StdinItem::Err(e)) => {
                    let e = *e;
                    self.stdin_i += 1;
                    Err(e)
                }
                Some(StdinItem::Stuck(e)) => Err(*e),
                Some(StdinItem::Data(d)) => {
                    let rest = &d[self.stdin_off.min(d.len())..];
                    let k = rest.len().min(n);
                    let out = rest[..k].to_vec();
                    if k == rest.len() {
                        self.stdin_i += 1;
                        self.stdin_off = 0;
                    } else {
                        self.stdin_off += k;
                    }
                    Ok(out)
                }
            },
            Stdin::Policy { rules, default } => {
                let text = String::from_utf8_lossy(&prompt).to_string();
                self.stdin_i += 1;
                if self.stdin_i > 400 {
                    Ok(Vec::new())
                } else {
                    // the question asked last decides
                    let mut best: Option<(usize, &String)> = None;
                    for (pat, ans) in rules {
                        if let Some(at) = text.rfind(pat.as_str()) {
                            if best.map(|b| at >= b.0).unwrap_or(true) {
                                best = Some((at, ans));
                            }
                        }
                    }
                    let ans = best.map(|b| b.1).unwrap_or(default);
                    if ans == "<eof>" {
                        Ok(Vec::new())
                    } else {
                        Ok(format!("{}\n", ans).into_bytes())
                    }
                }
            }
        };
        if let Ok(d) = &data {
            self.asked.push(Asked { prompt, got: d.clone(), jlen: 0 });
            self.mark = self.out.len();
        }
        data
    }
}

impl World {
    pub fn new(fs: Fs, cap: Option<u64>) -> World {
        World { fs, journal: Vec::new(), clock: 0, cap, locks: BTreeMap::new(), mtimes: BTreeMap::new() }
    }

    fn m(&mut self, m: Mut) {
        self.fs.apply(&m);
        if let Mut::New { ino, .. } | Mut::Write { ino, .. } | Mut::Trunc { ino, .. } = &m {
            self.mtimes.insert(*ino, 1_700_000_000 + (self.clock / 1_000_000_000) as u64);
        }
        self.journal.push(m);
    }
    fn new_inode(&mut self, node: Node, mode: u32) -> Ino {
        let ino = self.fs.inodes.len();
        self.m(Mut::New { ino, node, mode });
        ino
    }

    /// After a process ended: its descriptors close, late write-back failures strike.
    pub fn ended(&mut self, p: &mut Proc, who: usize) {
        p.fds.clear();
        for l in self.locks.values_mut() {
            l.retain(|x| x.0 != who);
        }
        let doomed = std::mem::take(&mut p.doomed);
        for (ino, len, _) in doomed {
            if self.fs.data(ino).map(|d| d.len() > len).unwrap_or(false) {
                self.m(Mut::Trunc { ino, len });
            }
        }
    }

    fn class(&self, p: &Proc, q: &Req) -> Class {
        match q.op {
            2 => {
                let creates = q.b & O_CREAT != 0 || q.b & O_TMPFILE == O_TMPFILE;
                if creates {
                    Class::Create
                } else if q.b & 3 != 0 {
                    Class::Data
                } else {
                    Class::OpenR
                }
            }
            4 | 6 => {
                if q.a == 0 {
                    Class::Stdin
                } else {
                    Class::Read
                }
            }
            5 | 7 => match q.a {
                1 => Class::Stdout,
                2 => Class::Stderr,
                _ => Class::Data,
            },
            9 => Class::Sync,
            10 | 29 | 32 => Class::Data,
            11 | 12 | 17 | 20 | 21 | 23 => {
                if q.op == 11 && q.p1.is_empty() && !p.fds.contains_key(&q.a) {
                    Class::Other
                } else {
                    Class::Stat
                }
            }
            13 => Class::Unlink,
            14 => Class::Rename,
            15 | 16 | 18 => Class::Create,
            19 => Class::List,
            _ => Class::Other,
        }
    }

    /// Performs one call of process `who`. Faults first, then the call itself.
    pub fn handle(&mut self, p: &mut Proc, who: usize, q: &Req) -> Reply {
        let n = p.ops.len();
        let class = self.class(p, q);
        self.clock += 50_000;
        if n >= p.limit {
            p.status = Some(Status::Hang);
            return Reply::Die;
        }
        let (mut path, path2) = (q.p1.clone(), q.p2.clone());
        let mut size = 0;
        match q.op {
            4 | 6 => size = q.b.max(0) as usize,
            5 | 7 => {
                size = q.p1.len();
                path = Vec::new();
            }
            _ => {}
        }
        if path.is_empty() {
            if let Some(o) = p.fds.get(&q.a) {
                path = format!("#{}", o.ino).into_bytes();
            }
        }
        let rec = |p: &mut Proc, ret: i64, j: usize| {
            p.ops.push(OpRec { op: q.op, class, path: path.clone(), path2: path2.clone(), n: size, ret, jlen: j });
        };

        // interrupted calls
        let k = p.spec.eintr as usize;
        if k >= 2 && !p.last_eintr && n % k == k - 1 {
            if matches!(class, Class::Read | Class::Stdin | Class::Stdout | Class::Stderr | Class::Sync)
                || (class == Class::Data && q.op != 10)
                || (q.op == 2 && q.b & 0o200000 == 0)
            {
                // opening a directory is not: opendir's callers do not expect it and local file systems do not do it
                p.last_eintr = true;
                p.fired.push("eintr".into());
                rec(p, -EINTR as i64, self.journal.len());
                return Reply::Err(EINTR);
            }
        }
        p.last_eintr = false;

        // closing a directory does not fail on any file system, and std panics if it does
        let dirclose = OPS[q.op as usize] == "close" && p.fds.get(&q.a).map(|o| self.fs.is_dir(o.ino)).unwrap_or(false);
        let mut limit = usize::MAX;
        let mut kill_after = false;
        let mut err_after = 0;
        let faults: Vec<FaultKind> = p.spec.faults.iter().filter(|f| f.at as usize == n).map(|f| f.kind.clone()).collect();
        for f in faults {
            let nm = f.name();
            match f {
                FaultKind::Err(_) if dirclose => {}
                FaultKind::Err(e) => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    rec(p, -e as i64, self.journal.len());
                    return Reply::Err(e);
                }
                FaultKind::Short(k) => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    limit = (k as usize).max(1);
                }
                FaultKind::Kill => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    p.status = Some(Status::Killed);
                    rec(p, -999, self.journal.len());
                    return Reply::Die;
                }
                FaultKind::TornKill(k) => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    if class == Class::Data && (q.op == 5 || q.op == 7) {
                        limit = k as usize;
                        kill_after = true;
                    } else {
                        p.status = Some(Status::Killed);
                        rec(p, -999, self.journal.len());
                        return Reply::Die;
                    }
                }
                FaultKind::KillAfter => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    kill_after = true;
                }
                FaultKind::ErrAfter(e) => {
                    p.fired.push(format!("{}:{}", nm, class.name()));
                    err_after = e;
                }
                FaultKind::Sticky(c, e) => p.sticky.push((c, e)),
                FaultKind::Doom => {
                    p.fired.push(nm.into());
                    p.doom_next = true;
                }
            }
        }
        if let Some((_, e)) = p.sticky.iter().find(|(c, _)| *c == class && !dirclose).copied() {
            p.fired.push(format!("sticky:{}", class.name()));
            rec(p, -e as i64, self.journal.len());
            return Reply::Err(e);
        }
        let mut q2;
        let mut q = q;
        if limit != usize::MAX || p.spec.rchunk > 0 || p.spec.wchunk > 0 {
            q2 = Req { op: q.op, a: q.a, b: q.b, c: q.c, p1: q.p1.clone(), p2: q.p2.clone() };
            match q.op {
                4 | 6 => {
                    let mut k = (q2.b.max(0) as usize).min(limit);
                    if p.spec.rchunk > 0 {
                        k = k.min((p.spec.rchunk as usize).max(size / 4096));
                    }
                    q2.b = k as i64;
                }
                5 | 7 => {
                    let mut k = q2.p1.len().min(limit);
                    if p.spec.wchunk > 0 {
                        k = k.min((p.spec.wchunk as usize).max(size / 1024));
                    }
                    q2.p1.truncate(k);
                }
                _ => {}
            }
            q = &q2;
        }
        let before = self.journal.len();
        let r = if q.op == 30 {
            match self.flock(p, who, q) {
                None => return Reply::Block,
                Some(r) => r,
            }
        } else {
            self.exec(p, who, q)
        };
        let _ = before;
        let ret = match &r {
            Ok((v, _)) => *v,
            Err(e) => -*e as i64,
        };
        let ret = if err_after != 0 { -err_after as i64 } else { ret };
        rec(p, ret, self.journal.len());
        if class == Class::Stdin {
            let j = self.journal.len();
            if let Some(a) = p.asked.last_mut() {
                a.jlen = j;
            }
        }
        if kill_after {
            p.status = Some(Status::Killed);
            return Reply::Die;
        }
        if err_after != 0 {
            return Reply::Err(err_after);
        }
        match r {
            Ok((v, d)) => Reply::Ok(v, d),
            Err(e) => Reply::Err(e),
        }
    }

    fn at(&self, p: &Proc, dfd: i64) -> Result<Ino, i32> {
        if dfd == AT_FDCWD {
            return Ok(p.cwd);
        }
        match p.fds.get(&dfd) {
            Some(o) if self.fs.is_dir(o.ino) => Ok(o.ino),
            Some(_) => Err(ENOTDIR),
            None => Err(EBADF),
        }
    }
    fn look(&self, p: &Proc, dfd: i64, path: &[u8], follow: bool) -> Result<Found, i32> {
        let base = if path.first() == Some(&b'/') { p.cwd } else { self.at(p, dfd)? };
        self.fs.resolve(base, path, follow)
    }
    fn can_change(&self, dir: Ino) -> Result<(), i32> {
        if self.fs.inodes[dir].mode & 0o300 != 0o300 {
            return Err(EACCES);
        }
        if self.fs.inodes[dir].nlink == 0 && dir != ROOT {
            return Err(ENOENT);
        }
        Ok(())
    }
    fn new_fd(p: &mut Proc, o: Open) -> i64 {
        let mut fd = 3;
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        p.fds.insert(fd, o);
        fd
    }

    fn write_at(&mut self, p: &mut Proc, ino: Ino, off: usize, data: &[u8]) -> Result<usize, i32> {
        let cur = self.fs.data(ino).ok_or(EISDIR)?.len();
        let mut n = data.len();
        if let Some(cap) = self.cap {
            let free = cap.saturating_sub(self.fs.used()) as usize;
            let room = if off <= cur { (cur - off) + free } else { free.saturating_sub(off - cur) };
            if n > room {
                n = room;
                p.fired.push("disk-full".into());
                if n == 0 {
                    return Err(ENOSPC);
                }
            }
        }
        if n == 0 {
            return Ok(0);
        }
        if p.doom_next {
            p.doom_next = false;
            p.doomed.push((ino, cur.min(off), true));
        }
        self.m(Mut::Write { ino, off, data: Arc::new(data[..n].to_vec()) });
        Ok(n)
    }

    fn flock(&mut self, p: &mut Proc, who: usize, q: &Req) -> Option<R> {
        let ino = match p.fds.get(&q.a) {
            Some(o) => o.ino,
            None => return Some(Err(EBADF)),
        };
        let l = self.locks.entry(ino).or_default();
        l.retain(|x| !(x.0 == who && x.1 == q.a));
        if q.b & 8 != 0 {
            return Some(Ok((0, vec![])));
        }
        let excl = q.b & 2 != 0;
        if l.iter().any(|x| x.2 || excl) {
            return if q.b & 4 != 0 { Some(Err(EAGAIN)) } else { None };
        }
        l.push((who, q.a, excl));
        Some(Ok((0, vec![])))
    }

    fn open(&mut self, p: &mut Proc, q: &Req) -> R {
        let fl = q.b;
        if p.fds.len() >= MAX_OPEN {
            return Err(EMFILE);
        }
        let (r, w) = match fl & 3 {
            0 => (true, false),
            1 => (false, true),
            _ => (true, true),
        };
        if fl & O_TMPFILE == O_TMPFILE {
            let f = self.look(p, q.a, &q.p1, true)?;
            let d = f.ino.ok_or(ENOENT)?;
            if !self.fs.is_dir(d) {
                return Err(ENOTDIR);
            }
            self.can_change(d)?;
            let ino = self.new_inode(Node::File(Arc::new(vec![])), 0o100000 | (q.c as u32 & 0o755));
            return Ok((Self::new_fd(p, Open { ino, off: 0, r, w, append: false, list: None }), vec![]));
        }
        let follow = fl & O_NOFOLLOW == 0 && !(fl & O_CREAT != 0 && fl & O_EXCL != 0);
        let f = self.look(p, q.a, &q.p1, follow)?;
        let ino = match f.ino {
            Some(i) => {
                if fl & O_CREAT != 0 && fl & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                if let Node::Link(_) = self.fs.inodes[i].node {
                    return Err(ELOOP);
                }
                let dir = self.fs.is_dir(i);
                if dir && (w || fl & O_CREAT != 0) {
                    return Err(EISDIR);
                }
                if !dir && fl & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                let mode = self.fs.inodes[i].mode;
                if (r && mode & 0o400 == 0) || (w && mode & 0o200 == 0) {
                    return Err(EACCES);
                }
                if fl & O_TRUNC != 0 && w && self.fs.data(i).map(|d| !d.is_empty()).unwrap_or(false) {
                    self.m(Mut::Trunc { ino: i, len: 0 });
                }
                i
            }
            None => {
                if fl & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if f.slash {
                    return Err(EISDIR);
                }
                self.can_change(f.dir)?;
                if let Some(cap) = self.cap {
                    if self.fs.used() >= cap {
                        p.fired.push("disk-full".into());
                        return Err(ENOSPC);
                    }
                }
                let ino = self.new_inode(Node::File(Arc::new(vec![])), 0o100000 | (q.c as u32 & 0o755));
                self.m(Mut::Link { dir: f.dir, name: f.name, ino });
                ino
            }
        };
        Ok((Self::new_fd(p, Open { ino, off: 0, r, w, append: fl & O_APPEND != 0, list: None }), vec![]))
    }

    fn stat_of(&self, i: Ino, skew: i64) -> Vec<u8> {
        let nd = &self.fs.inodes[i];
        let (kind, size) = match &nd.node {
            Node::File(d) => (0o100000, d.len()),
            Node::Dir { .. } => (0o40000, 4096),
            Node::Link(t) => (0o120000, t.len()),
            Node::Free => (0, 0),
        };
        // files that were there before have any age
        let then = 1_400_000_000 + mix(i as u64, skew as u64) % 300_000_000;
        let mtime = self.mtimes.get(&i).copied().unwrap_or(then);
        pack_stat(kind | (nd.mode & 0o7777), nd.nlink, i as u64 + 2, size as u64, mtime, self.device(i))
    }

    /// /tmp and /w/mnt are file systems of their own.
    fn device(&self, i: Ino) -> u64 {
        for (k, m) in MOUNTS.iter().enumerate() {
            if let Some(d) = self.fs.resolve(ROOT, m, false).ok().and_then(|f| f.ino) {
                let mut todo = vec![d];
                while let Some(x) = todo.pop() {
                    if x == i {
                        return 78 + k as u64;
                    }
                    if let Some(e) = self.fs.entries(x) {
                        todo.extend(e.values());
                    }
                }
            }
        }
        77
    }

    fn readdir(&mut self, p: &mut Proc, q: &Req) -> R {
        let seed = p.spec.list_seed;
        let o = p.fds.get_mut(&q.a).ok_or(EBADF)?;
        let entries = self.fs.entries(o.ino).ok_or(ENOTDIR)?.clone();
        let key = |n: &[u8]| mix(seed, hash(n));
        if o.list.is_none() {
            let mut l: Vec<(Vec<u8>, Ino, u8)> = vec![(b".".to_vec(), o.ino, 4), (b"..".to_vec(), self.fs.parent(o.ino), 4)];
            for (n, i) in entries.iter() {
                l.push((n.clone(), *i, 0));
            }
            if seed != 0 {
                l.sort_by_key(|e| key(&e.0));
            }
            o.list = Some(l);
        }
        let list = o.list.as_mut().unwrap();
        loop {
            if o.off >= list.len() {
                // names made while listing may or may not show up
                if seed != 0 {
                    for (n, i) in entries.iter() {
                        if key(n) & 4 != 0 && !list.iter().any(|e| e.0 == *n) {
                            list.push((n.clone(), *i, 0));
                        }
                    }
                }
                if o.off >= list.len() {
                    return Ok((0, vec![]));
                }
            }
            let (name, ino, special) = list[o.off].clone();
            o.off += 1;
            if special == 0 && !entries.contains_key(&name) {
                continue;
            }
            let ty: u8 = if special != 0 {
                4
            } else if seed & 1 == 1 {
                0
            } else {
                match self.fs.inodes[ino].node {
                    Node::File(_) => 8,
                    Node::Dir { .. } => 4,
                    Node::Link(_) => 10,
                    Node::Free => 0,
                }
            };
            let mut out = (ino as u64 + 2).to_le_bytes().to_vec();
            out.push(ty);
            out.extend(&name);
            return Ok((1, out));
        }
    }

    fn exec(&mut self, p: &mut Proc, who: usize, q: &Req) -> R {
        let ok = |v: i64| -> R { Ok((v, vec![])) };
        match q.op {
            2 => self.open(p, q),
            3 => {
                if (0..3).contains(&q.a) {
                    p.std_closed[q.a as usize] = true;
                    return ok(0);
                }
                let o = p.fds.remove(&q.a).ok_or(EBADF)?;
                for l in self.locks.values_mut() {
                    l.retain(|x| !(x.0 == who && x.1 == q.a));
                }
                let _ = o;
                ok(0)
            }
            4 | 6 => {
                let n = q.b.max(0) as usize;
                if q.a == 0 && q.op == 4 {
                    if p.std_closed[0] {
                        return Err(EBADF);
                    }
                    let d = p.stdin(n)?;
                    return Ok((d.len() as i64, d));
                }
                let o = p.fds.get_mut(&q.a).ok_or(EBADF)?;
                if !o.r {
                    return Err(EBADF);
                }
                let d = self.fs.data(o.ino).ok_or(EISDIR)?.clone();
                let st = if q.op == 4 { o.off } else { q.c.max(0) as usize }.min(d.len());
                let en = (st + n).min(d.len());
                if q.op == 4 {
                    o.off = en;
                }
                Ok(((en - st) as i64, d[st..en].to_vec()))
            }
            5 | 7 => {
                if q.a == 1 || q.a == 2 {
                    if p.std_closed[q.a as usize] {
                        return Err(EBADF);
                    }
                    if q.a == 1 {
                        p.out.extend(&q.p1);
                    } else {
                        p.err.extend(&q.p1);
                    }
                    return ok(q.p1.len() as i64);
                }
                let o = p.fds.get(&q.a).ok_or(EBADF)?;
                if !o.w {
                    return Err(EBADF);
                }
                let ino = o.ino;
                let off = if q.op == 7 {
                    q.b.max(0) as usize
                } else if o.append {
                    self.fs.data(ino).map(|d| d.len()).unwrap_or(0)
                } else {
                    o.off
                };
                let n = self.write_at(p, ino, off, &q.p1)?;
                if q.op == 5 {
                    p.fds.get_mut(&q.a).unwrap().off = off + n;
                }
                ok(n as i64)
            }
            8 => {
                let o = p.fds.get_mut(&q.a).ok_or(EBADF)?;
                if o.list.is_some() {
                    o.list = None;
                    o.off = 0;
                    return ok(0);
                }
                let size = self.fs.data(o.ino).map(|d| d.len()).unwrap_or(0) as i64;
                let v = match q.c {
                    0 => q.b,
                    1 => o.off as i64 + q.b,
                    2 => size + q.b,
                    _ => return Err(EINVAL),
                };
                if v < 0 {
                    return Err(EINVAL);
                }
                o.off = v as usize;
                ok(v)
            }
            9 => {
                if q.b == 2 {
                    self.m(Mut::SyncAll);
                    return ok(0);
                }
                let ino = p.fds.get(&q.a).ok_or(EBADF)?.ino;
                if let Some(d) = p.doomed.iter_mut().find(|d| d.0 == ino && d.2) {
                    d.2 = false; // reported once, as Linux does
                    p.fired.push("writeback-error".into());
                    return Err(EIO);
                }
                self.m(Mut::Sync { ino });
                ok(0)
            }
            10 => {
                let o = p.fds.get(&q.a).ok_or(EBADF)?;
                if !o.w || q.b < 0 {
                    return Err(EINVAL);
                }
                let ino = o.ino;
                self.trunc(p, ino, q.b as usize)
            }
            29 => {
                let f = self.look(p, AT_FDCWD, &q.p1, true)?;
                let ino = f.ino.ok_or(ENOENT)?;
                if self.fs.is_dir(ino) {
                    return Err(EISDIR);
                }
                if self.fs.inodes[ino].mode & 0o200 == 0 {
                    return Err(EACCES);
                }
                self.trunc(p, ino, q.a.max(0) as usize)
            }
            32 => {
                let o = p.fds.get(&q.a).ok_or(EBADF)?;
                let (ino, end) = (o.ino, (q.c.max(0) as usize) + 0);
                let cur = self.fs.data(ino).ok_or(EISDIR)?.len();
                if q.b == 0 && end > cur {
                    return self.trunc(p, ino, end);
                }
                ok(0)
            }
            11 | 12 => {
                if q.p1.is_empty() {
                    if (0..3).contains(&q.a) && q.b & 0x1000 != 0 {
                        return Ok((0, pack_stat(0o20620, 1, 1, 0, 0, 5)));
                    }
                    if q.b & 0x1000 == 0 {
                        return Err(ENOENT);
                    }
                    let i = if q.a == AT_FDCWD { p.cwd } else { p.fds.get(&q.a).ok_or(EBADF)?.ino };
                    return Ok((0, self.stat_of(i, p.spec.skew)));
                }
                let f = self.look(p, q.a, &q.p1, q.b & 0x100 == 0)?;
                let i = f.ino.ok_or(ENOENT)?;
                Ok((0, self.stat_of(i, p.spec.skew)))
            }
            13 => {
                let f = self.look(p, q.a, &q.p1, false)?;
                let i = f.ino.ok_or(ENOENT)?;
                if f.name == b"." || f.name == b".." {
                    return Err(EINVAL);
                }
                self.can_change(f.dir)?;
                if q.b & 0x200 != 0 {
                    let e = self.fs.entries(i).ok_or(ENOTDIR)?;
                    if !e.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                } else if self.fs.is_dir(i) {
                    return Err(EISDIR);
                }
                self.m(Mut::Unlink { dir: f.dir, name: f.name });
                ok(0)
            }
            14 => {
                let a = self.look(p, q.a, &q.p1, false)?;
                let b = self.look(p, q.b, &q.p2, false)?;
                let i = a.ino.ok_or(ENOENT)?;
                if a.name == b"." || a.name == b".." || b.name == b"." || b.name == b".." {
                    return Err(16);
                }
                self.can_change(a.dir)?;
                self.can_change(b.dir)?;
                if self.device(a.dir) != self.device(b.dir) {
                    return Err(EXDEV);
                }
                if b.slash && !self.fs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                if q.c & 2 != 0 {
                    b.ino.ok_or(ENOENT)?;
                    self.m(Mut::Exchange { d1: a.dir, n1: a.name, d2: b.dir, n2: b.name });
                    return ok(0);
                }
                if let Some(j) = b.ino {
                    if q.c & 1 != 0 {
                        return Err(EEXIST);
                    }
                    if i == j {
                        return ok(0);
                    }
                    match (self.fs.is_dir(i), self.fs.is_dir(j)) {
                        (false, true) => return Err(EISDIR),
                        (true, false) => return Err(ENOTDIR),
                        (true, true) if !self.fs.entries(j).unwrap().is_empty() => return Err(ENOTEMPTY),
                        _ => {}
                    }
                }
                if self.fs.is_dir(i) {
                    let mut d = b.dir;
                    loop {
                        if d == i {
                            return Err(EINVAL);
                        }
                        if d == ROOT {
                            break;
                        }
                        d = self.fs.parent(d);
                    }
                }
                self.m(Mut::Rename { d1: a.dir, n1: a.name, d2: b.dir, n2: b.name });
                ok(0)
            }
            15 => {
                let b = self.look(p, q.b, &q.p2, false)?;
                let i = if let Some(fd) = q.p1.strip_prefix(b"/proc/self/fd/") {
                    let fd: i64 = String::from_utf8_lossy(fd).parse().map_err(|_| ENOENT)?;
                    p.fds.get(&fd).ok_or(ENOENT)?.ino
                } else if q.p1.is_empty() && q.c & 0x1000 != 0 {
                    p.fds.get(&q.a).ok_or(EBADF)?.ino
                } else {
                    self.look(p, q.a, &q.p1, q.c & 0x400 != 0)?.ino.ok_or(ENOENT)?
                };
                if b.ino.is_some() {
                    return Err(EEXIST);
                }
                if self.fs.is_dir(i) {
                    return Err(EPERM);
                }
                if self.device(i) != self.device(b.dir) {
                    return Err(EXDEV);
                }
                self.can_change(b.dir)?;
                self.m(Mut::Link { dir: b.dir, name: b.name, ino: i });
                ok(0)
            }
            16 => {
                let b = self.look(p, q.a, &q.p2, false)?;
                if b.ino.is_some() {
                    return Err(EEXIST);
                }
                self.can_change(b.dir)?;
                let ino = self.new_inode(Node::Link(Arc::new(q.p1.clone())), 0o120777);
                self.m(Mut::Link { dir: b.dir, name: b.name, ino });
                ok(0)
            }
            17 => {
                let f = self.look(p, q.a, &q.p1, false)?;
                match &self.fs.inodes[f.ino.ok_or(ENOENT)?].node {
                    Node::Link(t) => Ok((t.len() as i64, t.to_vec())),
                    _ => Err(EINVAL),
                }
            }
            18 => {
                let f = self.look(p, q.a, &q.p1, false)?;
                if f.ino.is_some() {
                    return Err(EEXIST);
                }
                self.can_change(f.dir)?;
                let ino = self.new_inode(Node::Dir { parent: f.dir, entries: Arc::new(BTreeMap::new()) }, 0o40000 | (q.b as u32 & 0o755));
                self.m(Mut::Link { dir: f.dir, name: f.name, ino });
                ok(0)
            }
            19 => self.readdir(p, q),
            20 => Ok((0, self.fs.canonical(p.cwd, &q.p1)?)),
            21 => Ok((0, self.fs.abspath(p.cwd))),
            22 => {
                let f = self.look(p, AT_FDCWD, &q.p1, true)?;
                let i = f.ino.ok_or(ENOENT)?;
                if !self.fs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                p.cwd = i;
                ok(0)
            }
            23 => {
                let f = self.look(p, q.a, &q.p1, true)?;
                let i = f.ino.ok_or(ENOENT)?;
                let m = (self.fs.inodes[i].mode >> 6) & 7;
                if (q.b as u32) & 7 & !m != 0 {
                    return Err(EACCES);
                }
                ok(0)
            }
            24 => {
                let f = self.look(p, q.a, &q.p1, true)?;
                let ino = f.ino.ok_or(ENOENT)?;
                self.m(Mut::Chmod { ino, mode: q.b as u32 });
                ok(0)
            }
            31 => {
                let ino = p.fds.get(&q.a).ok_or(EBADF)?.ino;
                self.m(Mut::Chmod { ino, mode: q.b as u32 });
                ok(0)
            }
            25 => {
                let (ino, off, r, w, append) = {
                    let o = p.fds.get(&q.a).ok_or(EBADF)?;
                    (o.ino, o.off, o.r, o.w, o.append)
                };
                ok(Self::new_fd(p, Open { ino, off, r, w, append, list: None }))
            }
            26 => ok(1_700_000_000_000_000_000 + p.spec.skew * 1_000_000_000 + self.clock),
            27 => {
                self.clock += q.a.max(0);
                ok(0)
            }
            28 => ok(0),
            _ => Err(38),
        }
    }

    fn trunc(&mut self, p: &mut Proc, ino: Ino, len: usize) -> R {
        let cur = self.fs.data(ino).ok_or(EISDIR)?.len();
        if len > cur {
            if let Some(cap) = self.cap {
                if self.fs.used() + (len - cur) as u64 > cap {
                    p.fired.push("disk-full".into());
                    return Err(ENOSPC);
                }
            }
        }
        if len != cur {
            self.m(Mut::Trunc { ino, len });
        }
        Ok((0, vec![]))
    }
}

fn pack_stat(mode: u32, nlink: u32, ino: u64, size: u64, mtime: u64, dev: u64) -> Vec<u8> {
    let mut v = mode.to_le_bytes().to_vec();
    v.extend(nlink.to_le_bytes());
    v.extend(ino.to_le_bytes());
    v.extend(size.to_le_bytes());
    v.extend(mtime.to_le_bytes());
    v.extend(dev.to_le_bytes());
    v
}
