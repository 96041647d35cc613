//! The simulated disk: inodes, directories, hard and symbolic links, and a journal of primitive changes from
//! which the disk at every instant (killed process, lost power) can be rebuilt.

use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = usize;
pub const ROOT: Ino = 0;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const ERANGE: i32 = 34;
pub const ENAMETOOLONG: i32 = 36;
pub const EXDEV: i32 = 18;
pub const EBUSY: i32 = 16;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const EDQUOT: i32 = 122;

#[derive(Clone, Debug)]
pub enum Node {
    Free,
    File(Arc<Vec<u8>>),
    Dir { parent: Ino, entries: Arc<BTreeMap<Vec<u8>, Ino>> },
    Link(Arc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub nlink: u32,
}

#[derive(Clone, Debug)]
pub enum Mut {
    New { ino: Ino, node: Node, mode: u32 },
    Write { ino: Ino, off: usize, data: Arc<Vec<u8>> },
    Trunc { ino: Ino, len: usize },
    Link { dir: Ino, name: Vec<u8>, ino: Ino },
    Unlink { dir: Ino, name: Vec<u8> },
    Rename { d1: Ino, n1: Vec<u8>, d2: Ino, n2: Vec<u8> },
    Exchange { d1: Ino, n1: Vec<u8>, d2: Ino, n2: Vec<u8> },
    Chmod { ino: Ino, mode: u32 },
    /// not a change: everything written to this inode so far, and all names, are durable
    Sync { ino: Ino },
    SyncAll,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    File(Arc<Vec<u8>>),
    Dir,
    Link(Vec<u8>),
}

pub type Tree = BTreeMap<Vec<u8>, Ent>;

#[derive(Clone)]
pub struct Fs {
    pub inodes: Vec<Inode>,
}

pub struct Found {
    pub dir: Ino,
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
    pub slash: bool,
}

impl Fs {
    pub fn new() -> Fs {
        Fs {
            inodes: vec![Inode {
                node: Node::Dir { parent: ROOT, entries: Arc::new(BTreeMap::new()) },
                mode: 0o40755,
                nlink: 2,
            }],
        }
    }

    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.inodes[i].node, Node::Dir { .. })
    }
    pub fn entries(&self, i: Ino) -> Option<&Arc<BTreeMap<Vec<u8>, Ino>>> {
        match &self.inodes[i].node {
            Node::Dir { entries, .. } => Some(entries),
            _ => None,
        }
    }
    pub fn parent(&self, i: Ino) -> Ino {
        match &self.inodes[i].node {
            Node::Dir { parent, .. } => *parent,
            _ => ROOT,
        }
    }
    pub fn data(&self, i: Ino) -> Option<&Arc<Vec<u8>>> {
        match &self.inodes[i].node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }
    fn entries_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes[i].node {
            Node::Dir { entries, .. } => Arc::make_mut(entries),
            _ => panic!("not a directory"),
        }
    }
    fn entry(&self, d: Ino, n: &[u8]) -> Option<Ino> {
        self.entries(d).and_then(|e| e.get(n)).copied()
    }

    pub fn apply(&mut self, m: &Mut) {
        match m {
            Mut::New { ino, node, mode } => {
                while self.inodes.len() <= *ino {
                    self.inodes.push(Inode { node: Node::Free, mode: 0, nlink: 0 });
                }
                self.inodes[*ino] = Inode { node: node.clone(), mode: *mode, nlink: 0 };
            }
            Mut::Write { ino, off, data } => {
                if let Node::File(d) = &mut self.inodes[*ino].node {
                    let d = Arc::make_mut(d);
                    if d.len() < off + data.len() {
                        d.resize(off + data.len(), 0);
                    }
                    d[*off..off + data.len()].copy_from_slice(data);
                }
            }
            Mut::Trunc { ino, len } => {
                if let Node::File(d) = &mut self.inodes[*ino].node {
                    Arc::make_mut(d).resize(*len, 0);
                }
            }
            Mut::Link { dir, name, ino } => {
                self.entries_mut(*dir).insert(name.clone(), *ino);
                self.inodes[*ino].nlink += 1;
                if let Node::Dir { parent, .. } = &mut self.inodes[*ino].node {
                    *parent = *dir;
                }
            }
            Mut::Unlink { dir, name } => {
                if let Some(i) = self.entries_mut(*dir).remove(name) {
                    self.inodes[i].nlink = self.inodes[i].nlink.saturating_sub(1);
                }
            }
            Mut::Rename { d1, n1, d2, n2 } => {
                if let Some(i) = self.entries_mut(*d1).remove(n1) {
                    if let Some(old) = self.entries_mut(*d2).insert(n2.clone(), i) {
                        if old != i {
                            self.inodes[old].nlink = self.inodes[old].nlink.saturating_sub(1);
                        }
                    }
                    if let Node::Dir { parent, .. } = &mut self.inodes[i].node {
                        *parent = *d2;
                    }
                }
            }
            Mut::Exchange { d1, n1, d2, n2 } => {
                if let (Some(a), Some(b)) = (self.entry(*d1, n1), self.entry(*d2, n2)) {
                    self.entries_mut(*d1).insert(n1.clone(), b);
                    self.entries_mut(*d2).insert(n2.clone(), a);
                }
            }
            Mut::Chmod { ino, mode } => {
                let i = &mut self.inodes[*ino];
                i.mode = (i.mode & !0o7777) | (mode & 0o7777);
            }
            Mut::Sync { .. } | Mut::SyncAll => {}
        }
    }

    /// Path lookup. `follow`: follow a symbolic link in the last component.
    pub fn resolve(&self, cwd: Ino, path: &[u8], follow: bool) -> Result<Found, i32> {
        self.walk(cwd, path, follow, 0)
    }

    fn walk(&self, cwd: Ino, path: &[u8], follow: bool, depth: u32) -> Result<Found, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        if depth > 40 {
            return Err(ELOOP);
        }
        let mut dir = if path[0] == b'/' { ROOT } else { cwd };
        let slash = path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok(Found { dir: ROOT, name: b".".to_vec(), ino: Some(ROOT), slash });
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if !self.is_dir(dir) {
                return Err(ENOTDIR);
            }
            if self.inodes[dir].mode & 0o100 == 0 {
                return Err(EACCES);
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let next = if *c == b"." {
                Some(dir)
            } else if *c == b".." {
                Some(self.parent(dir))
            } else {
                self.entry(dir, c)
            };
            if last && (*c == b"." || *c == b"..") {
                return Ok(Found { dir, name: c.to_vec(), ino: next, slash });
            }
            match next {
                None if last => return Ok(Found { dir, name: c.to_vec(), ino: None, slash }),
                None => return Err(ENOENT),
                Some(n) => {
                    if let Node::Link(t) = &self.inodes[n].node {
                        if !last || follow || slash {
                            let f = self.walk(dir, t, true, depth + 1)?;
                            match (last, f.ino) {
                                (true, _) => return Ok(Found { slash: slash || f.slash, ..f }),
                                (false, Some(n)) => {
                                    dir = n;
                                    continue;
                                }
                                (false, None) => return Err(ENOENT),
                            }
                        }
                    }
                    if last {
                        if slash && !self.is_dir(n) {
                            return Err(ENOTDIR);
                        }
                        return Ok(Found { dir, name: c.to_vec(), ino: Some(n), slash });
                    }
                    dir = n;
                }
            }
        }
        unreachable!()
    }

    pub fn abspath(&self, mut i: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut guard = 0;
        while i != ROOT && guard < 100 {
            let p = self.parent(i);
            if let Some(e) = self.entries(p) {
                if let Some((n, _)) = e.iter().find(|(_, v)| **v == i) {
                    parts.push(n.clone());
                }
            }
            i = p;
            guard += 1;
        }
        if parts.is_empty() {
            return b"/".to_vec();
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend(p);
        }
        out
    }

    /// The canonical path of an existing file (like realpath).
    pub fn canonical(&self, cwd: Ino, path: &[u8]) -> Result<Vec<u8>, i32> {
        let f = self.resolve(cwd, path, true)?;
        let ino = f.ino.ok_or(ENOENT)?;
        if self.is_dir(ino) {
            return Ok(self.abspath(ino));
        }
        let mut p = self.abspath(f.dir);
        if p != b"/" {
            p.push(b'/');
        }
        p.extend(&f.name);
        Ok(p)
    }

    /// The bytes a reader of this path gets (links followed); None if there is no file.
    pub fn read(&self, path: &str) -> Option<Arc<Vec<u8>>> {
        self.read_b(path.as_bytes())
    }
    pub fn read_b(&self, path: &[u8]) -> Option<Arc<Vec<u8>>> {
        let f = self.walk_any(path)?;
        self.data(f).cloned()
    }
    fn walk_any(&self, path: &[u8]) -> Option<Ino> {
        let cwd = self.resolve(ROOT, b"/w", true).ok().and_then(|f| f.ino).unwrap_or(ROOT);
        self.resolve(cwd, path, true).ok()?.ino
    }
    /// The permissions of all regular files.
    pub fn modes(&self) -> BTreeMap<Vec<u8>, u32> {
        let mut out = BTreeMap::new();
        for (p, e) in self.tree() {
            if let (Ent::File(_), Ok(f)) = (e, self.resolve(ROOT, &p, false)) {
                if let Some(i) = f.ino {
                    out.insert(p, self.inodes[i].mode & 0o7777);
                }
            }
        }
        out
    }
    pub fn exists(&self, path: &str) -> bool {
        self.walk_any(path.as_bytes()).is_some()
    }

    /// Everything on the disk by path.
    pub fn tree(&self) -> Tree {
        let mut out = Tree::new();
        self.tree_into(ROOT, Vec::new(), &mut out, 0);
        out
    }
    fn tree_into(&self, d: Ino, pre: Vec<u8>, out: &mut Tree, depth: usize) {
        if depth > 20 {
            return;
        }
        if let Some(e) = self.entries(d) {
            for (n, i) in e.iter() {
                let mut p = pre.clone();
                p.push(b'/');
                p.extend(n);
                match &self.inodes[*i].node {
                    Node::File(data) => {
                        out.insert(p, Ent::File(data.clone()));
                    }
                    Node::Link(t) => {
                        out.insert(p, Ent::Link(t.to_vec()));
                    }
                    Node::Dir { .. } => {
                        out.insert(p.clone(), Ent::Dir);
                        self.tree_into(*i, p, out, depth + 1);
                    }
                    Node::Free => {}
                }
            }
        }
    }

    pub fn used(&self) -> u64 {
        self.inodes
            .iter()
            .map(|i| match &i.node {
                Node::File(d) if i.nlink > 0 => d.len() as u64,
                _ => 0,
            })
            .sum()
    }
}

/// Where another file system is mounted, if the directory exists.
pub const MOUNTS: [&[u8]; 2] = [b"/tmp", b"/w/mnt"];
pub const DEVICES: usize = 3;

impl Fs {
    fn mark(&self, d: Ino, dev: usize, of: &mut BTreeMap<Ino, usize>) {
        of.insert(d, dev);
        if let Some(e) = self.entries(d) {
            for i in e.values() {
                self.mark(*i, dev, of);
            }
        }
    }
}

/// The file system each change belongs to: 0, or one more than the index of the mount.
pub fn devices(init: &Fs, done: &[Mut]) -> Vec<usize> {
    let mut of: BTreeMap<Ino, usize> = BTreeMap::new();
    for (k, m) in MOUNTS.iter().enumerate() {
        if let Some(d) = init.resolve(ROOT, m, false).ok().and_then(|f| f.ino) {
            init.mark(d, k + 1, &mut of);
        }
    }
    // a new file belongs to the directory it is put in
    for m in done {
        if let Mut::Link { dir, ino, .. } = m {
            let d = of.get(dir).copied().unwrap_or(0);
            of.entry(*ino).or_insert(d);
        }
    }
    let at = |i: &Ino| of.get(i).copied().unwrap_or(0);
    done.iter()
        .map(|m| match m {
            Mut::New { ino, .. } | Mut::Write { ino, .. } | Mut::Trunc { ino, .. } | Mut::Chmod { ino, .. } | Mut::Sync { ino } => at(ino),
            Mut::Link { dir, .. } | Mut::Unlink { dir, .. } => at(dir),
            Mut::Rename { d2, .. } | Mut::Exchange { d2, .. } => at(d2),
            Mut::SyncAll => 0,
        })
        .collect()
}

/// Per file system, the index one past the last change that is certainly durable (a sync commits all
/// earlier names on its file system).
pub fn committed(done: &[Mut], dev: &[usize]) -> [usize; DEVICES] {
    let mut c = [0; DEVICES];
    for (k, m) in done.iter().enumerate() {
        match m {
            Mut::Sync { .. } => c[dev[k]] = k + 1,
            Mut::SyncAll => c = [k + 1; DEVICES],
            _ => {}
        }
    }
    c
}

/// The disk found after a power loss when `done` was issued and the names of the first `meta` changes reached
/// the disk: within a file system names change in order (as on ext4, btrfs and other journaling file systems),
/// separate file systems lose theirs independently. File data written after the last sync of that file may be
/// lost (0), kept (1), cut to its first half (2) or read back as zeros (3).
pub fn power_loss(init: &Fs, done: &[Mut], dev: &[usize], meta: [usize; DEVICES], data: u8) -> Fs {
    let mut fs = init.clone();
    let mut last_sync: BTreeMap<Ino, usize> = BTreeMap::new();
    let mut sync_all = 0;
    for (k, m) in done.iter().enumerate() {
        match m {
            Mut::Sync { ino } => {
                last_sync.insert(*ino, k);
            }
            Mut::SyncAll => sync_all = k,
            _ => {}
        }
    }
    for (k, m) in done.iter().enumerate() {
        match m {
            Mut::Write { ino, off, data: d } => {
                if !matches!(fs.inodes.get(*ino).map(|i| &i.node), Some(Node::File(_))) {
                    continue; // its creation was lost
                }
                let durable = k < *last_sync.get(ino).unwrap_or(&0) || k < sync_all;
                if durable || data == 1 {
                    fs.apply(m);
                } else if data == 2 {
                    fs.apply(&Mut::Write { ino: *ino, off: *off, data: Arc::new(d[..d.len() / 2].to_vec()) });
                } else if data == 3 {
                    fs.apply(&Mut::Write { ino: *ino, off: *off, data: Arc::new(vec![0; d.len()]) });
                }
            }
            Mut::Trunc { ino, .. } => {
                if matches!(fs.inodes.get(*ino).map(|i| &i.node), Some(Node::File(_))) {
                    // a size change is metadata: ordered with the names
                    if k < meta[dev[k]] || k < *last_sync.get(ino).unwrap_or(&0) {
                        fs.apply(m);
                    }
                }
            }
            _ if k < meta[dev[k]] => fs.apply(m),
            _ => {}
        }
    }
    fs
}

/// The disk after a power loss at the end of `done` when at most `lost` last changes of names are lost.
pub fn power_off(init: &Fs, done: &[Mut], lost: usize, data: u8) -> Fs {
    let dev = devices(init, done);
    let mut meta = committed(done, &dev);
    for (d, m) in meta.iter_mut().enumerate() {
        *m = (*m).max(done.len().saturating_sub(lost * (d + 1) % 8));
    }
    power_loss(init, done, &dev, meta, data)
}
