//! In-memory file system with POSIX semantics (as far as std::fs can observe them).
use std::collections::BTreeMap;

pub type Ino = usize;
pub const ROOT: Ino = 1;

pub enum Kind {
    File(Vec<u8>),
    Dir { entries: BTreeMap<Vec<u8>, Ino>, parent: Ino },
}

pub struct Inode {
    pub kind: Kind,
    pub nlink: u32,
    pub mtime: u64,
    pub dev: u64,
    pub lock: Option<(bool, Vec<u64>)>, // exclusive?, owners (open file ids)
}

pub struct OpenFile {
    pub ino: Ino,
    pub pos: u64,
    pub append: bool,
    pub read: bool,
    pub write: bool,
    pub node: usize,
    pub id: u64,
}

pub struct DirStream {
    pub ino: Ino,
    pub node: usize,
    pub pending: Vec<(Vec<u8>, Ino)>,
    pub listed: Vec<Vec<u8>>,
    pub ended: bool,
    pub ent: Box<libc::dirent64>,
    pub fd: i32,
}

#[derive(Default)]
pub struct Vfs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next_ino: Ino,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub next_open: u64,
    /// Mutations outside the acting node's own folder: (node, op, path)
    pub escapes: Vec<(usize, &'static str, String)>,
    /// Per node: allowed prefixes.
    pub roots: BTreeMap<usize, Vec<String>>,
    /// descriptors whose next write or sync fails
    pub poisoned: std::collections::BTreeSet<i32>,
}

pub type R<T> = Result<T, i32>;

pub const FD_BASE: i32 = 1 << 20;

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs { next_ino: ROOT + 1, next_fd: FD_BASE, ..Default::default() };
        v.inodes.insert(ROOT, Inode {
            kind: Kind::Dir { entries: BTreeMap::new(), parent: ROOT },
            nlink: 2, mtime: 0, dev: 1, lock: None,
        });
        for d in ["srv", "tmp", "etc", "root"] {
            let ino = v.alloc(Kind::Dir { entries: BTreeMap::new(), parent: ROOT }, if d == "tmp" { 2 } else { 1 });
            v.link_entry(ROOT, d.as_bytes(), ino);
        }
        v
    }

    pub fn alloc(&mut self, kind: Kind, dev: u64) -> Ino {
        let i = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(i, Inode { kind, nlink: 1, mtime: 0, dev, lock: None });
        i
    }

    fn link_entry(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        if let Kind::Dir { entries, .. } = &mut self.inodes.get_mut(&dir).unwrap().kind {
            entries.insert(name.to_vec(), ino);
        }
    }

    pub fn entries(&self, dir: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match self.inodes.get(&dir).map(|i| &i.kind) {
            Some(Kind::Dir { entries, .. }) => Ok(entries),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }

    fn entries_mut(&mut self, dir: Ino) -> R<&mut BTreeMap<Vec<u8>, Ino>> {
        match self.inodes.get_mut(&dir).map(|i| &mut i.kind) {
            Some(Kind::Dir { entries, .. }) => Ok(entries),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }

    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.inodes.get(&i).map(|i| &i.kind), Some(Kind::Dir { .. }))
    }

    /// Split into (directory inode, last component, trailing slash); last component None = the start itself.
    pub fn lookup_parent(&self, start: Ino, path: &[u8]) -> R<(Ino, Option<Vec<u8>>, bool)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { start };
        let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        let slash = path.last() == Some(&b'/');
        if comps.is_empty() {
            return Ok((cur, None, slash));
        }
        for (i, c) in comps.iter().enumerate() {
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let last = i + 1 == comps.len();
            if last && *c != b"." && *c != b".." {
                self.entries(cur)?;
                return Ok((cur, Some(c.to_vec()), slash));
            }
            cur = self.step(cur, c)?;
        }
        Ok((cur, None, slash))
    }

    fn step(&self, cur: Ino, c: &[u8]) -> R<Ino> {
        let Some(Inode { kind: Kind::Dir { entries, parent }, .. }) = self.inodes.get(&cur) else {
            return Err(libc::ENOTDIR);
        };
        match c {
            b"." => Ok(cur),
            b".." => Ok(*parent),
            _ => entries.get(c).copied().ok_or(libc::ENOENT),
        }
    }

    pub fn resolve(&self, start: Ino, path: &[u8]) -> R<Ino> {
        let (d, name, slash) = self.lookup_parent(start, path)?;
        let ino = match name {
            None => d,
            Some(n) => *self.entries(d)?.get(&n).ok_or(libc::ENOENT)?,
        };
        if slash && !self.is_dir(ino) {
            return Err(libc::ENOTDIR);
        }
        Ok(ino)
    }

    pub fn path_of(&self, dir: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut cur = dir;
        while cur != ROOT {
            let Some(Inode { kind: Kind::Dir { parent, .. }, .. }) = self.inodes.get(&cur) else { break };
            let p = *parent;
            let Ok(e) = self.entries(p) else { break };
            match e.iter().find(|(_, i)| **i == cur) {
                Some((n, _)) => parts.push(n.clone()),
                None => {
                    parts.push(b"(deleted)".to_vec());
                    break;
                }
            }
            cur = p;
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    fn journal(&mut self, node: usize, op: &'static str, dir: Ino, name: &[u8]) {
        let mut p = self.path_of(dir);
        if p != b"/" {
            p.push(b'/');
        }
        p.extend_from_slice(name);
        let p = String::from_utf8_lossy(&p).into_owned();
        let ok = match self.roots.get(&node) {
            None => node == 0,
            Some(rs) => rs.iter().any(|r| p == *r || p.starts_with(&format!("{r}/"))),
        };
        if !ok {
            self.escapes.push((node, op, p));
        }
    }

    pub fn mkdir(&mut self, node: usize, start: Ino, path: &[u8], now: u64) -> R<()> {
        let (d, name, _) = self.lookup_parent(start, path)?;
        let Some(name) = name else { return Err(libc::EEXIST) };
        if self.entries(d)?.contains_key(&name) {
            return Err(libc::EEXIST);
        }
        self.check_alive(d)?;
        self.journal(node, "mkdir", d, &name);
        let dev = self.inodes[&d].dev;
        let ino = self.alloc(Kind::Dir { entries: BTreeMap::new(), parent: d }, dev);
        self.inodes.get_mut(&ino).unwrap().mtime = now;
        self.link_entry(d, &name, ino);
        Ok(())
    }

    fn check_alive(&self, d: Ino) -> R<()> {
        // a removed directory accepts no new entries
        if d != ROOT && self.inodes.get(&d).map(|i| i.nlink) == Some(0) {
            return Err(libc::ENOENT);
        }
        Ok(())
    }

    pub fn open(&mut self, node: usize, start: Ino, path: &[u8], flags: i32, now: u64) -> R<i32> {
        let acc = flags & libc::O_ACCMODE;
        let wr = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        if flags & libc::O_TMPFILE == libc::O_TMPFILE {
            return Err(libc::EOPNOTSUPP);
        }
        let (d, name, slash) = self.lookup_parent(start, path)?;
        let existing = match &name {
            None => Some(d),
            Some(n) => self.entries(d)?.get(n).copied(),
        };
        let ino = match existing {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if self.is_dir(i) && (wr || flags & libc::O_CREAT != 0) {
                    return Err(libc::EISDIR);
                }
                if !self.is_dir(i) && (slash || flags & libc::O_DIRECTORY != 0) {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    let n = name.clone().unwrap_or_default();
                    self.journal(node, "truncate", d, &n);
                    let ino = self.inodes.get_mut(&i).unwrap();
                    ino.mtime = now;
                    if let Kind::File(data) = &mut ino.kind {
                        data.clear();
                    }
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if slash {
                    return Err(libc::EISDIR);
                }
                self.check_alive(d)?;
                let n = name.clone().unwrap();
                self.journal(node, "create", d, &n);
                let dev = self.inodes[&d].dev;
                let i = self.alloc(Kind::File(Vec::new()), dev);
                self.inodes.get_mut(&i).unwrap().mtime = now;
                self.link_entry(d, &n, i);
                i
            }
        };
        if wr {
            let n = name.unwrap_or_default();
            self.journal(node, "open-for-write", d, &n);
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.next_open += 1;
        let id = self.next_open;
        self.fds.insert(fd, OpenFile {
            ino, pos: 0,
            append: flags & libc::O_APPEND != 0,
            read: acc == libc::O_RDONLY || acc == libc::O_RDWR,
            write: wr, node, id,
        });
        Ok(fd)
    }

    pub fn close(&mut self, fd: i32) -> R<()> {
        let of = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        self.poisoned.remove(&fd);
        if !self.fds.values().any(|o| o.id == of.id) {
            self.unlock(of.ino, of.id);
        }
        self.gc(of.ino);
        Ok(())
    }

    pub fn unlock(&mut self, ino: Ino, id: u64) {
        if let Some(i) = self.inodes.get_mut(&ino) {
            if let Some((_, owners)) = &mut i.lock {
                owners.retain(|o| *o != id);
                if owners.is_empty() {
                    i.lock = None;
                }
            }
        }
    }

    fn gc(&mut self, ino: Ino) {
        if self.inodes.get(&ino).map(|i| i.nlink) == Some(0) && !self.fds.values().any(|f| f.ino == ino) {
            self.inodes.remove(&ino);
        }
    }

    pub fn close_node(&mut self, node: usize) {
        let fds: Vec<i32> = self.fds.iter().filter(|(_, f)| f.node == node).map(|(k, _)| *k).collect();
        for fd in fds {
            let _ = self.close(fd);
        }
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if !f.read {
            return Err(libc::EBADF);
        }
        let pos = at.unwrap_or(f.pos);
        let n = match &self.inodes[&f.ino].kind {
            Kind::Dir { .. } => return Err(libc::EISDIR),
            Kind::File(data) => {
                let start = (pos as usize).min(data.len());
                let n = buf.len().min(data.len() - start);
                buf[..n].copy_from_slice(&data[start..start + n]);
                n
            }
        };
        if at.is_none() {
            f.pos += n as u64;
        }
        Ok(n)
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>, now: u64) -> R<usize> {
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if !f.write {
            return Err(libc::EBADF);
        }
        let inode = self.inodes.get_mut(&f.ino).unwrap();
        inode.mtime = now;
        let Kind::File(data) = &mut inode.kind else { return Err(libc::EISDIR) };
        let pos = if f.append { data.len() as u64 } else { at.unwrap_or(f.pos) } as usize;
        if data.len() < pos + buf.len() && !buf.is_empty() {
            data.resize(pos + buf.len(), 0);
        }
        data[pos..pos + buf.len()].copy_from_slice(buf);
        if at.is_none() {
            f.pos = (pos + buf.len()) as u64;
        }
        Ok(buf.len())
    }

    pub fn truncate(&mut self, fd: i32, len: u64) -> R<()> {
        let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
        if !f.write {
            return Err(libc::EINVAL);
        }
        let Kind::File(data) = &mut self.inodes.get_mut(&f.ino).unwrap().kind else { return Err(libc::EISDIR) };
        data.resize(len as usize, 0);
        Ok(())
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let len = {
            let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
            match &self.inodes[&f.ino].kind {
                Kind::File(d) => d.len() as i64,
                _ => 0,
            }
        };
        let f = self.fds.get_mut(&fd).unwrap();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => len,
            _ => return Err(libc::EINVAL),
        };
        let p = base + off;
        if p < 0 {
            return Err(libc::EINVAL);
        }
        f.pos = p as u64;
        Ok(p)
    }

    pub fn unlink(&mut self, node: usize, start: Ino, path: &[u8], dir: bool) -> R<()> {
        let (d, name, slash) = self.lookup_parent(start, path)?;
        let Some(name) = name else {
            return Err(if dir { libc::EBUSY } else { libc::EISDIR });
        };
        let ino = *self.entries(d)?.get(&name).ok_or(libc::ENOENT)?;
        if dir {
            if !self.is_dir(ino) {
                return Err(libc::ENOTDIR);
            }
            if !self.entries(ino)?.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        } else if self.is_dir(ino) {
            return Err(libc::EISDIR);
        } else if slash {
            return Err(libc::ENOTDIR);
        }
        self.journal(node, if dir { "rmdir" } else { "unlink" }, d, &name);
        self.entries_mut(d)?.remove(&name);
        self.drop_link(ino, dir);
        Ok(())
    }

    fn drop_link(&mut self, ino: Ino, dir: bool) {
        if let Some(i) = self.inodes.get_mut(&ino) {
            i.nlink = if dir { 0 } else { i.nlink.saturating_sub(1) };
        }
        self.gc(ino);
    }

    pub fn rename(&mut self, node: usize, s1: Ino, from: &[u8], s2: Ino, to: &[u8], noreplace: bool) -> R<()> {
        let (d1, n1, _) = self.lookup_parent(s1, from)?;
        let (d2, n2, _) = self.lookup_parent(s2, to)?;
        let (Some(n1), Some(n2)) = (n1, n2) else { return Err(libc::EBUSY) };
        let ino = *self.entries(d1)?.get(&n1).ok_or(libc::ENOENT)?;
        if self.inodes[&d1].dev != self.inodes[&d2].dev {
            return Err(libc::EXDEV);
        }
        self.check_alive(d2)?;
        let target = self.entries(d2)?.get(&n2).copied();
        if let Some(t) = target {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if t == ino {
                return Ok(());
            }
            match (self.is_dir(ino), self.is_dir(t)) {
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                (true, true) if !self.entries(t)?.is_empty() => return Err(libc::ENOTEMPTY),
                _ => {}
            }
        }
        if self.is_dir(ino) {
            // not into its own subtree
            let mut c = d2;
            loop {
                if c == ino {
                    return Err(libc::EINVAL);
                }
                if c == ROOT {
                    break;
                }
                match &self.inodes[&c].kind {
                    Kind::Dir { parent, .. } => c = *parent,
                    _ => break,
                }
            }
        }
        self.journal(node, "rename-from", d1, &n1);
        self.journal(node, "rename-to", d2, &n2);
        self.entries_mut(d1)?.remove(&n1);
        self.entries_mut(d2)?.insert(n2, ino);
        if let Some(Inode { kind: Kind::Dir { parent, .. }, .. }) = self.inodes.get_mut(&ino) {
            *parent = d2;
        }
        if let Some(t) = target {
            let dir = self.is_dir(t);
            self.drop_link(t, dir);
        }
        Ok(())
    }

    pub fn link(&mut self, node: usize, s1: Ino, from: &[u8], s2: Ino, to: &[u8]) -> R<()> {
        let ino = self.resolve(s1, from)?;
        if self.is_dir(ino) {
            return Err(libc::EPERM);
        }
        let (d2, n2, _) = self.lookup_parent(s2, to)?;
        let Some(n2) = n2 else { return Err(libc::EEXIST) };
        if self.entries(d2)?.contains_key(&n2) {
            return Err(libc::EEXIST);
        }
        if self.inodes[&ino].dev != self.inodes[&d2].dev {
            return Err(libc::EXDEV);
        }
        self.journal(node, "link", d2, &n2);
        self.link_entry(d2, &n2, ino);
        self.inodes.get_mut(&ino).unwrap().nlink += 1;
        Ok(())
    }

    // ---- harness-side helpers (no journal, no faults) ----

    pub fn h_mkdirs(&mut self, path: &str) {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur = match self.entries(cur).unwrap().get(c.as_bytes()).copied() {
                Some(i) => i,
                None => {
                    let dev = self.inodes[&cur].dev;
                    let i = self.alloc(Kind::Dir { entries: BTreeMap::new(), parent: cur }, dev);
                    self.link_entry(cur, c.as_bytes(), i);
                    i
                }
            };
        }
    }

    pub fn h_write(&mut self, path: &str, data: &[u8]) {
        let (dir, name) = path.rsplit_once('/').unwrap();
        self.h_mkdirs(dir);
        let d = self.resolve(ROOT, format!("{dir}/").as_bytes()).unwrap();
        let dev = self.inodes[&d].dev;
        let i = self.alloc(Kind::File(data.to_vec()), dev);
        self.link_entry(d, name.as_bytes(), i);
    }

    pub fn h_read(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.resolve(ROOT, path.as_bytes()).ok()?;
        match &self.inodes[&i].kind {
            Kind::File(d) => Some(d.clone()),
            _ => None,
        }
    }

    /// All files (path, content) below a directory.
    pub fn h_tree(&self, path: &str) -> Vec<(String, Vec<u8>)> {
        let mut out = Vec::new();
        if let Ok(i) = self.resolve(ROOT, path.as_bytes()) {
            self.walk(i, path.to_string(), &mut out);
        }
        out
    }

    fn walk(&self, ino: Ino, path: String, out: &mut Vec<(String, Vec<u8>)>) {
        match &self.inodes[&ino].kind {
            Kind::File(d) => out.push((path, d.clone())),
            Kind::Dir { entries, .. } => {
                for (n, i) in entries {
                    self.walk(*i, format!("{path}/{}", String::from_utf8_lossy(n)), out);
                }
            }
        }
    }
}
