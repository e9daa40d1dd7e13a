//! In-memory file system: inodes, directories, symlinks, open file descriptions.
//! Pure data structure; faults, yields and crashes are decided in `sim.rs` / `interpose.rs`.

use libc::c_int;
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub nlink: u32,
    pub mtime: u64,
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: Ino,
    pub pos: u64,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
    pub owner: usize,
    pub flags: c_int,
    /// file (open file description) id, for locks
    pub ofd: usize,
}

pub struct DirStream {
    pub names: Vec<(Vec<u8>, Ino)>,
    pub pos: usize,
    pub owner: usize,
    pub fd: c_int,
}

#[derive(Default)]
pub struct SimFs {
    pub inodes: Vec<Inode>,
    pub fds: BTreeMap<c_int, OpenFile>,
    pub next_fd: c_int,
    pub next_ofd: usize,
    pub locks: BTreeMap<Ino, Vec<(usize, bool)>>,
    pub capacity: Option<u64>,
    pub clock: u64,
    pub cwd: Vec<u8>,
}

pub const FD_BASE: c_int = 1 << 20;
pub const ROOT: Ino = 0;

pub enum Lookup {
    Found(Ino),
    /// parent directory inode and the final component, which does not exist
    Missing(Ino, Vec<u8>),
}

impl SimFs {
    pub fn new() -> SimFs {
        let mut fs = SimFs {
            next_fd: FD_BASE,
            cwd: b"/work".to_vec(),
            ..SimFs::default()
        };
        fs.inodes.push(Inode {
            node: Node::Dir(BTreeMap::new()),
            mode: 0o755,
            nlink: 1,
            mtime: 0,
        });
        fs.mkdirs(b"/work");
        fs.mkdirs(b"/home");
        fs.mkdirs(b"/tmp");
        fs
    }

    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }

    pub fn new_inode(&mut self, node: Node, mode: u32) -> Ino {
        let t = self.tick();
        self.inodes.push(Inode {
            node,
            mode,
            nlink: 1,
            mtime: t,
        });
        self.inodes.len() - 1
    }

    fn comps(&self, path: &[u8]) -> Vec<Vec<u8>> {
        let mut full = Vec::new();
        if path.first() != Some(&b'/') {
            full.extend_from_slice(&self.cwd);
            full.push(b'/');
        }
        full.extend_from_slice(path);
        full.split(|c| *c == b'/')
            .filter(|s| !s.is_empty() && *s != b".")
            .map(|s| s.to_vec())
            .collect()
    }

    /// Resolve a path.  `follow` applies to the final component.
    pub fn lookup(&self, path: &[u8], follow: bool) -> Result<Lookup, c_int> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let trailing = path.last() == Some(&b'/');
        let mut comps = self.comps(path);
        comps.reverse();
        let mut stack: Vec<Ino> = vec![ROOT];
        let mut hops = 0;
        while let Some(c) = comps.pop() {
            let cur = *stack.last().unwrap();
            let dir = match &self.inodes[cur].node {
                Node::Dir(d) => d,
                _ => return Err(libc::ENOTDIR),
            };
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let last = comps.is_empty();
            match dir.get(&c) {
                None => {
                    return if last {
                        Ok(Lookup::Missing(cur, c))
                    } else {
                        Err(libc::ENOENT)
                    }
                }
                Some(&ino) => match &self.inodes[ino].node {
                    Node::Link(t) if !last || follow || trailing => {
                        hops += 1;
                        if hops > 40 {
                            return Err(libc::ELOOP);
                        }
                        if t.first() == Some(&b'/') {
                            stack.truncate(1);
                        }
                        let parts: Vec<Vec<u8>> = t
                            .split(|c| *c == b'/')
                            .filter(|s| !s.is_empty() && *s != b".")
                            .map(|s| s.to_vec())
                            .collect();
                        for p in parts.into_iter().rev() {
                            comps.push(p);
                        }
                    }
                    _ => stack.push(ino),
                },
            }
        }
        let ino = *stack.last().unwrap();
        if trailing && !matches!(self.inodes[ino].node, Node::Dir(_)) {
            return Err(libc::ENOTDIR);
        }
        Ok(Lookup::Found(ino))
    }

    pub fn find(&self, path: &[u8], follow: bool) -> Result<Ino, c_int> {
        match self.lookup(path, follow)? {
            Lookup::Found(i) => Ok(i),
            Lookup::Missing(..) => Err(libc::ENOENT),
        }
    }

    pub fn dir_mut(&mut self, ino: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes[ino].node {
            Node::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }

    pub fn mkdirs(&mut self, path: &[u8]) -> Ino {
        let comps = self.comps(path);
        let mut cur = ROOT;
        for c in comps {
            let next = match &self.inodes[cur].node {
                Node::Dir(d) => d.get(&c).copied(),
                _ => panic!("mkdirs through file"),
            };
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.new_inode(Node::Dir(BTreeMap::new()), 0o755);
                    self.dir_mut(cur).insert(c, i);
                    i
                }
            };
        }
        cur
    }

    /// Harness side: set a file's content (no faults, no yields).
    pub fn put(&mut self, path: &[u8], data: &[u8]) {
        match self.lookup(path, true) {
            Ok(Lookup::Found(i)) => self.inodes[i].node = Node::File(data.to_vec()),
            Ok(Lookup::Missing(d, name)) => {
                let i = self.new_inode(Node::File(data.to_vec()), 0o600);
                self.dir_mut(d).insert(name, i);
            }
            Err(e) => panic!("put: {}", e),
        }
    }
    pub fn put_link(&mut self, path: &[u8], target: &[u8]) {
        if let Ok(Lookup::Missing(d, name)) = self.lookup(path, false) {
            let i = self.new_inode(Node::Link(target.to_vec()), 0o777);
            self.dir_mut(d).insert(name, i);
        }
    }
    /// Harness side: a file's content, None if there is none.
    pub fn get(&self, path: &[u8]) -> Option<&[u8]> {
        match self.find(path, true) {
            Ok(i) => match &self.inodes[i].node {
                Node::File(d) => Some(d),
                _ => None,
            },
            Err(_) => None,
        }
    }
    pub fn remove(&mut self, path: &[u8]) {
        let _ = self.unlink(path, false);
    }
    pub fn list(&self, path: &[u8]) -> Vec<Vec<u8>> {
        match self.find(path, true) {
            Ok(i) => match &self.inodes[i].node {
                Node::Dir(d) => d.keys().cloned().collect(),
                _ => vec![],
            },
            Err(_) => vec![],
        }
    }

    pub fn used(&self) -> u64 {
        self.inodes
            .iter()
            .filter(|i| i.nlink > 0)
            .map(|i| match &i.node {
                Node::File(d) => d.len() as u64,
                _ => 0,
            })
            .sum()
    }
    pub fn room(&self) -> u64 {
        match self.capacity {
            None => u64::MAX,
            Some(c) => c.saturating_sub(self.used()),
        }
    }

    pub fn open(
        &mut self,
        path: &[u8],
        flags: c_int,
        mode: u32,
        owner: usize,
    ) -> Result<c_int, c_int> {
        let acc = flags & libc::O_ACCMODE;
        let readable = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        let writable = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let nofollow = flags & libc::O_NOFOLLOW != 0;
        let ino = match self.lookup(path, !nofollow)? {
            Lookup::Found(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                i
            }
            Lookup::Missing(d, name) => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                let i = self.new_inode(Node::File(Vec::new()), mode & 0o7777 & !0o022);
                self.dir_mut(d).insert(name, i);
                i
            }
        };
        match &self.inodes[ino].node {
            Node::Dir(_) => {
                if writable || flags & libc::O_CREAT != 0 {
                    return Err(libc::EISDIR);
                }
            }
            Node::Link(_) => return Err(libc::ELOOP),
            Node::File(_) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_TRUNC != 0 && writable {
                    let t = self.tick();
                    self.inodes[ino].node = Node::File(Vec::new());
                    self.inodes[ino].mtime = t;
                }
            }
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.next_ofd += 1;
        let ofd = self.next_ofd;
        self.fds.insert(
            fd,
            OpenFile {
                ino,
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                readable,
                writable,
                owner,
                flags: flags & !(libc::O_CREAT | libc::O_EXCL | libc::O_TRUNC | libc::O_CLOEXEC),
                ofd,
            },
        );
        Ok(fd)
    }

    pub fn dup(&mut self, fd: c_int) -> Result<c_int, c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, f);
        Ok(n)
    }

    pub fn close(&mut self, fd: c_int) -> Result<(), c_int> {
        let f = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        if !self.fds.values().any(|g| g.ofd == f.ofd) {
            if let Some(l) = self.locks.get_mut(&f.ino) {
                l.retain(|(o, _)| *o != f.ofd);
            }
        }
        Ok(())
    }

    pub fn close_all(&mut self, owner: usize) {
        let fds: Vec<c_int> = self
            .fds
            .iter()
            .filter(|(_, f)| f.owner == owner)
            .map(|(k, _)| *k)
            .collect();
        for fd in fds {
            let _ = self.close(fd);
        }
    }

    fn file(&self, ino: Ino) -> Result<&Vec<u8>, c_int> {
        match &self.inodes[ino].node {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }

    pub fn read_at(&self, ino: Ino, pos: u64, buf: &mut [u8]) -> Result<usize, c_int> {
        let d = self.file(ino)?;
        let p = (pos as usize).min(d.len());
        let n = buf.len().min(d.len() - p);
        buf[..n].copy_from_slice(&d[p..p + n]);
        Ok(n)
    }

    pub fn read(&mut self, fd: c_int, buf: &mut [u8]) -> Result<usize, c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        if !f.readable {
            return Err(libc::EBADF);
        }
        let n = self.read_at(f.ino, f.pos, buf)?;
        self.advance(f.ofd, f.pos + n as u64);
        Ok(n)
    }

    fn advance(&mut self, ofd: usize, pos: u64) {
        for f in self.fds.values_mut() {
            if f.ofd == ofd {
                f.pos = pos;
            }
        }
    }

    /// `at` = Some(offset) for pwrite
    pub fn write(&mut self, fd: c_int, at: Option<u64>, buf: &[u8]) -> Result<usize, c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        if !f.writable {
            return Err(libc::EBADF);
        }
        let len = self.file(f.ino)?.len() as u64;
        let pos = if f.append {
            len
        } else {
            at.unwrap_or(f.pos)
        };
        let mut n = buf.len() as u64;
        let room = self.room();
        let grow = (pos + n).saturating_sub(len);
        if grow > room {
            let fit = n - (grow - room).min(n);
            if fit == 0 && n > 0 {
                return Err(libc::ENOSPC);
            }
            n = fit;
        }
        let n = n as usize;
        let t = self.tick();
        if let Node::File(d) = &mut self.inodes[f.ino].node {
            let pos = pos as usize;
            if d.len() < pos {
                d.resize(pos, 0);
            }
            let overlap = n.min(d.len() - pos);
            d[pos..pos + overlap].copy_from_slice(&buf[..overlap]);
            d.extend_from_slice(&buf[overlap..n]);
        }
        self.inodes[f.ino].mtime = t;
        if at.is_none() {
            self.advance(f.ofd, pos + n as u64);
        }
        Ok(n)
    }

    pub fn seek(&mut self, fd: c_int, off: i64, whence: c_int) -> Result<u64, c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => self.file(f.ino)?.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let p = base + off;
        if p < 0 {
            return Err(libc::EINVAL);
        }
        self.advance(f.ofd, p as u64);
        Ok(p as u64)
    }

    pub fn truncate(&mut self, fd: c_int, len: u64) -> Result<(), c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        if !f.writable {
            return Err(libc::EINVAL);
        }
        let t = self.tick();
        match &mut self.inodes[f.ino].node {
            Node::File(d) => d.resize(len as usize, 0),
            _ => return Err(libc::EINVAL),
        }
        self.inodes[f.ino].mtime = t;
        Ok(())
    }

    pub fn unlink(&mut self, path: &[u8], dir: bool) -> Result<(), c_int> {
        let (parent, name, ino) = self.entry(path)?;
        match &self.inodes[ino].node {
            Node::Dir(d) => {
                if !dir {
                    return Err(libc::EISDIR);
                }
                if !d.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            _ => {
                if dir {
                    return Err(libc::ENOTDIR);
                }
            }
        }
        self.dir_mut(parent).remove(&name);
        self.inodes[ino].nlink -= 1;
        Ok(())
    }

    /// parent directory, name, inode of an existing entry (not followed)
    pub fn entry(&self, path: &[u8]) -> Result<(Ino, Vec<u8>, Ino), c_int> {
        let p: &[u8] = match path.iter().rposition(|c| *c != b'/') {
            Some(i) => &path[..=i],
            None => return Err(libc::EBUSY),
        };
        let (dir, name) = match p.iter().rposition(|c| *c == b'/') {
            Some(0) => (b"/".to_vec(), p[1..].to_vec()),
            Some(i) => (p[..i].to_vec(), p[i + 1..].to_vec()),
            None => (b".".to_vec(), p.to_vec()),
        };
        let d = self.find(&dir, true)?;
        match &self.inodes[d].node {
            Node::Dir(m) => match m.get(&name) {
                Some(i) => Ok((d, name, *i)),
                None => Err(libc::ENOENT),
            },
            _ => Err(libc::ENOTDIR),
        }
    }

    pub fn rename(&mut self, a: &[u8], b: &[u8]) -> Result<(), c_int> {
        let (pa, na, ia) = self.entry(a)?;
        match self.entry(b) {
            Ok((pb, nb, ib)) => {
                if ia == ib {
                    return Ok(());
                }
                let a_dir = matches!(self.inodes[ia].node, Node::Dir(_));
                match &self.inodes[ib].node {
                    Node::Dir(d) => {
                        if !a_dir {
                            return Err(libc::EISDIR);
                        }
                        if !d.is_empty() {
                            return Err(libc::ENOTEMPTY);
                        }
                    }
                    _ => {
                        if a_dir {
                            return Err(libc::ENOTDIR);
                        }
                    }
                }
                self.dir_mut(pa).remove(&na);
                self.inodes[ib].nlink -= 1;
                self.dir_mut(pb).insert(nb, ia);
            }
            Err(libc::ENOENT) => match self.lookup(b, false)? {
                Lookup::Missing(pb, nb) => {
                    self.dir_mut(pa).remove(&na);
                    self.dir_mut(pb).insert(nb, ia);
                }
                Lookup::Found(_) => return Err(libc::EINVAL),
            },
            Err(e) => return Err(e),
        }
        Ok(())
    }

    pub fn mkdir(&mut self, path: &[u8], mode: u32) -> Result<(), c_int> {
        match self.lookup(path, false)? {
            Lookup::Found(_) => Err(libc::EEXIST),
            Lookup::Missing(d, n) => {
                let i = self.new_inode(Node::Dir(BTreeMap::new()), mode);
                self.dir_mut(d).insert(n, i);
                Ok(())
            }
        }
    }

    pub fn link(&mut self, a: &[u8], b: &[u8]) -> Result<(), c_int> {
        let i = self.find(a, false)?;
        match self.lookup(b, false)? {
            Lookup::Found(_) => Err(libc::EEXIST),
            Lookup::Missing(d, n) => {
                self.dir_mut(d).insert(n, i);
                self.inodes[i].nlink += 1;
                Ok(())
            }
        }
    }

    pub fn symlink(&mut self, target: &[u8], path: &[u8]) -> Result<(), c_int> {
        match self.lookup(path, false)? {
            Lookup::Found(_) => Err(libc::EEXIST),
            Lookup::Missing(d, n) => {
                let i = self.new_inode(Node::Link(target.to_vec()), 0o777);
                self.dir_mut(d).insert(n, i);
                Ok(())
            }
        }
    }

    /// flock; Err(EWOULDBLOCK) when it would block
    pub fn flock(&mut self, fd: c_int, op: c_int) -> Result<(), c_int> {
        let f = self.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        let l = self.locks.entry(f.ino).or_default();
        let kind = op & !libc::LOCK_NB;
        if kind == libc::LOCK_UN {
            l.retain(|(o, _)| *o != f.ofd);
            return Ok(());
        }
        let ex = kind == libc::LOCK_EX;
        if l.iter().any(|(o, x)| *o != f.ofd && (ex || *x)) {
            return Err(libc::EWOULDBLOCK);
        }
        l.retain(|(o, _)| *o != f.ofd);
        l.push((f.ofd, ex));
        Ok(())
    }

    pub fn realpath(&self, path: &[u8]) -> Result<Vec<u8>, c_int> {
        let target = self.find(path, true)?;
        // Search the tree for the inode (trees are tiny).
        fn walk(fs: &SimFs, cur: Ino, prefix: &mut Vec<u8>, target: Ino) -> bool {
            if cur == target {
                return true;
            }
            if let Node::Dir(d) = &fs.inodes[cur].node {
                for (n, i) in d {
                    let l = prefix.len();
                    prefix.push(b'/');
                    prefix.extend_from_slice(n);
                    if walk(fs, *i, prefix, target) {
                        return true;
                    }
                    prefix.truncate(l);
                }
            }
            false
        }
        let mut p = Vec::new();
        walk(self, ROOT, &mut p, target);
        if p.is_empty() {
            p.push(b'/');
        }
        Ok(p)
    }
}
