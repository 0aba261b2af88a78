//! The simulated disk: an in-memory tree of inodes. Pure data structure, no scheduling and no faults here.

use std::collections::BTreeMap;

pub type Ino = usize;
pub const ROOT: Ino = 0;

#[derive(Clone)]
pub enum Data {
    Small(Vec<u8>),
    /// Read-only large file: mostly zeroes with a few filled segments.
    Sparse { len: u64, segs: Vec<(u64, Vec<u8>)> },
}

impl Data {
    pub fn len(&self) -> u64 {
        match self {
            Data::Small(v) => v.len() as u64,
            Data::Sparse { len, .. } => *len,
        }
    }
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        let len = self.len();
        if off >= len {
            return 0;
        }
        let n = ((len - off) as usize).min(buf.len());
        match self {
            Data::Small(v) => buf[..n].copy_from_slice(&v[off as usize..off as usize + n]),
            Data::Sparse { segs, .. } => {
                for b in buf[..n].iter_mut() {
                    *b = 0;
                }
                for (so, sv) in segs {
                    let s = off.max(*so);
                    let e = (off + n as u64).min(so + sv.len() as u64);
                    if s < e {
                        buf[(s - off) as usize..(e - off) as usize].copy_from_slice(&sv[(s - so) as usize..(e - so) as usize]);
                    }
                }
            }
        }
        n
    }
}

pub enum Node {
    File(Data),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Symlink(Vec<u8>),
}

pub struct Inode {
    pub node: Node,
    pub mtime: i128, // nanoseconds
    pub mode: u32,
    pub nlink: u32,
    /// Directory and name of the most recent link (None when unlinked).
    pub link: Option<(Ino, Vec<u8>)>,
    pub version: u64,
    /// The simulated process that created it (usize::MAX: part of the initial image).
    pub creator: usize,
    /// The operation (global op number) that created it.
    pub creator_op: u64,
    /// Owned by another user: its times and mode cannot be set.
    pub foreign: bool,
}

pub struct Fs {
    pub inodes: Vec<Inode>,
    pub used: u64,
    pub capacity: u64,
}

pub enum Walk {
    Found { parent: Ino, name: Vec<u8>, ino: Ino },
    /// The last component does not exist, its directory does.
    Missing { parent: Ino, name: Vec<u8> },
}

const MAX_NAME: usize = 255;

impl Fs {
    pub fn new() -> Fs {
        Fs {
            inodes: vec![Inode {
                node: Node::Dir(BTreeMap::new()),
                mtime: 0,
                mode: 0o755,
                nlink: 1,
                link: None,
                version: 0,
                creator: usize::MAX,
                creator_op: 0,
                foreign: false,
            }],
            used: 0,
            capacity: u64::MAX,
        }
    }

    pub fn dir(&self, ino: Ino) -> Result<&BTreeMap<Vec<u8>, Ino>, i32> {
        match &self.inodes[ino].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn dir_mut(&mut self, ino: Ino) -> Result<&mut BTreeMap<Vec<u8>, Ino>, i32> {
        match &mut self.inodes[ino].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.inodes[ino].node, Node::Dir(_))
    }
    pub fn parent_of(&self, ino: Ino) -> Ino {
        match &self.inodes[ino].link {
            Some((p, _)) => *p,
            None => ROOT,
        }
    }

    /// Absolute path of an inode through its latest link.
    pub fn path_of(&self, ino: Ino) -> Vec<u8> {
        if ino == ROOT {
            return b"/".to_vec();
        }
        let mut parts: Vec<&[u8]> = Vec::new();
        let mut cur = ino;
        let mut guard = 0;
        while cur != ROOT && guard < 200 {
            match &self.inodes[cur].link {
                Some((p, n)) => {
                    parts.push(n);
                    cur = *p;
                }
                None => {
                    parts.push(b"?deleted");
                    break;
                }
            }
            guard += 1;
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        out
    }

    /// Resolve `path` starting at directory `at`.
    pub fn walk(&self, at: Ino, path: &[u8], follow_last: bool) -> Result<Walk, i32> {
        self.walk_depth(at, path, follow_last, 0)
    }

    fn walk_depth(&self, at: Ino, path: &[u8], follow_last: bool, depth: u32) -> Result<Walk, i32> {
        if depth > 40 {
            return Err(libc::ELOOP);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { at };
        let must_be_dir = path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        if comps.is_empty() {
            if !self.is_dir(cur) {
                return Err(libc::ENOTDIR);
            }
            return Ok(Walk::Found { parent: self.parent_of(cur), name: b".".to_vec(), ino: cur });
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let d = self.dir(cur)?;
            if *c == b".." {
                cur = self.parent_of(cur);
                if last {
                    return Ok(Walk::Found { parent: self.parent_of(cur), name: b".".to_vec(), ino: cur });
                }
                continue;
            }
            if c.len() > MAX_NAME {
                return Err(libc::ENAMETOOLONG);
            }
            match d.get(*c) {
                None => {
                    if last {
                        return Ok(Walk::Missing { parent: cur, name: c.to_vec() });
                    }
                    return Err(libc::ENOENT);
                }
                Some(&ino) => {
                    if let Node::Symlink(target) = &self.inodes[ino].node {
                        if !last || follow_last || must_be_dir {
                            let mut rest = target.clone();
                            for r in &comps[i + 1..] {
                                rest.push(b'/');
                                rest.extend_from_slice(r);
                            }
                            return self.walk_depth(cur, &rest, follow_last, depth + 1);
                        }
                    }
                    if last {
                        if must_be_dir && !self.is_dir(ino) {
                            return Err(libc::ENOTDIR);
                        }
                        return Ok(Walk::Found { parent: cur, name: c.to_vec(), ino });
                    }
                    cur = ino;
                }
            }
        }
        unreachable!()
    }

    /// The absolute path a lookup of `path` would touch, with `.`/`..` and symbolic links resolved as far as they
    /// exist and the rest resolved textually.
    pub fn normalise(&self, at: Ino, path: &[u8]) -> Vec<u8> {
        let mut base: Vec<Vec<u8>> = Vec::new();
        if !path.starts_with(b"/") {
            for c in self.path_of(at).split(|&c| c == b'/').filter(|c| !c.is_empty()) {
                base.push(c.to_vec());
            }
        }
        let mut todo: Vec<Vec<u8>> = path.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").rev().map(|c| c.to_vec()).collect();
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if c == b".." {
                base.pop();
                continue;
            }
            base.push(c);
            let mut cur = ROOT;
            let mut ok = true;
            for b in &base {
                match self.dir(cur).ok().and_then(|d| d.get(b)) {
                    Some(&i) => cur = i,
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                if let Node::Symlink(t) = &self.inodes[cur].node {
                    links += 1;
                    if links > 40 {
                        break;
                    }
                    base.pop();
                    if t.starts_with(b"/") {
                        base.clear();
                    }
                    for p in t.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").rev() {
                        todo.push(p.to_vec());
                    }
                }
            }
        }
        let mut out = Vec::new();
        for b in &base {
            out.push(b'/');
            out.extend_from_slice(b);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    pub fn lookup(&self, path: &[u8]) -> Option<Ino> {
        match self.walk(ROOT, path, true) {
            Ok(Walk::Found { ino, .. }) => Some(ino),
            _ => None,
        }
    }

    pub fn lookup_nofollow(&self, path: &[u8]) -> Option<Ino> {
        match self.walk(ROOT, path, false) {
            Ok(Walk::Found { ino, .. }) => Some(ino),
            _ => None,
        }
    }

    pub fn new_inode(&mut self, node: Node, now: i128, mode: u32, creator: usize, creator_op: u64) -> Ino {
        self.inodes.push(Inode { node, mtime: now, mode, nlink: 0, link: None, version: 0, creator, creator_op, foreign: false });
        self.inodes.len() - 1
    }

    pub fn add_link(&mut self, parent: Ino, name: &[u8], ino: Ino, now: i128) -> Result<(), i32> {
        self.dir_mut(parent)?.insert(name.to_vec(), ino);
        let n = &mut self.inodes[ino];
        n.nlink += 1;
        n.link = Some((parent, name.to_vec()));
        self.inodes[parent].mtime = now;
        Ok(())
    }

    pub fn remove_link(&mut self, parent: Ino, name: &[u8], now: i128) -> Result<Ino, i32> {
        let ino = self.dir_mut(parent)?.remove(name).ok_or(libc::ENOENT)?;
        self.inodes[parent].mtime = now;
        let n = &mut self.inodes[ino];
        n.nlink -= 1;
        if n.nlink == 0 {
            n.link = None;
            if let Node::File(d) = &n.node {
                self.used = self.used.saturating_sub(d.len());
            }
        } else if n.link.as_ref().map_or(false, |(p, nm)| *p == parent && nm == name) {
            // Find another link so that path_of keeps working.
            let mut found = None;
            for (i, x) in self.inodes.iter().enumerate() {
                if let Node::Dir(d) = &x.node {
                    if let Some((nm, _)) = d.iter().find(|(_, &v)| v == ino) {
                        found = Some((i, nm.clone()));
                        break;
                    }
                }
            }
            self.inodes[ino].link = found;
        }
        Ok(ino)
    }

    /// Build-time helper: create all directories of `path`.
    pub fn mkdirs(&mut self, path: &[u8]) -> Ino {
        let mut cur = ROOT;
        for c in path.split(|&c| c == b'/').filter(|c| !c.is_empty()) {
            let next = self.dir(cur).unwrap().get(c).copied();
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.new_inode(Node::Dir(BTreeMap::new()), 0, 0o755, usize::MAX, 0);
                    self.add_link(cur, c, i, 0).unwrap();
                    i
                }
            };
        }
        cur
    }

    /// Build-time helper: create or replace a file, making its directories.
    pub fn put(&mut self, path: &[u8], data: Data, mtime: i128) -> Ino {
        let cut = path.iter().rposition(|&c| c == b'/').unwrap();
        let dir = self.mkdirs(&path[..cut]);
        let name = &path[cut + 1..];
        if self.dir(dir).unwrap().contains_key(name) {
            self.remove_link(dir, name, mtime).unwrap();
        }
        self.used += data.len();
        let i = self.new_inode(Node::File(data), mtime, 0o644, usize::MAX, 0);
        self.add_link(dir, name, i, mtime).unwrap();
        i
    }

    pub fn put_symlink(&mut self, path: &[u8], target: &[u8]) -> Ino {
        let cut = path.iter().rposition(|&c| c == b'/').unwrap();
        let dir = self.mkdirs(&path[..cut]);
        let i = self.new_inode(Node::Symlink(target.to_vec()), 0, 0o777, usize::MAX, 0);
        self.add_link(dir, &path[cut + 1..], i, 0).unwrap();
        i
    }

    pub fn content(&self, ino: Ino) -> Option<&Vec<u8>> {
        match &self.inodes[ino].node {
            Node::File(Data::Small(v)) => Some(v),
            _ => None,
        }
    }

    pub fn file(&self, path: &[u8]) -> Option<&Vec<u8>> {
        self.lookup(path).and_then(|i| self.content(i))
    }
}
