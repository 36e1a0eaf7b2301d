//! What the specification says the name space holds: objects and the names they are reachable by.
use super::*;

pub type Name = Vec<u8>;

#[derive(Clone)]
pub struct Obj {
    pub dir: bool,
    pub node: u64,
    pub links: u64,
    pub opens: u64,
    pub mounted: bool,
    /// size and first byte of a file
    pub size: u64,
    pub byte: u64,
    pub created: u64,
}

/// object 0 is the root
#[derive(Clone)]
pub struct Tree {
    pub objs: Vec<Obj>,
    pub ents: Vec<(usize, Name, usize)>,
}

/// digits, letters and what is between and after them in ASCII
fn character() -> u8 {
    any(48, 126) as u8
}

/// a name of one symbolic character
pub fn letter() -> Name {
    vec![character()]
}

static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// names are of any characters of two bytes in UTF-8
pub fn wider(on: bool) {
    WIDE.store(on, std::sync::atomic::Ordering::Relaxed);
}

/// a name of n symbolic characters
pub fn letters(n: usize) -> Name {
    if WIDE.load(std::sync::atomic::Ordering::Relaxed) {
        return (0..n).flat_map(|_| [any(0xc2, 0xdf) as u8, any(0x80, 0xbf) as u8]).collect();
    }
    (0..n).map(|_| character()).collect()
}

pub fn text_of(parts: &[Name]) -> String {
    let v = parts.join(&b'/');
    unsafe { String::from_utf8_unchecked(v) }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = and(r, a[i] == b[i]);
    }
    r
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum No {
    Absent,
    Exists,
    Busy,
    NotEmpty,
    Type,
    Inside,
    Argument,
}

impl Tree {
    pub fn new(e: &Env) -> Tree {
        let m = e.fs.metadata(e.root()).unwrap();
        Tree {
            objs: vec![Obj { dir: true, node: m.node, links: m.link_count, opens: 1, mounted: false, size: 0, byte: 0, created: m.times.created }],
            ents: vec![],
        }
    }
    /// splits on whether a name is there
    pub fn entry(&self, dir: usize, name: &[u8]) -> Option<usize> {
        for (i, (p, n, _)) in self.ents.iter().enumerate() {
            if *p == dir && n.len() == name.len() && eq(n, name) {
                return Some(i);
            }
        }
        None
    }
    pub fn find(&self, from: usize, path: &[Name]) -> Option<usize> {
        let mut cur = from;
        for n in path {
            cur = self.ents[self.entry(cur, n)?].2;
        }
        Some(cur)
    }
    pub fn entries(&self, dir: usize) -> u64 {
        self.ents.iter().filter(|x| x.0 == dir).count() as u64
    }
    fn fresh(&mut self, dir: bool, created: u64) -> usize {
        self.objs.push(Obj { dir, node: u64::MAX, links: 1, opens: 0, mounted: false, size: 0, byte: 0, created });
        self.objs.len() - 1
    }
    /// folders on the way to the last name, made as needed; None: the way leads through a file
    fn way(&mut self, from: usize, path: &[Name], created: u64) -> Option<usize> {
        // nothing is made if the way leads through a file
        let mut cur = from;
        for n in &path[..path.len() - 1] {
            match self.entry(cur, n) {
                Some(i) => {
                    cur = self.ents[i].2;
                    if !self.objs[cur].dir {
                        return None;
                    }
                }
                None => break,
            }
        }
        let mut cur = from;
        for n in &path[..path.len() - 1] {
            cur = match self.entry(cur, n) {
                Some(i) => self.ents[i].2,
                None => {
                    let o = self.fresh(true, created);
                    self.ents.push((cur, n.clone(), o));
                    o
                }
            };
        }
        Some(cur)
    }
    pub fn create(&mut self, from: usize, path: &[Name], dir: bool, created: u64) -> Result<usize, No> {
        if self.find(from, path).is_some() {
            return Err(No::Exists);
        }
        let d = self.way(from, path, created).ok_or(No::Argument)?;
        let o = self.fresh(dir, created);
        self.ents.push((d, path[path.len() - 1].clone(), o));
        Ok(o)
    }
    fn last(&self, from: usize, path: &[Name]) -> Option<usize> {
        let d = self.find(from, &path[..path.len() - 1])?;
        self.entry(d, &path[path.len() - 1])
    }
    fn may_remove(&self, o: usize) -> Result<(), No> {
        let x = &self.objs[o];
        if x.mounted {
            return Err(No::Busy);
        }
        if x.dir && self.entries(o) > 0 {
            return Err(No::NotEmpty);
        }
        if x.opens > 0 && x.links == 1 {
            return Err(No::Busy);
        }
        Ok(())
    }
    pub fn remove(&mut self, from: usize, path: &[Name], dir: bool) -> Result<(), No> {
        let i = self.last(from, path).ok_or(No::Absent)?;
        let o = self.ents[i].2;
        if self.objs[o].dir != dir {
            return Err(No::Type);
        }
        self.may_remove(o)?;
        self.objs[o].links -= 1;
        self.ents.remove(i);
        Ok(())
    }
    /// o is d or above it
    fn above(&self, o: usize, d: usize) -> bool {
        let mut cur = d;
        loop {
            if cur == o {
                return true;
            }
            match self.ents.iter().find(|x| x.2 == cur) {
                Some(x) => cur = x.0,
                None => return false,
            }
        }
    }
    /// the deepest existing folder on the way to a path
    fn deepest(&self, from: usize, path: &[Name]) -> usize {
        let mut cur = from;
        for n in path {
            match self.entry(cur, n) {
                Some(i) => cur = self.ents[i].2,
                None => break,
            }
        }
        cur
    }
    /// a link (or, moving, the new name of) src at dst; the source entry
    fn link_to(&mut self, from: usize, src: &[Name], to: usize, dst: &[Name], moving: bool) -> Result<usize, No> {
        let si = self.last(from, src).ok_or(No::Absent)?;
        let s = self.ents[si].2;
        if !moving && self.objs[s].dir {
            return Err(No::Type);
        }
        if moving && self.objs[s].mounted {
            return Err(No::Busy);
        }
        if self.objs[s].dir && self.above(s, self.deepest(to, dst)) {
            return Err(No::Inside);
        }
        if let Some(di) = self.last(to, dst) {
            let d = self.ents[di].2;
            if d == s {
                return Ok(si);
            }
            if self.objs[d].dir != self.objs[s].dir {
                return Err(No::Type);
            }
            self.may_remove(d)?;
            self.objs[d].links -= 1;
            self.ents.remove(di);
        }
        let created = self.objs[s].created;
        let d = self.way(to, dst, created).ok_or(No::Argument)?;
        self.ents.push((d, dst[dst.len() - 1].clone(), s));
        self.objs[s].links += 1;
        Ok(self.last(from, src).unwrap())
    }
    pub fn link(&mut self, from: usize, src: &[Name], to: usize, dst: &[Name]) -> Result<usize, No> {
        let si = self.link_to(from, src, to, dst, false)?;
        Ok(self.ents[si].2)
    }
    pub fn rename(&mut self, from: usize, src: &[Name], to: usize, dst: &[Name]) -> Result<usize, No> {
        let si = self.last(from, src).ok_or(No::Absent)?;
        if let Some(di) = self.last(to, dst) {
            if di == si {
                return Ok(self.ents[si].2);
            }
        }
        let si = self.link_to(from, src, to, dst, true)?;
        let o = self.ents[si].2;
        self.ents.remove(si);
        self.objs[o].links -= 1;
        Ok(o)
    }
    pub fn remove_recursive(&mut self, from: usize, path: &[Name]) -> Result<(), No> {
        let i = self.last(from, path).ok_or(No::Absent)?;
        let o = self.ents[i].2;
        if self.objs[o].dir {
            self.clear(o)?;
        }
        self.may_remove(o)?;
        let i = self.last(from, path).unwrap();
        self.ents.remove(i);
        self.objs[o].links -= 1;
        Ok(())
    }
    fn clear(&mut self, dir: usize) -> Result<(), No> {
        while let Some(i) = self.ents.iter().position(|x| x.0 == dir) {
            let o = self.ents[i].2;
            if self.objs[o].dir {
                self.clear(o)?;
            }
            self.may_remove(o)?;
            self.objs[o].links -= 1;
            let i = self.ents.iter().position(|x| x.0 == dir).unwrap();
            self.ents.remove(i);
        }
        Ok(())
    }
    /// the names of an object, from the root
    pub fn paths(&self, o: usize) -> Vec<Vec<Name>> {
        if o == 0 {
            return vec![vec![]];
        }
        let mut r = vec![];
        for (p, n, x) in &self.ents {
            if *x == o {
                for mut q in self.paths(*p) {
                    q.push(n.clone());
                    r.push(q);
                }
            }
        }
        r
    }
    /// a path of an object that was just made
    pub fn adopt(&mut self, e: &mut Env, o: usize, path: &str) {
        let r = e.root();
        let m = e.fs.open_metadata(r, path).unwrap();
        self.objs[o].node = m.node;
    }

    /// the whole name space as observed is the specified one
    pub fn verify(&mut self, e: &mut Env, id: u32) {
        let r = e.root();
        for o in 0..self.objs.len() {
            if self.objs[o].dir && (o == 0 || self.objs[o].links > 0) {
                for p in self.paths(o) {
                    let fd = if o == 0 { r } else { e.open(&text_of(&p)).unwrap() };
                    self.verify_dir(e, o, fd, id);
                    if o != 0 {
                        e.fs.close(fd).unwrap();
                    }
                }
            }
        }
        for i in 0..self.ents.len() {
            let o = self.ents[i].2;
            let dir = self.ents[i].0;
            for mut p in self.paths(dir) {
                p.push(self.ents[i].1.clone());
                let Ok(m) = e.fs.open_metadata(r, &text_of(&p)) else {
                    check(false, id + 5);
                    return;
                };
                if self.objs[o].node == u64::MAX {
                    self.objs[o].node = m.node;
                }
                let x = &self.objs[o];
                check(m.node == x.node, id + 6);
                check((m.file_type == FileType::Directory) == x.dir, id + 7);
                check(m.link_count == x.links, id + 8);
                check(m.size == if x.dir { self.entries(o) } else { x.size }, id + 9);
                check(m.times.created == x.created, id + 10);
                observe(id + 6, m.node);
                observe(id + 8, m.link_count);
            }
        }
        // different objects have different numbers
        for a in 0..self.objs.len() {
            for b in 0..a {
                if self.objs[a].node != u64::MAX && self.objs[b].node != u64::MAX {
                    check(self.objs[a].node != self.objs[b].node, id + 11);
                }
            }
        }
    }
    fn verify_dir(&mut self, e: &mut Env, o: usize, fd: Fd, id: u32) {
        let mut seen: Vec<(u64, Name, Option<FileType>)> = vec![];
        e.fs.with_direntries(fd, Some(0), &mut |_, d| {
            seen.push((d.node, d.name.bytes[..d.name.length as usize].to_vec(), d.entry_type));
            true
        })
        .unwrap();
        check(seen.len() as u64 == self.entries(o), id);
        check(e.size(fd) == self.entries(o), id + 1);
        for i in 0..self.ents.len() {
            if self.ents[i].0 != o {
                continue;
            }
            let mut n = 0;
            let x = self.ents[i].2;
            for (node, name, ty) in &seen {
                if name.len() == self.ents[i].1.len() && eq(name, &self.ents[i].1) {
                    n += 1;
                    if self.objs[x].node == u64::MAX {
                        self.objs[x].node = *node;
                    }
                    check(*node == self.objs[x].node, id + 2);
                    check(ty.is_none() || (*ty == Some(FileType::Directory)) == self.objs[x].dir, id + 3);
                }
            }
            check(n == 1, id + 4);
        }
    }
    /// the first byte of every file through every name of it
    pub fn verify_content(&self, e: &mut Env, id: u32) {
        for o in 0..self.objs.len() {
            if self.objs[o].dir || self.objs[o].links == 0 {
                continue;
            }
            for p in self.paths(o) {
                let fd = e.open(&text_of(&p)).unwrap();
                let mut b = [0xa5u8; 1];
                let n = e.fs.read(fd, &mut b).unwrap();
                check(n == min(self.objs[o].size, 1), id);
                check(b[0] as u64 == if self.objs[o].size > 0 { self.objs[o].byte } else { 0xa5 }, id + 1);
                e.fs.close(fd).unwrap();
            }
        }
    }
    /// creates a file or folder that must be possible, with one byte of content
    pub fn make(&mut self, e: &mut Env, path: &[Name], dir: bool) -> usize {
        let r = e.root();
        let t = any(1 << 33, 1 << 62);
        let o = self.create(0, path, dir, t).unwrap();
        let s = text_of(path);
        if dir {
            e.fs.mkdir(r, &s, FdStat::default(), t).unwrap();
        } else {
            let fd = e.fs.open(r, &s, FdStat::default(), OpenFlags::CREATE, t).unwrap();
            let b = any(0, 255) as u8;
            e.fs.write(fd, &[b]).unwrap();
            e.fs.close(fd).unwrap();
            self.objs[o].size = 1;
            self.objs[o].byte = b as u64;
        }
        o
    }
}
