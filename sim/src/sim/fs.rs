//! In-memory storage with volatile and durable state, chunking and faults.
use super::raw::*;
use super::{hash_bytes, Chunk, Op, World, K};
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1_000_000;

pub const O_WRONLY: i32 = 1;
pub const O_RDWR: i32 = 2;
pub const O_CREAT: i32 = 0o100;
pub const O_EXCL: i32 = 0o200;
pub const O_TRUNC: i32 = 0o1000;
pub const O_APPEND: i32 = 0o2000;
pub const O_DIRECTORY: i32 = 0o200000;
pub const O_TMPFILE: i32 = 0o20200000;

pub enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
pub struct Inode {
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<Pend>,
    pub dir: bool,
}
pub struct Ofd {
    pub inode: usize,
    pub pos: usize,
    pub append: bool,
    pub r: bool,
    pub wr: bool,
    pub refs: u32,
}
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pub ofds: Vec<Ofd>,
    pub fds: Vec<Option<usize>>,
    /// Free bytes, None: unlimited.
    pub free: Option<u64>,
    /// Names the simulated environment itself removed.
    pub vanished: Vec<String>,
}

pub fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/sim/{}", p) };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs { names: BTreeMap::new(), inodes: Vec::new(), ofds: Vec::new(), fds: Vec::new(), free: None, vanished: Vec::new() };
        f.add_dir("/");
        f.add_dir("/sim");
        f.add_dir("/tmp");
        f
    }
    pub fn add_dir(&mut self, p: &str) {
        self.inodes.push(Inode { data: vec![], durable: vec![], pending: vec![], dir: true });
        self.names.insert(p.into(), self.inodes.len() - 1);
    }
    fn new_inode(&mut self) -> usize {
        self.inodes.push(Inode { data: vec![], durable: vec![], pending: vec![], dir: false });
        self.inodes.len() - 1
    }
    /// Harness access: set content durably.
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let p = norm(path);
        let i = match self.names.get(&p) {
            Some(i) => *i,
            None => {
                let i = self.new_inode();
                self.names.insert(p, i);
                i
            }
        };
        let n = &mut self.inodes[i];
        n.data = data.to_vec();
        n.durable = data.to_vec();
        n.pending.clear();
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        let i = self.names.get(&norm(path))?;
        if self.inodes[*i].dir {
            return None;
        }
        Some(&self.inodes[*i].data)
    }
    pub fn del(&mut self, path: &str) {
        self.names.remove(&norm(path));
    }
    pub fn snapshot(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        self.names
            .iter()
            .map(|(k, i)| (k.clone(), if self.inodes[*i].dir { None } else { Some(self.inodes[*i].data.clone()) }))
            .collect()
    }
    pub fn open_handles(&self) -> usize {
        self.fds.iter().filter(|x| x.is_some()).count()
    }
    pub fn close_all(&mut self) {
        self.fds.clear();
        self.ofds.clear();
    }
    fn new_fd(&mut self, inode: usize, append: bool, r: bool, wr: bool) -> i64 {
        self.ofds.push(Ofd { inode, pos: 0, append, r, wr, refs: 1 });
        self.put_fd(self.ofds.len() - 1)
    }
    fn put_fd(&mut self, o: usize) -> i64 {
        for (i, f) in self.fds.iter_mut().enumerate() {
            if f.is_none() {
                *f = Some(o);
                return (FD_BASE + i as i32) as i64;
            }
        }
        self.fds.push(Some(o));
        (FD_BASE + self.fds.len() as i32 - 1) as i64
    }
    fn ofd(&self, fd: i32) -> Result<usize, i32> {
        self.fds.get((fd - FD_BASE) as usize).and_then(|x| *x).ok_or(EBADF)
    }
}

fn short(p: &str) -> String {
    if p.len() > 60 {
        let mut i = 60;
        while !p.is_char_boundary(i) {
            i -= 1;
        }
        format!("{:?}...", &p[..i])
    } else {
        format!("{:?}", p)
    }
}

/// The error number of a fault.
fn errno_of(k: K) -> i32 {
    match k {
        K::StatEacces | K::OpenEacces | K::CreateEacces | K::ReadEacces => EACCES,
        K::StatEnoent | K::OpenEnoent => ENOENT,
        K::StatEnotdir | K::OpenEnotdir => ENOTDIR,
        K::StatEloop => 40,
        K::StatEtimedout | K::OpenEtimedout | K::CreateEtimedout | K::ReadEtimedout | K::WriteEtimedout => ETIMEDOUT,
        K::OpenEmfile => EMFILE,
        K::OpenEnfile => 23,
        K::OpenEnomem | K::ReadEnomem | K::WriteEnomem => 12,
        K::OpenEagain | K::ReadEagain | K::WriteEagain => EAGAIN,
        K::CreateEnospc | K::WriteEnospc => ENOSPC,
        K::CreateErofs => EROFS,
        K::CreateEdquot | K::WriteEdquot => EDQUOT,
        K::CreateEtxtbsy => 26,
        K::CreateEperm | K::WriteEperm => EPERM,
        K::ReadEstale | K::WriteEstale => ESTALE,
        K::ReadEisdir => EISDIR,
        K::ReadEinval | K::WriteEinval => EINVAL,
        K::ReadEpipe | K::WriteEpipe => 32,
        K::ReadEconnreset => 104,
        K::WriteEfbig => 27,
        _ => EIO,
    }
}

impl World {
    fn interrupted(&mut self, k: K) -> bool {
        if self.f.eintr == 0 {
            return false;
        }
        let r = self.soft_rng();
        if self.f.eintr_row < 3 && (r & 255) < self.f.eintr as u64 {
            self.f.eintr_row += 1;
            self.f.soft_fired += 1;
            self.fault(k, "");
            return true;
        }
        self.f.eintr_row = 0;
        false
    }
    fn chunk(&mut self, c: Chunk, n: usize) -> usize {
        match c {
            Chunk::Full => n,
            Chunk::Fixed(k) => n.min(k),
            Chunk::Rand(k) => {
                let r = self.soft_rng() as usize % k;
                n.min(1 + r)
            }
        }
    }

    pub fn fs_stat(&mut self, path: &str) -> Result<(u64, bool, usize), i32> {
        self.begin_op(K::OpStat);
        let r = self.fs_stat2(path);
        self.ev(1, hash_bytes(path.as_bytes()), r.map_or_else(|e| e as u64, |x| x.0 << 8), || {
            format!("lookup {} -> {:?}", short(path), r.map(|x| x.0))
        });
        r
    }
    fn fs_stat2(&mut self, path: &str) -> Result<(u64, bool, usize), i32> {
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let p = norm(path);
        let known = self.fs.names.get(&p).copied();
        if self.dead {
            return known.map(|i| (self.fs.inodes[i].data.len() as u64, self.fs.inodes[i].dir, i)).ok_or(ENOENT);
        }
        let i = match known {
            Some(i) => i,
            None => {
                return Err(if path.split('/').any(|c| c.len() > 255) { ENAMETOOLONG } else { ENOENT });
            }
        };
        if !self.fs.inodes[i].dir && self.hit(Op::Stat) {
            // A file that vanishes does so for all threads.
            let k = match self.pick_kind(&[K::StatEio, K::StatEacces, K::StatEnoent, K::Vanish, K::StatEnotdir, K::StatEloop, K::StatEtimedout]) {
                K::Vanish if self.f.only_task.is_some() => K::StatEnoent,
                k => k,
            };
            match k {
                k if k != K::Vanish => {
                    self.fault(k, &p);
                    return Err(errno_of(k));
                }
                _ => {
                    self.fault(K::Vanish, &p);
                    self.fs.names.remove(&p);
                    self.fs.vanished.push(p.clone());
                }
            }
        }
        Ok((self.fs.inodes[i].data.len() as u64, self.fs.inodes[i].dir, i))
    }
    pub fn fs_fstat(&mut self, fd: i32) -> Result<(u64, bool, usize), i32> {
        self.begin_op(K::OpStat);
        let o = self.fs.ofd(fd)?;
        let i = self.fs.ofds[o].inode;
        let n = &self.fs.inodes[i];
        let r = (n.data.len() as u64, n.dir, i);
        self.ev(2, fd as u64, r.0, || format!("fstat {} -> size {}", fd, r.0));
        Ok(r)
    }

    pub fn fs_open(&mut self, path: &str, flags: i32) -> Result<i64, i32> {
        let creating = flags & (O_CREAT | O_TRUNC) != 0;
        self.begin_op(if creating { K::OpCreate } else { K::OpOpen });
        let r = self.fs_open2(path, flags, creating);
        self.ev(3, hash_bytes(path.as_bytes()), r.unwrap_or_else(|e| -(e as i64)) as u64, || {
            format!("{} {} flags {:o} -> {:?}", if creating { "create" } else { "open" }, short(path), flags, r)
        });
        r
    }
    fn fs_open2(&mut self, path: &str, flags: i32, creating: bool) -> Result<i64, i32> {
        if path.len() > 4095 || path.split('/').any(|c| c.len() > 255) {
            return Err(ENAMETOOLONG);
        }
        let p = norm(path);
        let acc = flags & 3;
        let (r, wr) = (acc != O_WRONLY, acc == O_WRONLY || acc == O_RDWR);
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(95);
        }
        if !self.dead {
            if self.interrupted(K::OpenEintr) {
                return Err(EINTR);
            }
            if self.hit(if creating { Op::Create } else { Op::Open }) {
                let k = if creating {
                    self.pick_kind(&[
                        K::CreateEnospc, K::CreateErofs, K::CreateEacces, K::CreateEio, K::OpenEmfile, K::CreateEdquot, K::CreateEtxtbsy,
                        K::CreateEperm, K::CreateEtimedout, K::OpenEnfile, K::OpenEagain,
                    ])
                } else {
                    self.pick_kind(&[
                        K::OpenEacces, K::OpenEio, K::OpenEmfile, K::OpenEnoent, K::OpenEnfile, K::OpenEnotdir, K::OpenEtimedout, K::OpenEnomem,
                        K::OpenEagain,
                    ])
                };
                self.fault(k, &p);
                return Err(errno_of(k));
            }
        }
        let known = self.fs.names.get(&p).copied();
        let i = match known {
            Some(i) => {
                if self.fs.inodes[i].dir {
                    if wr || creating {
                        return Err(EISDIR);
                    }
                    return Ok(self.fs.new_fd(i, false, true, false));
                }
                if flags & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                if flags & O_TRUNC != 0 && wr {
                    if self.mutation() {
                        let limbo = self.fs.new_inode();
                        return Ok(self.fs.new_fd(limbo, false, r, wr));
                    }
                    let len = self.fs.inodes[i].data.len() as u64;
                    if let Some(f) = self.fs.free.as_mut() {
                        *f += len;
                    }
                    let n = &mut self.fs.inodes[i];
                    n.data.clear();
                    n.pending.push(Pend::Trunc(0));
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                match self.fs.names.get(&parent(&p)) {
                    Some(d) if self.fs.inodes[*d].dir => {}
                    Some(_) => return Err(ENOTDIR),
                    None => return Err(ENOENT),
                }
                let dies = self.mutation();
                let i = self.fs.new_inode();
                if !dies {
                    self.fs.names.insert(p, i);
                }
                i
            }
        };
        Ok(self.fs.new_fd(i, flags & O_APPEND != 0, r, wr))
    }

    pub fn fs_read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<i64, i32> {
        self.begin_op(K::OpRead);
        let r = self.fs_read2(fd, buf, at);
        let n = buf.len();
        self.ev(4, (fd as u64) << 32 | n as u64, r.unwrap_or_else(|e| -(e as i64)) as u64, || {
            format!("read {} up to {} -> {:?}", fd, n, r)
        });
        r
    }
    fn fs_read2(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<i64, i32> {
        let o = self.fs.ofd(fd)?;
        if !self.fs.ofds[o].r {
            return Err(EBADF);
        }
        let ino = self.fs.ofds[o].inode;
        if self.fs.inodes[ino].dir {
            return Err(EISDIR);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if !self.dead {
            if self.interrupted(K::ReadEintr) {
                return Err(EINTR);
            }
            if self.hit(Op::Read) {
                let k = self.pick_kind(&[
                    K::ReadEio, K::ReadEstale, K::ReadEagain, K::ReadEtimedout, K::ReadEnomem, K::ReadEisdir, K::ReadEinval, K::ReadEpipe,
                    K::ReadEconnreset, K::ReadEacces,
                ]);
                self.fault(k, "");
                return Err(errno_of(k));
            }
        }
        let pos = at.map_or(self.fs.ofds[o].pos, |x| x as usize);
        let len = self.fs.inodes[ino].data.len();
        let avail = len.saturating_sub(pos).min(buf.len());
        let n = if avail == 0 { 0 } else { self.chunk(self.f.read_chunk, avail) };
        if n < avail {
            self.f.soft_fired += 1;
            self.count(K::ReadShort);
        }
        buf[..n].copy_from_slice(&self.fs.inodes[ino].data[pos.min(len)..pos.min(len) + n]);
        if at.is_none() {
            self.fs.ofds[o].pos = pos + n;
        }
        Ok(n as i64)
    }

    pub fn fs_write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> Result<i64, i32> {
        self.begin_op(K::OpWrite);
        let r = self.fs_write2(fd, buf, at);
        let n = buf.len();
        self.ev(5, (fd as u64) << 32 | n as u64, r.unwrap_or_else(|e| -(e as i64)) as u64, || {
            format!("write {} of {} bytes -> {:?}", fd, n, r)
        });
        r
    }
    fn fs_write2(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> Result<i64, i32> {
        let o = self.fs.ofd(fd)?;
        if !self.fs.ofds[o].wr {
            return Err(EBADF);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let ino = self.fs.ofds[o].inode;
        let mut n = buf.len();
        if !self.dead {
            if self.interrupted(K::WriteEintr) {
                return Err(EINTR);
            }
            if self.hit(Op::Write) {
                let k = self.pick_kind(&[
                    K::WriteEnospc, K::WriteEio, K::WriteEdquot, K::WriteZero, K::WriteEagain, K::WriteEtimedout, K::WriteEfbig, K::WriteEpipe,
                    K::WriteEperm, K::WriteEinval, K::WriteEnomem, K::WriteEstale,
                ]);
                self.fault(k, "");
                return match k {
                    K::WriteZero => Ok(0),
                    k => Err(errno_of(k)),
                };
            }
            let m = self.chunk(self.f.write_chunk, n);
            if m < n {
                self.f.soft_fired += 1;
                self.count(K::WriteShort);
                n = m;
            }
        }
        let pos = match at {
            Some(x) => x as usize,
            None if self.fs.ofds[o].append => self.fs.inodes[ino].data.len(),
            None => self.fs.ofds[o].pos,
        };
        if let (Some(f), false) = (self.fs.free, self.dead) {
            let len = self.fs.inodes[ino].data.len();
            let over = pos.min(len);
            let grow = (pos + n).saturating_sub(len.max(over)) as u64;
            if grow > f {
                self.f.hard_fired += 1;
                self.fault(K::DiskFull, "");
                let cut = (grow - f) as usize;
                if cut >= n {
                    return Err(ENOSPC);
                }
                n -= cut;
            }
            let len = self.fs.inodes[ino].data.len();
            let grow = (pos + n).saturating_sub(len) as u64;
            self.fs.free = Some(f - grow.min(f));
        }
        let was_dead = self.dead;
        let mut applied = n;
        if self.mutation() {
            if was_dead {
                applied = 0;
            } else {
                applied = self.tape.draw(n as u32 + 1) as usize;
                if applied > 0 {
                    self.count(K::CrashInWrite);
                }
                self.ev(708, applied as u64, 0, || format!("    {} of {} bytes reached the file", applied, n));
            }
        }
        if applied > 0 {
            let d = &mut self.fs.inodes[ino];
            if d.data.len() < pos + applied {
                d.data.resize(pos + applied, 0);
            }
            d.data[pos..pos + applied].copy_from_slice(&buf[..applied]);
            d.pending.push(Pend::Write(pos, buf[..applied].to_vec()));
        }
        if at.is_none() {
            self.fs.ofds[o].pos = pos + n;
        }
        Ok(n as i64)
    }

    pub fn fs_lseek(&mut self, fd: i32, off: i64, wh: i32) -> Result<i64, i32> {
        self.begin_op(K::OpSeek);
        let r = (|| {
            let o = self.fs.ofd(fd)?;
            if !self.dead && self.hit(Op::Seek) {
                let k = self.pick_kind(&[K::SeekEio, K::SeekEinval]);
                self.fault(k, "");
                return Err(if k == K::SeekEio { EIO } else { EINVAL });
            }
            let base = match wh {
                0 => 0,
                1 => self.fs.ofds[o].pos as i64,
                2 => self.fs.inodes[self.fs.ofds[o].inode].data.len() as i64,
                _ => return Err(EINVAL),
            };
            let n = base.checked_add(off).ok_or(EINVAL)?;
            if n < 0 {
                return Err(EINVAL);
            }
            self.fs.ofds[o].pos = n as usize;
            Ok(n)
        })();
        self.ev(6, (fd as u64) << 32 | wh as u64, r.unwrap_or_else(|e| -(e as i64)) as u64, || {
            format!("seek {} {} whence {} -> {:?}", fd, off, wh, r)
        });
        r
    }
    pub fn fs_close(&mut self, fd: i32) -> Result<i64, i32> {
        self.begin_op(K::OpClose);
        let r = (|| {
            let o = self.fs.ofd(fd)?;
            self.fs.fds[(fd - FD_BASE) as usize] = None;
            self.fs.ofds[o].refs -= 1;
            if !self.dead && self.hit(Op::Close) {
                self.fault(K::CloseEio, "");
                return Err(EIO);
            }
            Ok(0)
        })();
        self.ev(7, fd as u64, r.unwrap_or_else(|e| -(e as i64)) as u64, || format!("close {} -> {:?}", fd, r));
        r
    }
    pub fn fs_dup(&mut self, fd: i32) -> Result<i64, i32> {
        let o = self.fs.ofd(fd)?;
        self.fs.ofds[o].refs += 1;
        let r = self.fs.put_fd(o);
        self.ev(8, fd as u64, r as u64, || format!("dup {} -> {}", fd, r));
        Ok(r)
    }
    pub fn fs_sync(&mut self, fd: i32) -> Result<i64, i32> {
        self.begin_op(K::OpSync);
        let o = self.fs.ofd(fd)?;
        if self.dead {
            return Ok(0);
        }
        if self.hit(Op::Sync) {
            self.fault(K::SyncEio, "");
            return Err(EIO);
        }
        let ino = self.fs.ofds[o].inode;
        let n = &mut self.fs.inodes[ino];
        n.durable = n.data.clone();
        n.pending.clear();
        self.ev(9, fd as u64, 0, || format!("sync {}", fd));
        Ok(0)
    }
    pub fn fs_truncate_inode(&mut self, ino: usize, len: usize) -> Result<i64, i32> {
        self.begin_op(K::OpMeta);
        if !self.dead && self.hit(Op::Meta) {
            self.fault(K::MetaEio, "truncate");
            return Err(EIO);
        }
        if self.mutation() {
            return Ok(0);
        }
        let n = &mut self.fs.inodes[ino];
        n.data.resize(len, 0);
        n.pending.push(Pend::Trunc(len));
        self.ev(10, ino as u64, len as u64, || format!("truncate to {}", len));
        Ok(0)
    }
    pub fn fs_ftruncate(&mut self, fd: i32, len: usize) -> Result<i64, i32> {
        let o = self.fs.ofd(fd)?;
        let i = self.fs.ofds[o].inode;
        self.fs_truncate_inode(i, len)
    }
    pub fn fs_name_op(&mut self, what: &str, a: &str, b: &str) -> Result<i64, i32> {
        self.begin_op(K::OpMeta);
        let r = self.fs_name_op2(what, &norm(a), &norm(b));
        self.ev(11, hash_bytes(a.as_bytes()) ^ hash_bytes(what.as_bytes()), r.unwrap_or_else(|e| -(e as i64)) as u64, || {
            format!("{} {} {} -> {:?}", what, a, b, r)
        });
        r
    }
    fn fs_name_op2(&mut self, what: &str, a: &str, b: &str) -> Result<i64, i32> {
        if !self.dead && self.hit(Op::Meta) {
            self.fault(K::MetaEio, what);
            return Err(EIO);
        }
        match what {
            "rename" => {
                let i = *self.fs.names.get(a).ok_or(ENOENT)?;
                if self.mutation() {
                    return Ok(0);
                }
                self.fs.names.remove(a);
                self.fs.names.insert(b.into(), i);
            }
            "link" => {
                let i = *self.fs.names.get(a).ok_or(ENOENT)?;
                if self.fs.names.contains_key(b) {
                    return Err(EEXIST);
                }
                if self.mutation() {
                    return Ok(0);
                }
                self.fs.names.insert(b.into(), i);
            }
            "unlink" => {
                let i = *self.fs.names.get(a).ok_or(ENOENT)?;
                if self.fs.inodes[i].dir {
                    return Err(EISDIR);
                }
                if self.mutation() {
                    return Ok(0);
                }
                self.fs.names.remove(a);
            }
            "mkdir" => {
                if self.fs.names.contains_key(a) {
                    return Err(EEXIST);
                }
                if self.mutation() {
                    return Ok(0);
                }
                self.fs.add_dir(a);
            }
            "rmdir" => {
                let i = *self.fs.names.get(a).ok_or(ENOENT)?;
                if !self.fs.inodes[i].dir {
                    return Err(ENOTDIR);
                }
                let pre = format!("{}/", a);
                if self.fs.names.keys().any(|k| k.starts_with(&pre)) {
                    return Err(ENOTEMPTY);
                }
                if self.mutation() {
                    return Ok(0);
                }
                self.fs.names.remove(a);
            }
            _ => return Err(ENOSYS),
        }
        Ok(0)
    }

    /// Power is lost: unsynced writes may be lost, torn, or replaced by zeros.
    pub fn power_loss(&mut self) {
        self.count(K::PowerLoss);
        self.ev(709, 0, 0, || "!! power loss".into());
        for i in 0..self.fs.inodes.len() {
            if self.fs.inodes[i].dir || self.fs.inodes[i].pending.is_empty() {
                continue;
            }
            let pend = std::mem::take(&mut self.fs.inodes[i].pending);
            let mut data = self.fs.inodes[i].durable.clone();
            for p in pend {
                match p {
                    Pend::Trunc(n) => {
                        if self.tape.chance(1, 8) {
                            self.count(K::PlDrop);
                        } else {
                            data.resize(n, 0);
                        }
                    }
                    Pend::Write(off, d) => {
                        let k = self.tape.weighted(&[4, 1, 2, 2]);
                        let end = off + d.len();
                        if k == 1 {
                            self.count(K::PlDrop);
                            self.ev(710, off as u64, d.len() as u64, || format!("    write at {} of {} lost", off, d.len()));
                            continue;
                        }
                        if data.len() < end {
                            data.resize(end, 0);
                        }
                        data[off..end].copy_from_slice(&d);
                        if k == 2 {
                            let cut = self.tape.draw(d.len() as u32) as usize;
                            data.truncate(off + cut);
                            self.count(K::PlTorn);
                            self.ev(710, off as u64, cut as u64, || format!("    write at {} torn after {}", off, cut));
                        } else if k == 3 {
                            let bs = [16usize, 512, 4096][self.tape.draw(3) as usize];
                            let blocks = (end - off + bs - 1) / bs;
                            let b = self.tape.draw(blocks as u32) as usize;
                            let s = off + b * bs;
                            let e = end.min(s + bs);
                            data[s..e].fill(0);
                            self.count(K::PlZero);
                            self.ev(711, s as u64, e as u64, || format!("    bytes {}..{} zeroed", s, e));
                        }
                    }
                }
            }
            self.fs.inodes[i].data = data.clone();
            self.fs.inodes[i].durable = data;
        }
        self.restart();
    }
}
