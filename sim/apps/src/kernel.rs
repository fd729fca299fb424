//! A simulated kernel for one single-threaded program: an in-memory disk under /simfs, a network of scripted HTTP
//! servers, and a clock. The program runs its real code on the real standard library; the libc functions it ends up
//! in are defined here (the linker prefers these definitions) and pass through to the real kernel for anything that
//! is not simulated.
use crate::rng::Rng;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn err(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        err(-r as i32);
        -1
    } else {
        r
    }
}
macro_rules! pass {
    ($n:expr $(, $a:expr)*) => {{
        let mut v = [0usize; 6];
        let mut _i = 0;
        $( v[_i] = $a as usize; _i += 1; )*
        ret(raw($n, v[0], v[1], v[2], v[3], v[4], v[5]))
    }};
}
pub const ROOT: &str = "/simfs";
const FD0: i32 = 100_000;

// ---------------------------------------------------------------- disk
#[derive(Clone, Default, Debug)]
pub struct Inode {
    pub data: Vec<u8>,
    /// what is on the platter for sure
    pub durable: Vec<u8>,
}
#[derive(Clone, Debug)]
enum NameOp {
    Set(String, u64),
    Gone(String),
}
#[derive(Clone, Default, Debug)]
pub struct Disk {
    pub names: BTreeMap<String, u64>,
    pub dirs: Vec<String>,
    pub nodes: BTreeMap<u64, Inode>,
    next: u64,
    old_names: BTreeMap<String, u64>,
    journal: Vec<NameOp>,
    pub order: u64,
}
impl Disk {
    pub fn put(&mut self, p: &str, data: Vec<u8>) {
        self.next += 1;
        self.nodes.insert(self.next, Inode { durable: data.clone(), data });
        self.names.insert(p.into(), self.next);
        self.old_names.insert(p.into(), self.next);
    }
    pub fn get(&self, p: &str) -> Option<&Vec<u8>> {
        self.names.get(p).map(|i| &self.nodes[i].data)
    }
    fn name(&mut self, p: &str, i: u64) {
        self.names.insert(p.into(), i);
        self.journal.push(NameOp::Set(p.into(), i));
    }
    fn gone(&mut self, p: &str) -> Option<u64> {
        let i = self.names.remove(p)?;
        self.journal.push(NameOp::Gone(p.into()));
        Some(i)
    }
    fn commit(&mut self) {
        self.old_names = self.names.clone();
        self.journal.clear();
    }
    /// What a power failure leaves: names as of some point since the last commit, and of unsynchronised data a part.
    pub fn power_loss(&mut self, r: &mut Rng) {
        let keep = r.below(self.journal.len() + 1);
        let mut n = self.old_names.clone();
        for o in &self.journal[..keep] {
            match o {
                NameOp::Set(p, i) => {
                    n.insert(p.clone(), *i);
                }
                NameOp::Gone(p) => {
                    n.remove(p);
                }
            }
        }
        self.names = n;
        for i in self.nodes.values_mut() {
            if i.data != i.durable {
                match r.below(4) {
                    0 => i.data = i.durable.clone(),
                    1 => {
                        let k = r.below(i.data.len() + 1);
                        i.data.truncate(k);
                    }
                    2 => {
                        let k = r.below(i.data.len() + 1);
                        i.data[k..].fill(0);
                    }
                    _ => {}
                }
            }
            i.durable = i.data.clone();
        }
        self.commit();
    }
}

// ---------------------------------------------------------------- network
#[derive(Clone, Debug)]
pub enum Item {
    Data(u64, Vec<u8>),
    Fin,
    Rst,
    Stall,
}
#[derive(Default)]
struct Conn {
    nonblock: bool,
    timeout: u64,
    sent: Vec<u8>,
    plan: VecDeque<Item>,
    rx: Vec<u8>,
    dead: Option<i32>,
    host: String,
    soerr: i32,
}
enum Fd {
    File { node: u64, pos: u64, append: bool },
    Dir,
    Sock(Conn),
}
/// What the outside world does in one run of the program.
pub trait Outside {
    /// A DNS lookup; false: no such host.
    fn resolve(&mut self, host: &str) -> bool;
    /// A connection attempt to a host; an errno on failure.
    fn connect(&mut self, host: &str) -> Result<(), i32>;
    fn request(&mut self, host: &str, head: &str) -> Vec<Item>;
}
pub struct World {
    pub disk: Disk,
    pub out: Box<dyn Outside>,
    pub rng: Rng,
    pub now: u64,
    pub calls: u64,
    pub fs_calls: u64,
    /// (index among calls that change the disk, errno or a short write)
    pub fs_faults: Vec<(u64, FsFault)>,
    pub space: Option<u64>,
    pub crash_at: Option<u64>,
    pub frozen: bool,
    pub killed_by_stall: bool,
    pub log: Vec<String>,
    pub injected: BTreeMap<String, u64>,
    hosts: Vec<String>,
    fds: BTreeMap<i32, Fd>,
    nfd: i32,
    pub hash: u64,
    pub runaway: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FsFault {
    Errno(i32),
    Short(usize),
}
static mut WORLD: Option<Box<World>> = None;
impl World {
    pub fn new(disk: Disk, out: Box<dyn Outside>, seed: u64, now: u64) -> World {
        World {
            disk,
            out,
            rng: Rng::new(seed),
            now,
            calls: 0,
            fs_calls: 0,
            fs_faults: vec![],
            space: None,
            crash_at: None,
            frozen: false,
            killed_by_stall: false,
            log: vec![],
            injected: BTreeMap::new(),
            hosts: vec![],
            fds: BTreeMap::new(),
            nfd: FD0,
            hash: 0,
            runaway: false,
        }
    }
    /// Runs a program under this world.
    pub fn run<T>(self, f: impl FnOnce() -> T) -> (World, T) {
        unsafe {
            WORLD = Some(Box::new(self));
            let r = f();
            let w = (*std::ptr::addr_of_mut!(WORLD)).take().unwrap();
            (*w, r)
        }
    }
    fn say(&mut self, s: String) {
        self.hash = crate::rng::mix(self.hash, crate::rng::hash_bytes(s.as_bytes()));
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    fn inject(&mut self, k: &str) {
        *self.injected.entry(k.into()).or_insert(0) += 1;
    }
    fn tick(&mut self) {
        self.calls += 1;
        self.now += 1000;
        if !self.frozen && self.crash_at == Some(self.calls) {
            self.frozen = true;
            self.inject("Crash");
            self.say("crash".into());
        }
        if self.calls > 2_000_000 {
            self.frozen = true;
            self.runaway = true;
        }
    }
    /// Accounts for a call that changes the disk and says how it fails, if it does.
    fn fs(&mut self, what: String) -> Result<Option<usize>, i32> {
        self.tick();
        if self.frozen {
            return Err(libc::EIO);
        }
        let k = self.fs_calls;
        self.fs_calls += 1;
        self.say(format!("fs {k}: {what}"));
        let hit = self.fs_faults.iter().find(|(i, _)| *i == k).map(|x| x.1.clone());
        match hit {
            Some(FsFault::Errno(e)) => {
                self.inject("DiskError");
                self.say(format!("  fails with errno {e}"));
                Err(e)
            }
            Some(FsFault::Short(n)) => {
                self.inject("ShortWrite");
                Ok(Some(n))
            }
            None => Ok(None),
        }
    }
    fn fd(&mut self, f: Fd) -> i32 {
        self.nfd += 1;
        self.fds.insert(self.nfd, f);
        self.nfd
    }
}
fn world() -> Option<&'static mut World> {
    unsafe { (*std::ptr::addr_of_mut!(WORLD)).as_deref_mut() }
}
fn is_dir(w: &World, p: &str) -> bool {
    p == ROOT || w.disk.dirs.iter().any(|d| d == p)
}
/// The simulated path, if it is one.
unsafe fn simpath(p: *const c_char) -> Option<(&'static mut World, String)> {
    let w = world()?;
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s != ROOT && !s.starts_with("/simfs/") {
        return None;
    }
    let mut parts: Vec<&str> = vec![];
    for x in s.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    Some((w, format!("/{}", parts.join("/"))))
}
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}
unsafe fn real(name: &CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

// ---------------------------------------------------------------- files
#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let Some((w, p)) = simpath(path) else {
        return pass!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
    };
    if is_dir(w, &p) {
        w.tick();
        return if flags & 3 == 0 { w.fd(Fd::Dir) } else { err(libc::EISDIR) };
    }
    let there = w.disk.names.get(&p).copied();
    let changes = flags & libc::O_CREAT != 0 && there.is_none() || flags & libc::O_TRUNC != 0;
    if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 && there.is_some() {
        w.tick();
        return err(libc::EEXIST);
    }
    if there.is_none() && (flags & libc::O_CREAT == 0 || !is_dir(w, parent(&p))) {
        w.tick();
        return err(libc::ENOENT);
    }
    if changes {
        if let Err(e) = w.fs(format!("open {p} flags {flags:#o}")) {
            return err(e);
        }
    } else {
        w.tick();
    }
    let node = match there {
        Some(n) => n,
        None => {
            w.disk.next += 1;
            let n = w.disk.next;
            w.disk.nodes.insert(n, Inode::default());
            w.disk.name(&p, n);
            n
        }
    };
    if flags & libc::O_TRUNC != 0 {
        w.disk.nodes.get_mut(&node).unwrap().data.clear();
    }
    w.fd(Fd::File { node, pos: 0, append: flags & libc::O_APPEND != 0 })
}
#[no_mangle]
unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if simpath(path).is_some() {
        return open64(path, flags, mode);
    }
    pass!(libc::SYS_openat, d, path, flags, mode) as c_int
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd > FD0 {
        if let Some(w) = world() {
            w.tick();
            return if w.fds.remove(&fd).is_some() { 0 } else { err(libc::EBADF) };
        }
        return 0;
    }
    pass!(libc::SYS_close, fd) as c_int
}
unsafe fn put(w: &mut World, fd: c_int, b: &[u8], at: Option<u64>) -> isize {
    let Some(Fd::File { node, pos, append }) = w.fds.get(&fd) else { return err(libc::EBADF) as isize };
    let (node, mut pos, append) = (*node, at.unwrap_or(*pos), *append);
    let short = match w.fs(format!("write {} bytes to file {node} at {pos}", b.len())) {
        Ok(s) => s,
        Err(e) => return err(e) as isize,
    };
    let mut n = b.len();
    if let Some(s) = short {
        n = s.clamp(1.min(n), n);
    }
    if let Some(s) = &mut w.space {
        if *s == 0 && n > 0 {
            w.inject("DiskFull");
            return err(libc::ENOSPC) as isize;
        }
        n = n.min(*s as usize);
        *s -= n as u64;
    }
    let d = &mut w.disk.nodes.get_mut(&node).unwrap().data;
    if append {
        pos = d.len() as u64;
    }
    let end = pos as usize + n;
    if d.len() < end {
        d.resize(end, 0);
    }
    d[pos as usize..end].copy_from_slice(&b[..n]);
    if at.is_none() {
        if let Some(Fd::File { pos: p, .. }) = w.fds.get_mut(&fd) {
            *p = end as u64;
        }
    }
    n as isize
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if fd > FD0 {
        let Some(w) = world() else { return err(libc::EBADF) as isize };
        if matches!(w.fds.get(&fd), Some(Fd::Sock(_))) {
            return send(fd, b, n, 0);
        }
        return put(w, fd, std::slice::from_raw_parts(b as *const u8, n), None);
    }
    pass!(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    if fd > FD0 {
        let Some(w) = world() else { return err(libc::EBADF) as isize };
        return put(w, fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as u64));
    }
    pass!(libc::SYS_pwrite64, fd, b, n, off) as isize
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if fd > FD0 {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return write(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    pass!(libc::SYS_writev, fd, v, n) as isize
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if fd > FD0 {
        let Some(w) = world() else { return err(libc::EBADF) as isize };
        if matches!(w.fds.get(&fd), Some(Fd::Sock(_))) {
            return recv(fd, b, n, 0);
        }
        w.tick();
        let Some(Fd::File { node, pos, .. }) = w.fds.get_mut(&fd) else { return err(libc::EBADF) as isize };
        let d = &w.disk.nodes[node].data;
        let from = (*pos as usize).min(d.len());
        let k = n.min(d.len() - from);
        std::ptr::copy_nonoverlapping(d[from..].as_ptr(), b as *mut u8, k);
        *pos += k as u64;
        return k as isize;
    }
    pass!(libc::SYS_read, fd, b, n) as isize
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd > FD0 {
        let Some(w) = world() else { return err(libc::EBADF) as i64 };
        w.tick();
        let Some(Fd::File { node, pos, .. }) = w.fds.get_mut(&fd) else { return err(libc::ESPIPE) as i64 };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => *pos as i64,
            _ => w.disk.nodes[node].data.len() as i64,
        };
        if base + off < 0 {
            return err(libc::EINVAL) as i64;
        }
        *pos = (base + off) as u64;
        return *pos as i64;
    }
    pass!(libc::SYS_lseek, fd, off, whence)
}
#[no_mangle]
unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
unsafe fn sync(fd: c_int) -> c_int {
    let Some(w) = world() else { return 0 };
    match w.fs(format!("fsync {}", fd - FD0)) {
        Err(e) => err(e),
        Ok(_) => {
            if let Some(Fd::File { node, .. }) = w.fds.get(&fd) {
                let i = w.disk.nodes.get_mut(node).unwrap();
                i.durable = i.data.clone();
            }
            w.disk.commit();
            0
        }
    }
}
#[no_mangle]
unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd > FD0 {
        return sync(fd);
    }
    pass!(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd > FD0 {
        return sync(fd);
    }
    pass!(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fd > FD0 {
        let Some(w) = world() else { return err(libc::EBADF) };
        if let Err(e) = w.fs(format!("truncate to {len}")) {
            return err(e);
        }
        if let Some(Fd::File { node, .. }) = w.fds.get(&fd) {
            w.disk.nodes.get_mut(node).unwrap().data.resize(len as usize, 0);
        }
        return 0;
    }
    pass!(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd > FD0 {
        return 0;
    }
    pass!(libc::SYS_flock, fd, op) as c_int
}
#[no_mangle]
unsafe extern "C" fn fchmod(fd: c_int, m: c_int) -> c_int {
    if fd > FD0 {
        return 0;
    }
    pass!(libc::SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (Some((w, a2)), Some((_, b2))) = (simpath(a), simpath(b)) else {
        return pass!(libc::SYS_rename, a, b) as c_int;
    };
    if !w.disk.names.contains_key(&a2) || !is_dir(w, parent(&b2)) {
        w.tick();
        return err(libc::ENOENT);
    }
    if let Err(e) = w.fs(format!("rename {a2} to {b2}")) {
        return err(e);
    }
    // one journal entry pair: a crash sees both or neither
    let i = w.disk.names.remove(&a2).unwrap();
    w.disk.names.insert(b2.clone(), i);
    w.disk.journal.push(NameOp::Set(b2, i));
    w.disk.journal.push(NameOp::Gone(a2));
    0
}
#[no_mangle]
unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    let (Some((w, a2)), Some((_, b2))) = (simpath(a), simpath(b)) else {
        return pass!(libc::SYS_linkat, d1, a, d2, b, fl) as c_int;
    };
    let Some(i) = w.disk.names.get(&a2).copied() else { return err(libc::ENOENT) };
    if w.disk.names.contains_key(&b2) {
        return err(libc::EEXIST);
    }
    if let Err(e) = w.fs(format!("link {a2} to {b2}")) {
        return err(e);
    }
    w.disk.name(&b2, i);
    0
}
#[no_mangle]
unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let Some((w, p)) = simpath(a) else { return pass!(libc::SYS_unlink, a) as c_int };
    if !w.disk.names.contains_key(&p) {
        w.tick();
        return err(libc::ENOENT);
    }
    if let Err(e) = w.fs(format!("unlink {p}")) {
        return err(e);
    }
    w.disk.gone(&p);
    0
}
#[no_mangle]
unsafe extern "C" fn mkdir(a: *const c_char, m: c_int) -> c_int {
    let Some((w, p)) = simpath(a) else { return pass!(libc::SYS_mkdir, a, m) as c_int };
    if is_dir(w, &p) || w.disk.names.contains_key(&p) {
        return err(libc::EEXIST);
    }
    if let Err(e) = w.fs(format!("mkdir {p}")) {
        return err(e);
    }
    w.disk.dirs.push(p);
    0
}
#[no_mangle]
unsafe extern "C" fn access(a: *const c_char, m: c_int) -> c_int {
    let Some((w, p)) = simpath(a) else { return pass!(libc::SYS_access, a, m) as c_int };
    w.tick();
    if is_dir(w, &p) || w.disk.names.contains_key(&p) {
        0
    } else {
        err(libc::ENOENT)
    }
}
fn look(w: &World, p: &str) -> Option<(u64, bool)> {
    if is_dir(w, p) {
        Some((0, true))
    } else {
        w.disk.names.get(p).map(|i| (w.disk.nodes[i].data.len() as u64, false))
    }
}
fn look_fd(w: &World, fd: i32) -> Option<(u64, u32)> {
    match w.fds.get(&fd)? {
        Fd::File { node, .. } => Some((w.disk.nodes[node].data.len() as u64, libc::S_IFREG | 0o644)),
        Fd::Dir => Some((0, libc::S_IFDIR | 0o755)),
        Fd::Sock(_) => Some((0, libc::S_IFSOCK | 0o777)),
    }
}
#[no_mangle]
unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    let found = if d > FD0 && (path.is_null() || *path == 0) {
        world().map(|w| {
            w.tick();
            look_fd(w, d)
        })
    } else {
        simpath(path).map(|(w, p)| {
            w.tick();
            look(w, &p).map(|(n, dir)| (n, if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }))
        })
    };
    match found {
        None => pass!(libc::SYS_statx, d, path, flags, mask, buf) as c_int,
        Some(None) => err(libc::ENOENT),
        Some(Some((n, mode))) => {
            std::ptr::write_bytes(buf, 0, 1);
            (*buf).stx_mask = 0x7ff;
            (*buf).stx_mode = mode as u16;
            (*buf).stx_size = n;
            (*buf).stx_nlink = 1;
            (*buf).stx_blksize = 4096;
            0
        }
    }
}
unsafe fn fill(buf: *mut libc::stat64, n: u64, mode: u32) -> c_int {
    std::ptr::write_bytes(buf, 0, 1);
    (*buf).st_mode = mode;
    (*buf).st_size = n as i64;
    (*buf).st_nlink = 1;
    (*buf).st_blksize = 4096;
    0
}
#[no_mangle]
unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if fd > FD0 {
        return match world().and_then(|w| look_fd(w, fd)) {
            Some((n, m)) => fill(buf, n, m),
            None => err(libc::EBADF),
        };
    }
    pass!(libc::SYS_fstat, fd, buf) as c_int
}
#[no_mangle]
unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if let Some((w, p)) = simpath(path) {
        w.tick();
        return match look(w, &p) {
            Some((n, d)) => fill(buf, n, if d { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }),
            None => err(libc::ENOENT),
        };
    }
    pass!(libc::SYS_stat, path, buf) as c_int
}
#[no_mangle]
unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if simpath(path).is_some() {
        return stat64(path, buf);
    }
    pass!(libc::SYS_lstat, path, buf) as c_int
}
#[no_mangle]
unsafe extern "C" fn copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> isize {
    if a > FD0 || b > FD0 {
        return err(libc::EXDEV) as isize;
    }
    pass!(libc::SYS_copy_file_range, a, x, b, y, n, f) as isize
}

// ---------------------------------------------------------------- directories
struct SimDir {
    names: Vec<(String, bool)>,
    at: usize,
    ent: libc::dirent64,
}
static mut DIRS: Vec<*mut SimDir> = vec![];
#[no_mangle]
unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if let Some((w, p)) = simpath(path) {
        w.tick();
        if !is_dir(w, &p) {
            err(if w.disk.names.contains_key(&p) { libc::ENOTDIR } else { libc::ENOENT });
            return std::ptr::null_mut();
        }
        let pre = format!("{p}/");
        let mut names: Vec<(String, bool)> = vec![(".".into(), true), ("..".into(), true)];
        names.extend(w.disk.names.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).map(|k| (k.to_string(), false)));
        names.extend(w.disk.dirs.iter().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).map(|k| (k.to_string(), true)));
        // a directory's order is nobody's business
        Rng::new(w.disk.order).shuffle(&mut names);
        let d = Box::into_raw(Box::new(SimDir { names, at: 0, ent: std::mem::zeroed() }));
        (*std::ptr::addr_of_mut!(DIRS)).push(d);
        return d as *mut c_void;
    }
    let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real(c"opendir"));
    f(path)
}
unsafe fn simdir(d: *mut c_void) -> Option<&'static mut SimDir> {
    let v = &mut *std::ptr::addr_of_mut!(DIRS);
    v.iter().find(|x| **x as *mut c_void == d).map(|x| &mut **x)
}
#[no_mangle]
unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if let Some(s) = simdir(d) {
        let Some((n, dir)) = s.names.get(s.at) else { return std::ptr::null_mut() };
        s.at += 1;
        s.ent.d_ino = s.at as u64;
        s.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
        s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in n.bytes().chain([0]).enumerate() {
            s.ent.d_name[i] = b as c_char;
        }
        return &mut s.ent;
    }
    let f: extern "C" fn(*mut c_void) -> *mut libc::dirent64 = std::mem::transmute(real(c"readdir64"));
    f(d)
}
#[no_mangle]
unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let v = &mut *std::ptr::addr_of_mut!(DIRS);
    if let Some(i) = v.iter().position(|x| *x as *mut c_void == d) {
        drop(Box::from_raw(v.remove(i)));
        return 0;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real(c"closedir"));
    f(d)
}
#[no_mangle]
unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if simdir(d).is_some() {
        return FD0;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real(c"dirfd"));
    f(d)
}

// ---------------------------------------------------------------- sockets
#[no_mangle]
unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    let Some(w) = world() else {
        let f: extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int = std::mem::transmute(real(c"getaddrinfo"));
        return f(node, service, hints, res);
    };
    w.tick();
    let host = CStr::from_ptr(node).to_string_lossy().into_owned();
    if w.frozen {
        return libc::EAI_AGAIN;
    }
    w.say(format!("lookup {host}"));
    if !w.out.resolve(&host) {
        w.inject("NameLookup");
        return libc::EAI_NONAME;
    }
    let k = match w.hosts.iter().position(|h| *h == host) {
        Some(k) => k,
        None => {
            w.hosts.push(host);
            w.hosts.len() - 1
        }
    };
    #[repr(C)]
    struct Both {
        ai: libc::addrinfo,
        sa: libc::sockaddr_in,
    }
    let b = Box::leak(Box::new(std::mem::zeroed::<Both>()));
    b.sa.sin_family = libc::AF_INET as u16;
    b.sa.sin_addr.s_addr = u32::from_be_bytes([10, 0, 0, k as u8 + 1]).to_be();
    b.ai.ai_family = libc::AF_INET;
    b.ai.ai_socktype = libc::SOCK_STREAM;
    b.ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
    b.ai.ai_addr = &mut b.sa as *mut _ as *mut libc::sockaddr;
    *res = &mut b.ai;
    0
}
#[no_mangle]
unsafe extern "C" fn freeaddrinfo(r: *mut libc::addrinfo) {
    if world().is_some() {
        return;
    }
    let f: extern "C" fn(*mut libc::addrinfo) = std::mem::transmute(real(c"freeaddrinfo"));
    f(r)
}
fn sock(fd: c_int) -> Option<(&'static mut World, &'static mut Conn)> {
    if fd <= FD0 {
        return None;
    }
    let w = world()?;
    let c: *mut Conn = match w.fds.get_mut(&fd) {
        Some(Fd::Sock(c)) => c,
        _ => return None,
    };
    Some((w, unsafe { &mut *c }))
}
#[no_mangle]
unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    if let Some(w) = world() {
        if a == libc::AF_INET || a == libc::AF_INET6 {
            w.tick();
            return w.fd(Fd::Sock(Conn { nonblock: b & libc::SOCK_NONBLOCK != 0, ..Default::default() }));
        }
    }
    pass!(libc::SYS_socket, a, b, c) as c_int
}
#[no_mangle]
unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: u32) -> c_int {
    let Some((w, c)) = sock(fd) else { return pass!(libc::SYS_connect, fd, a, l) as c_int };
    w.tick();
    if w.frozen {
        return err(libc::ENETDOWN);
    }
    let sa = &*(a as *const libc::sockaddr_in);
    let k = (u32::from_be(sa.sin_addr.s_addr) & 255) as usize;
    c.host = w.hosts.get(k.wrapping_sub(1)).cloned().unwrap_or_default();
    w.say(format!("connect {}", c.host));
    w.now += 1_000_000 * (1 + w.rng.below(200) as u64);
    match w.out.connect(&c.host) {
        Ok(()) => {
            if c.nonblock {
                err(libc::EINPROGRESS)
            } else {
                0
            }
        }
        Err(e) => {
            w.inject("Connect");
            c.dead = Some(e);
            if c.nonblock {
                c.soerr = e;
                err(libc::EINPROGRESS)
            } else {
                err(e)
            }
        }
    }
}
#[no_mangle]
unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if n >= 1 && sock((*p).fd).is_some() {
        let w = world().unwrap();
        w.tick();
        let mut k = 0;
        for i in 0..n as usize {
            let f = &mut *p.add(i);
            f.revents = f.events & (libc::POLLOUT | libc::POLLIN);
            if let Some((_, c)) = sock(f.fd) {
                if c.soerr != 0 {
                    f.revents |= libc::POLLERR | libc::POLLHUP;
                }
            }
            k += (f.revents != 0) as c_int;
        }
        return k;
    }
    pass!(libc::SYS_poll, p, n, t) as c_int
}
#[no_mangle]
unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut u32) -> c_int {
    let Some((w, c)) = sock(fd) else { return pass!(libc::SYS_getsockopt, fd, l, o, v, n) as c_int };
    w.tick();
    std::ptr::write_bytes(v as *mut u8, 0, *n as usize);
    if l == libc::SOL_SOCKET && o == libc::SO_ERROR {
        *(v as *mut c_int) = c.soerr;
        c.soerr = 0;
    } else if l == libc::SOL_SOCKET && o == libc::SO_RCVTIMEO {
        *(v as *mut libc::timeval) = libc::timeval { tv_sec: (c.timeout / 1_000_000_000) as i64, tv_usec: (c.timeout % 1_000_000_000 / 1000) as i64 };
    }
    0
}
#[no_mangle]
unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: u32) -> c_int {
    let Some((w, c)) = sock(fd) else { return pass!(libc::SYS_setsockopt, fd, l, o, v, n) as c_int };
    w.tick();
    if l == libc::SOL_SOCKET && o == libc::SO_RCVTIMEO {
        let t = &*(v as *const libc::timeval);
        c.timeout = t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1000;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn ioctl(fd: c_int, r: std::os::raw::c_ulong, a: *mut c_int) -> c_int {
    if fd > FD0 {
        if let Some((w, c)) = sock(fd) {
            w.tick();
            if r == libc::FIONBIO {
                c.nonblock = *a != 0;
            }
        }
        return 0;
    }
    pass!(libc::SYS_ioctl, fd, r, a) as c_int
}
#[no_mangle]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, a: usize) -> c_int {
    if fd > FD0 {
        if let Some((w, c)) = sock(fd) {
            w.tick();
            match cmd {
                libc::F_SETFL => c.nonblock = a as c_int & libc::O_NONBLOCK != 0,
                libc::F_GETFL => return libc::O_RDWR | if c.nonblock { libc::O_NONBLOCK } else { 0 },
                _ => {}
            }
        }
        return 0;
    }
    pass!(libc::SYS_fcntl, fd, cmd, a) as c_int
}
#[no_mangle]
unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, a: usize) -> c_int {
    fcntl(fd, cmd, a)
}
unsafe fn name(fd: c_int, a: *mut libc::sockaddr, l: *mut u32, call: i64) -> c_int {
    let Some((w, _)) = sock(fd) else { return pass!(call, fd, a, l) as c_int };
    w.tick();
    let sa = a as *mut libc::sockaddr_in;
    std::ptr::write_bytes(sa, 0, 1);
    (*sa).sin_family = libc::AF_INET as u16;
    (*sa).sin_addr.s_addr = u32::from_be_bytes([10, 0, 0, 1]).to_be();
    *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
    0
}
#[no_mangle]
unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    name(fd, a, l, libc::SYS_getpeername)
}
#[no_mangle]
unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    name(fd, a, l, libc::SYS_getsockname)
}
#[no_mangle]
unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if sock(fd).is_some() {
        return 0;
    }
    pass!(libc::SYS_shutdown, fd, how) as c_int
}
#[no_mangle]
unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, fl: c_int) -> isize {
    let Some((w, c)) = sock(fd) else { return pass!(libc::SYS_sendto, fd, b, n, fl, 0, 0) as isize };
    w.tick();
    if w.frozen {
        return err(libc::ECONNRESET) as isize;
    }
    if let Some(e) = c.dead {
        return err(if e == libc::ECONNRESET { libc::EPIPE } else { e }) as isize;
    }
    let k = if n > 1 && w.rng.chance(0.1) { w.rng.range(1, n as i64) as usize } else { n };
    c.sent.extend_from_slice(std::slice::from_raw_parts(b as *const u8, k));
    while let Some(end) = c.sent.windows(4).position(|x| x == b"\r\n\r\n") {
        let head = String::from_utf8_lossy(&c.sent[..end]).into_owned();
        c.sent.drain(..end + 4);
        w.say(format!("request {} {}", c.host, head.lines().next().unwrap_or("")));
        let items = w.out.request(&c.host, &head);
        c.plan.extend(items);
    }
    k as isize
}
#[no_mangle]
unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: usize, fl: c_int, a: *const libc::sockaddr, l: u32) -> isize {
    if sock(fd).is_some() {
        return send(fd, b, n, fl);
    }
    pass!(libc::SYS_sendto, fd, b, n, fl, a, l) as isize
}
#[no_mangle]
unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, fl: c_int) -> isize {
    let Some((w, c)) = sock(fd) else { return pass!(libc::SYS_recvfrom, fd, b, n, fl, 0, 0) as isize };
    w.tick();
    loop {
        if w.frozen {
            return err(libc::ECONNRESET) as isize;
        }
        if !c.rx.is_empty() {
            let mut k = n.min(c.rx.len());
            if k > 1 && w.rng.chance(0.3) {
                k = w.rng.range(1, k as i64) as usize;
            }
            std::ptr::copy_nonoverlapping(c.rx.as_ptr(), b as *mut u8, k);
            if fl & libc::MSG_PEEK == 0 {
                c.rx.drain(..k);
            }
            return k as isize;
        }
        if let Some(e) = c.dead {
            return if e == 0 { 0 } else { err(e) as isize };
        }
        let nb = c.nonblock || fl & libc::MSG_DONTWAIT != 0;
        match c.plan.front_mut() {
            Some(Item::Data(after, bytes)) => {
                if *after > 0 && (nb || c.timeout > 0 && *after > c.timeout) {
                    if !nb {
                        w.now += c.timeout;
                        *after -= c.timeout;
                    }
                    return err(libc::EAGAIN) as isize;
                }
                w.now += *after;
                c.rx = std::mem::take(bytes);
                c.plan.pop_front();
            }
            Some(Item::Fin) => {
                c.dead = Some(0);
                c.plan.pop_front();
            }
            Some(Item::Rst) => {
                c.dead = Some(libc::ECONNRESET);
                c.plan.pop_front();
            }
            Some(Item::Stall) | None => {
                if nb {
                    return err(libc::EAGAIN) as isize;
                }
                if c.timeout > 0 {
                    w.now += c.timeout;
                    return err(libc::EAGAIN) as isize;
                }
                // nothing will ever come: the user gives up and kills the program
                w.say("killed while waiting".into());
                w.killed_by_stall = true;
                w.frozen = true;
            }
        }
    }
}
#[no_mangle]
unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, fl: c_int, a: *mut libc::sockaddr, l: *mut u32) -> isize {
    if sock(fd).is_some() {
        return recv(fd, b, n, fl);
    }
    pass!(libc::SYS_recvfrom, fd, b, n, fl, a, l) as isize
}

// ---------------------------------------------------------------- time
#[no_mangle]
unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if let Some(w) = world() {
        let n = w.now + if c == libc::CLOCK_REALTIME { 1_700_000_000_000_000_000 } else { 0 };
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as c_long;
        return 0;
    }
    pass!(libc::SYS_clock_gettime, c, t) as c_int
}
#[no_mangle]
unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if let Some(w) = world() {
        w.now += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        return 0;
    }
    pass!(libc::SYS_nanosleep, a, b) as c_int
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if world().is_some() && f == 0 {
        return nanosleep(a, b);
    }
    -(raw(libc::SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int)
}
/// Sets the simulated clock.
pub fn set_now(ns: u64) {
    if let Some(w) = world() {
        w.now = ns;
    }
}
pub fn now() -> u64 {
    world().map_or(0, |w| w.now)
}
