//! A file system in memory behind the C library's calls. The standard library
//! of the program under test ends up here; every call may fail, be interrupted
//! or transfer less than asked, as the executor chooses (within a budget).
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use crate::sym;
use std::ffi::c_char;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;
const EAGAIN: i32 = 11;
const EBUSY: i32 = 16;
const EMFILE: i32 = 24;
const EROFS: i32 = 30;
const EPIPE: i32 = 32;
const ELOOP: i32 = 40;
const EDQUOT: i32 = 122;
const ERANGE: i32 = 34;
const ENOSYS: i32 = 38;

const O_WRONLY: i32 = 1;
const O_RDWR: i32 = 2;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

pub struct Node {
    pub path: Vec<u8>,
    pub dir: bool,
    /// another name of that file: a symbolic (false) or hard (true) link
    pub link: Option<(Vec<u8>, bool)>,
    pub data: Vec<u8>,
    /// there before the program under test started
    pub old: bool,
    /// no longer reachable by its name
    pub gone: bool,
    /// written, truncated, renamed or removed by the program
    pub dirty: bool,
}
struct Fd {
    node: usize,
    pos: usize,
    write: bool,
    append: bool,
    open: bool,
}
pub struct World {
    pub nodes: Vec<Node>,
    fds: Vec<Fd>,
    pub cwd: Vec<u8>,
    /// how many more calls may misbehave
    pub faults: u32,
    /// short transfers and interruptions (harmless for correct programs)
    pub quirks: u32,
    /// hard errors that were injected
    pub failed: u32,
    /// a removal or close was made to fail
    pub unlink_failed: bool,
    /// path another process may create at any moment, and its content
    pub intruder: Option<(Vec<u8>, Vec<u8>)>,
    pub intruded: bool,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    /// pages the browser loaded
    pub pages: Vec<Vec<u8>>,
    pub chrome_failed: bool,
    pub chrome_faults: u32,
    /// what was written to standard output and standard error, where captured
    pub console: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// size hints may be wrong
    pub vague: bool,
    /// so many files the program looks for may have been there before
    pub unknown: u32,
    absent: Vec<Vec<u8>>,
    on: bool,
}
static mut W: World = World {
    nodes: Vec::new(),
    fds: Vec::new(),
    cwd: Vec::new(),
    faults: 0,
    quirks: 0,
    failed: 0,
    unlink_failed: false,
    intruder: None,
    intruded: false,
    env: Vec::new(),
    pages: Vec::new(),
    chrome_failed: false,
    chrome_faults: 0,
    console: false,
    stdout: Vec::new(),
    stderr: Vec::new(),
    vague: false,
    unknown: 0,
    absent: Vec::new(),
    on: false,
};
pub fn w() -> &'static mut World {
    unsafe { &mut W }
}
const FD0: i32 = 1000;

impl World {
    pub fn start(&mut self) {
        self.on = true;
    }
    pub fn stop(&mut self) {
        self.on = false;
    }
    pub fn dir(&mut self, p: &[u8]) {
        self.nodes.push(Node { path: p.to_vec(), dir: true, link: None, data: vec![], old: true, gone: false, dirty: false });
    }
    pub fn file(&mut self, p: &[u8], d: &[u8]) {
        self.nodes.push(Node { path: p.to_vec(), dir: false, link: None, data: d.to_vec(), old: true, gone: false, dirty: false });
    }
    pub fn find(&self, p: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < self.nodes.len() {
            let n = &self.nodes[i];
            if !n.gone && n.path.len() == p.len() && n.path == p {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn link(&mut self, p: &[u8], to: &[u8], hard: bool) {
        self.file(p, b"");
        self.nodes.last_mut().unwrap().link = Some((to.to_vec(), hard));
    }
    /// the file behind a name, for the program: it follows links, and a file
    /// nothing is known about may have been there before
    fn look(&mut self, p: &[u8]) -> Option<usize> {
        match self.find(p) {
            Some(i) => match self.nodes[i].link.clone() {
                Some((t, _)) => self.find(&t),
                None => Some(i),
            },
            None => {
                if self.unknown == 0
                    || p.starts_with(b"/h")
                    || p.starts_with(b"/x")
                    || self.parent_ok(p).is_err()
                    || self.new_parent(p)
                    || self.absent.iter().any(|a| a.len() == p.len() && &a[..] == p)
                    || self.nodes.iter().any(|n| n.path.len() == p.len() && n.path == p)
                {
                    return None;
                }
                if sym::choose(2) == 0 {
                    self.absent.push(p.to_vec());
                    return None;
                }
                self.unknown -= 1;
                self.file(p, b"kept before");
                Some(self.nodes.len() - 1)
            }
        }
    }
    fn parent_ok(&self, p: &[u8]) -> Result<(), i32> {
        let mut k = p.len();
        while k > 0 && p[k - 1] != b'/' {
            k -= 1;
        }
        if k <= 1 {
            return Ok(());
        }
        match self.find(&p[..k - 1]) {
            None => Err(ENOENT),
            Some(i) if !self.nodes[i].dir => Err(ENOTDIR),
            Some(_) => Ok(()),
        }
    }
    /// in a directory the program made itself
    fn new_parent(&self, p: &[u8]) -> bool {
        let k = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
        match self.find(&p[..k]) {
            Some(i) => !self.nodes[i].old,
            None => false,
        }
    }
    fn has_children(&self, p: &[u8]) -> bool {
        self.nodes.iter().any(|n| !n.gone && n.path.len() > p.len() && n.path[p.len()] == b'/' && &n.path[..p.len()] == p)
    }
    /// absolute path without "." and ".." components
    fn resolve(&self, p: &[u8]) -> Vec<u8> {
        let mut o: Vec<u8> = Vec::new();
        let abs = !p.is_empty() && p[0] == b'/';
        let full: Vec<u8> = if abs { p.to_vec() } else { [&self.cwd[..], b"/", p].concat() };
        for c in full.split(|b| *b == b'/') {
            if c.is_empty() || c == b"." {
                continue;
            }
            if c == b".." {
                while let Some(x) = o.pop() {
                    if x == b'/' {
                        break;
                    }
                }
                continue;
            }
            o.push(b'/');
            o.extend_from_slice(c);
        }
        if o.is_empty() {
            o.push(b'/');
        }
        o
    }
    fn new_node(&mut self, p: &[u8], dir: bool) -> usize {
        self.nodes.push(Node { path: p.to_vec(), dir, link: None, data: vec![], old: false, gone: false, dirty: true });
        self.nodes.len() - 1
    }
    /// another process may act between any two calls
    fn intrude(&mut self) {
        let p = match &self.intruder {
            Some((p, _)) if !self.intruded => p.clone(),
            _ => return,
        };
        if self.find(&p).is_none() && self.parent_ok(&p).is_ok() && sym::choose(2) == 1 {
            self.intruded = true;
            let d = self.intruder.as_ref().unwrap().1.clone();
            self.file(&p, &d);
        }
    }
    /// does this call fail, and how?
    fn fails(&mut self, errs: &[i32]) -> Option<i32> {
        self.intrude();
        if self.faults == 0 {
            return None;
        }
        let k = sym::choose(errs.len() as u32 + 1) as usize;
        if k == 0 {
            return None;
        }
        self.faults -= 1;
        self.failed += 1;
        Some(errs[k - 1])
    }
    fn interrupted(&mut self) -> bool {
        if self.quirks == 0 || sym::choose(2) == 0 {
            return false;
        }
        self.quirks -= 1;
        true
    }
    /// how much of n is transferred: all of it, or any smaller part
    fn part(&mut self, n: usize) -> usize {
        if self.quirks == 0 || n <= 1 {
            return n;
        }
        if n > 64 {
            // of a long one: one byte, half, all but one, or a whole number of pages
            let k = [n, 1, n / 2, n - 1, n / 4096 * 4096][sym::choose(5) as usize];
            if k < n {
                self.quirks -= 1;
            }
            return if k == 0 { n } else { k };
        }
        let k = sym::choose(n as u32) as usize;
        if k == 0 {
            return n;
        }
        self.quirks -= 1;
        k
    }
}

unsafe fn set_errno(e: i32) -> i32 {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    *__errno_location() = e;
    -1
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p as *const u8, n)
}

/// calls that are none of the program's business go to the kernel
#[cfg(feature = "replay")]
unsafe fn kernel(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}
#[cfg(not(feature = "replay"))]
unsafe fn kernel(_n: i64, _a: i64, _b: i64, _c: i64, _d: i64, _e: i64) -> i64 {
    set_errno(ENOSYS) as i64
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    let w = w();
    if !w.on {
        return kernel(2, path as i64, flags as i64, mode as i64, 0, 0) as i32;
    }
    if w.interrupted() {
        return set_errno(EINTR);
    }
    let write = flags & (O_WRONLY | O_RDWR) != 0;
    let errs: &[i32] = if write { &[EACCES, ENOSPC, EROFS] } else { &[EACCES, EIO, EMFILE] };
    if let Some(e) = w.fails(errs) {
        return set_errno(e);
    }
    let p = w.resolve(cstr(path));
    let node = match w.look(&p) {
        Some(i) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return set_errno(EEXIST);
            }
            if w.nodes[i].dir && write {
                return set_errno(EISDIR);
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return set_errno(ENOENT);
            }
            if let Err(e) = w.parent_ok(&p) {
                return set_errno(e);
            }
            w.new_node(&p, false)
        }
    };
    if flags & O_TRUNC != 0 && write && !w.nodes[node].data.is_empty() {
        w.nodes[node].data.clear();
        w.nodes[node].dirty = true;
    }
    w.fds.push(Fd { node, pos: 0, write, append: flags & O_APPEND != 0, open: true });
    FD0 + w.fds.len() as i32 - 1
}
fn fd(n: i32) -> Option<&'static mut Fd> {
    if n < FD0 {
        return None;
    }
    match w().fds.get_mut((n - FD0) as usize) {
        Some(f) if f.open => Some(f),
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(n: i32) -> i32 {
    if n < FD0 {
        return kernel(3, n as i64, 0, 0, 0, 0) as i32;
    }
    match fd(n) {
        Some(f) => {
            f.open = false;
            0
        }
        None => set_errno(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(n: i32, buf: *mut u8, len: usize) -> isize {
    if n < FD0 {
        return kernel(0, n as i64, buf as i64, len as i64, 0, 0) as isize;
    }
    let w = w();
    let f = match fd(n) {
        Some(f) => f,
        None => return set_errno(EBADF) as isize,
    };
    if w.interrupted() {
        return set_errno(EINTR) as isize;
    }
    if let Some(e) = w.fails(&[EIO]) {
        return set_errno(e) as isize;
    }
    if w.nodes[f.node].dir {
        return set_errno(EISDIR) as isize;
    }
    let d = &w.nodes[f.node].data;
    let left = if f.pos < d.len() { d.len() - f.pos } else { 0 };
    let k = w.part(left.min(len));
    let d = &w.nodes[f.node].data;
    std::ptr::copy_nonoverlapping(d.as_ptr().add(f.pos), buf, k);
    f.pos += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(n: i32, buf: *const u8, len: usize) -> isize {
    if n < FD0 && w().on && w().console {
        let o = if n == 1 { &mut w().stdout } else { &mut w().stderr };
        o.extend_from_slice(std::slice::from_raw_parts(buf, len));
        return len as isize;
    }
    if n < FD0 {
        return kernel(1, n as i64, buf as i64, len as i64, 0, 0) as isize;
    }
    let w = w();
    let f = match fd(n) {
        Some(f) if f.write => f,
        _ => return set_errno(EBADF) as isize,
    };
    if w.interrupted() {
        return set_errno(EINTR) as isize;
    }
    if let Some(e) = w.fails(&[ENOSPC, EIO, EAGAIN]) {
        return set_errno(e) as isize;
    }
    let k = w.part(len);
    let node = &mut w.nodes[f.node];
    if f.append {
        f.pos = node.data.len();
    }
    while node.data.len() < f.pos {
        node.data.push(0);
    }
    let src = std::slice::from_raw_parts(buf, k);
    let over = (node.data.len() - f.pos).min(k);
    node.data[f.pos..f.pos + over].copy_from_slice(&src[..over]);
    node.data.extend_from_slice(&src[over..]);
    node.dirty = true;
    f.pos += k;
    k as isize
}
#[repr(C)]
pub struct Iovec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(n: i32, v: *const Iovec, c: i32) -> isize {
    if n < FD0 && !(w().on && w().console) {
        return kernel(20, n as i64, v as i64, c as i64, 0, 0) as isize;
    }
    let mut i = 0;
    while i < c {
        let x = &*v.add(i as usize);
        if x.len > 0 {
            return write(n, x.base, x.len);
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: i32, off: i64, whence: i32) -> i64 {
    if n < FD0 {
        return kernel(8, n as i64, off, whence as i64, 0, 0);
    }
    let f = match fd(n) {
        Some(f) => f,
        None => return set_errno(EBADF) as i64,
    };
    let end = w().nodes[f.node].data.len() as i64;
    let p = match whence {
        0 => off,
        1 => f.pos as i64 + off,
        _ => end + off,
    };
    if p < 0 {
        return set_errno(EINVAL) as i64;
    }
    f.pos = p as usize;
    p
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: i32, len: i64) -> i32 {
    let w = w();
    let f = match fd(n) {
        Some(f) if f.write => f,
        _ => return set_errno(EBADF),
    };
    if let Some(e) = w.fails(&[EIO]) {
        return set_errno(e);
    }
    w.nodes[f.node].data.resize(len as usize, 0);
    w.nodes[f.node].dirty = true;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(n: i32) -> i32 {
    if fd(n).is_none() {
        return set_errno(EBADF);
    }
    match w().fails(&[EIO]) {
        Some(e) => set_errno(e),
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: i32) -> i32 {
    fsync(n)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EPERM, EACCES, EBUSY]) {
        w.unlink_failed = true;
        return set_errno(e);
    }
    let p = w.resolve(cstr(path));
    w.look(&p);
    match w.find(&p) {
        None => set_errno(ENOENT),
        Some(i) if w.nodes[i].dir => set_errno(EISDIR),
        Some(i) => {
            w.nodes[i].gone = true;
            w.nodes[i].dirty = true;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EPERM, EACCES, EBUSY]) {
        w.unlink_failed = true;
        return set_errno(e);
    }
    let p = w.resolve(cstr(path));
    match w.find(&p) {
        None => set_errno(ENOENT),
        Some(i) if !w.nodes[i].dir => set_errno(ENOTDIR),
        Some(i) => {
            if w.has_children(&p) {
                return set_errno(ENOTEMPTY);
            }
            w.nodes[i].gone = true;
            w.nodes[i].dirty = true;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, _mode: u32) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EACCES]) {
        return set_errno(e);
    }
    let p = w.resolve(cstr(path));
    if p == b"/" || w.look(&p).is_some() {
        return set_errno(EEXIST);
    }
    if let Err(e) = w.parent_ok(&p) {
        return set_errno(e);
    }
    w.new_node(&p, true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EACCES]) {
        return set_errno(e);
    }
    let (pa, pb) = (w.resolve(cstr(a)), w.resolve(cstr(b)));
    w.look(&pa);
    w.look(&pb);
    let i = match w.find(&pa) {
        None => return set_errno(ENOENT),
        Some(i) => i,
    };
    if let Err(e) = w.parent_ok(&pb) {
        return set_errno(e);
    }
    if pa == pb {
        return 0;
    }
    if let Some(j) = w.find(&pb) {
        if w.nodes[j].dir {
            return set_errno(EISDIR);
        }
        // the new file takes over the name, and the old one's history
        w.nodes[j].gone = true;
        w.nodes[j].dirty = true;
    }
    let n = Node { path: pb, dir: w.nodes[i].dir, link: w.nodes[i].link.clone(), data: w.nodes[i].data.clone(), old: false, gone: false, dirty: true };
    w.nodes[i].gone = true;
    w.nodes[i].dirty = true;
    w.nodes.push(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    let w = w();
    if let Some(e) = w.fails(&[ENOENT]) {
        set_errno(e);
        return std::ptr::null_mut();
    }
    if n <= w.cwd.len() {
        set_errno(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(w.cwd.as_ptr(), buf as *mut u8, w.cwd.len());
    *buf.add(w.cwd.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, _m: i32) -> i32 {
    let w = w();
    let p = w.resolve(cstr(path));
    if p == b"/" || w.look(&p).is_some() {
        0
    } else {
        set_errno(ENOENT)
    }
}

// ---- directories

const AT_FDCWD: i32 = -100;
const O_DIRECTORY: i32 = 0o200000;
const AT_REMOVEDIR: i32 = 0x200;

#[repr(C)]
pub struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}
pub struct Dir {
    fd: i32,
    /// the nodes not yet listed
    left: Vec<usize>,
    entry: Dirent,
}
/// the path `p` as seen from the directory behind `d`
unsafe fn at(d: i32, p: *const c_char) -> Option<Vec<u8>> {
    let p = cstr(p);
    if d == AT_FDCWD || p.first() == Some(&b'/') {
        return Some(w().resolve(p));
    }
    let f = fd(d)?;
    Some([&w().nodes[f.node].path[..], b"/", p].concat())
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    let w = w();
    if !w.on {
        return kernel(257, d as i64, path as i64, flags as i64, mode as i64, 0) as i32;
    }
    let mut p = match at(d, path) {
        Some(p) => p,
        None => return set_errno(EBADF),
    };
    if flags & O_DIRECTORY != 0 {
        if let Some(i) = w.find(&p) {
            if !w.nodes[i].dir {
                return set_errno(ENOTDIR);
            }
        }
    }
    p.push(0);
    let faults = w.faults;
    if flags & O_DIRECTORY != 0 {
        w.faults = 0;
    }
    let n = open64(p.as_ptr() as *const c_char, flags, mode);
    if flags & O_DIRECTORY != 0 {
        w.faults = faults;
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, path: *const c_char, flags: i32) -> i32 {
    let mut p = match at(d, path) {
        Some(p) => p,
        None => return set_errno(EBADF),
    };
    p.push(0);
    let q = p.as_ptr() as *const c_char;
    if flags & AT_REMOVEDIR != 0 {
        rmdir(q)
    } else {
        unlink(q)
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(n: i32) -> *mut Dir {
    let f = match fd(n) {
        Some(f) => f,
        None => {
            set_errno(EBADF);
            return std::ptr::null_mut();
        }
    };
    let w = w();
    if !w.nodes[f.node].dir {
        set_errno(ENOTDIR);
        return std::ptr::null_mut();
    }
    let base = w.nodes[f.node].path.clone();
    let mut left = Vec::new();
    for (i, c) in w.nodes.iter().enumerate() {
        let k = base.len();
        if !c.gone && c.path.len() > k + 1 && c.path[k] == b'/' && c.path[..k] == base[..] && !c.path[k + 1..].contains(&b'/') {
            left.push(i);
        }
    }
    left.reverse();
    Box::into_raw(Box::new(Dir { fd: n, left, entry: Dirent { ino: 0, off: 0, reclen: 280, kind: 0, name: [0; 256] } }))
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut Dir {
    let n = openat64(AT_FDCWD, path, O_DIRECTORY, 0);
    if n < 0 {
        return std::ptr::null_mut();
    }
    fdopendir(n)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut Dirent {
    let w = w();
    let d = &mut *d;
    match d.left.pop() {
        None => std::ptr::null_mut(),
        Some(i) => {
            let n = &w.nodes[i];
            let k = n.path.iter().rposition(|c| *c == b'/').unwrap() + 1;
            let name = &n.path[k..];
            let mut j = 0;
            while j < name.len() && j < 255 {
                d.entry.name[j] = name[j];
                j += 1;
            }
            d.entry.name[j] = 0;
            d.entry.ino = i as u64 + 1;
            d.entry.kind = match &n.link {
                Some((_, false)) => 10,
                _ if n.dir => 4,
                _ => 8,
            };
            &mut d.entry
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> i32 {
    (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> i32 {
    let d = Box::from_raw(d);
    close(d.fd)
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EACCES]) {
        return set_errno(e);
    }
    let (pa, pb) = (w.resolve(cstr(a)), w.resolve(cstr(b)));
    if w.look(&pa).is_none() {
        return set_errno(ENOENT);
    }
    if w.look(&pb).is_some() || w.find(&pb).is_some() {
        return set_errno(EEXIST);
    }
    if let Err(e) = w.parent_ok(&pb) {
        return set_errno(e);
    }
    let n = w.new_node(&pb, false);
    w.nodes[n].link = Some((pa, true));
    0
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_d: i32, a: *const c_char, _e: i32, b: *const c_char, _f: i32) -> i32 {
    link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, _m: u32) -> i32 {
    let w = w();
    let p = w.resolve(cstr(path));
    match w.look(&p) {
        None => set_errno(ENOENT),
        Some(i) => {
            w.nodes[i].dirty = true;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(n: i32, _m: u32) -> i32 {
    match fd(n) {
        Some(_) => 0,
        None => set_errno(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(n: i32, _op: i32) -> i32 {
    match fd(n) {
        Some(_) => 0,
        None => set_errno(EBADF),
    }
}
/// not available: the standard library falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: i32, _b: *mut i64, _c: i32, _d: *mut i64, _n: usize, _f: u32) -> isize {
    set_errno(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: i32, _b: i32, _c: *mut i64, _n: usize) -> isize {
    set_errno(ENOSYS) as isize
}
/// the fields the standard library looks at
#[repr(C)]
pub struct Stat {
    dev: u64,
    ino: u64,
    nlink: u64,
    mode: u32,
    uid: u32,
    gid: u32,
    pad: u32,
    rdev: u64,
    size: i64,
    rest: [u64; 11],
}
unsafe fn fill(node: Option<usize>, st: *mut Stat) -> i32 {
    let w = w();
    let z = std::mem::zeroed();
    *st = z;
    let (dir, size) = match node {
        None => (true, 0),
        Some(i) => (w.nodes[i].dir, w.nodes[i].data.len()),
    };
    (*st).mode = if dir { 0o040755 } else { 0o100644 };
    (*st).dev = 1;
    (*st).ino = match node {
        None => 2,
        Some(i) => 3 + i as u64,
    };
    (*st).nlink = 1;
    (*st).size = size as i64;
    if w.vague && !dir {
        // a file that grows or reports no size
        (*st).size = if sym::choose(2) == 1 { 0 } else { size as i64 };
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut Stat) -> i32 {
    let w = w();
    if let Some(e) = w.fails(&[EACCES]) {
        return set_errno(e);
    }
    let p = w.resolve(cstr(path));
    if p == b"/" {
        return fill(None, st);
    }
    match w.look(&p) {
        None => set_errno(ENOENT),
        Some(i) => fill(Some(i), st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut Stat) -> i32 {
    // what looks around before removing never fails by itself
    let faults = std::mem::take(&mut w().faults);
    let r = stat64(path, st);
    w().faults = faults;
    let w = w();
    let p = w.resolve(cstr(path));
    if let Some(i) = w.find(&p) {
        if let Some((_, false)) = w.nodes[i].link {
            fill(Some(i), st);
            (*st).mode = 0o120777;
            return 0;
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(n: i32, st: *mut Stat) -> i32 {
    match fd(n) {
        Some(f) => fill(Some(f.node), st),
        None => set_errno(EBADF),
    }
}
/// not available: the standard library falls back to stat64
#[no_mangle]
pub unsafe extern "C" fn statx(_d: i32, path: *const c_char, _f: i32, _m: u32, _b: *mut u8) -> i32 {
    if path.is_null() {
        return set_errno(ENOSYS);
    }
    set_errno(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, _out: *mut c_char) -> *mut c_char {
    let w = w();
    let mut p = w.resolve(cstr(path));
    if cstr(path).is_empty() {
        set_errno(ENOENT);
        return std::ptr::null_mut();
    }
    if let Some(i) = w.find(&p) {
        if let Some((t, false)) = w.nodes[i].link.clone() {
            p = t;
        }
    }
    if p != b"/" && w.look(&p).is_none() {
        set_errno(ENOENT);
        return std::ptr::null_mut();
    }
    if cstr(path).last() == Some(&b'/') {
        if let Some(i) = w.find(&p) {
            if !w.nodes[i].dir {
                set_errno(ENOTDIR);
                return std::ptr::null_mut();
            }
        }
    }
    extern "C" {
        fn malloc(n: usize) -> *mut u8;
    }
    let o = malloc(p.len() + 1);
    std::ptr::copy_nonoverlapping(p.as_ptr(), o, p.len());
    *o.add(p.len()) = 0;
    o as *mut c_char
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(n: i32, cmd: i32, arg: i64) -> i32 {
    if n < FD0 {
        return kernel(72, n as i64, cmd as i64, arg, 0, 0) as i32;
    }
    0
}

// ------------------------------------------------------------ environment

static mut ENVBUF: Vec<Vec<u8>> = Vec::new();
static mut ENVPTR: Vec<*const c_char> = Vec::new();
#[no_mangle]
pub static mut environ: *const *const c_char = std::ptr::null();

impl World {
    /// publishes `env`
    pub fn publish(&mut self) {
        unsafe {
            ENVBUF.clear();
            ENVPTR.clear();
            for (k, v) in &self.env {
                ENVBUF.push([&k[..], b"=", &v[..], b"\0"].concat());
            }
            for b in &ENVBUF {
                ENVPTR.push(b.as_ptr() as *const c_char);
            }
            ENVPTR.push(std::ptr::null());
            environ = ENVPTR.as_ptr();
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getenv(k: *const c_char) -> *const c_char {
    let k = cstr(k);
    for (i, (n, _)) in w().env.iter().enumerate() {
        if n.len() == k.len() && &n[..] == k {
            return ENVBUF[i].as_ptr().add(n.len() + 1) as *const c_char;
        }
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const c_char, v: *const c_char, over: i32) -> i32 {
    let (k, v) = (cstr(k).to_vec(), cstr(v).to_vec());
    let w = w();
    match w.env.iter().position(|e| e.0 == k) {
        Some(i) if over != 0 => w.env[i].1 = v,
        Some(_) => {}
        None => w.env.push((k, v)),
    }
    w.publish();
    0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const c_char) -> i32 {
    let k = cstr(k);
    w().env.retain(|e| e.0 != k);
    w().publish();
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_n: i32) -> i32 {
    set_errno(25);
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(_n: i32, _r: u64, _a: *mut u8) -> i32 {
    set_errno(25)
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(_u: u32, _p: *mut u8, _b: *mut c_char, _n: usize, r: *mut *mut u8) -> i32 {
    *r = std::ptr::null_mut();
    0
}

// ------------------------------------------------------------ browser

#[no_mangle]
pub unsafe extern "C" fn chrome_fails(_step: u32) -> u32 {
    let w = w();
    if w.chrome_faults == 0 || sym::choose(2) == 0 {
        return 0;
    }
    w.chrome_faults -= 1;
    w.chrome_failed = true;
    1
}
#[no_mangle]
pub unsafe extern "C" fn chrome_load(url: *const u8, len: usize, last: u32) -> u32 {
    let w = w();
    // the page may load at once or only when it is waited for
    if last == 0 && sym::choose(2) == 0 {
        return 0;
    }
    let u = std::slice::from_raw_parts(url, len);
    let page = if len > 7 && &u[..7] == b"file://" {
        let p = w.resolve(&u[7..]);
        match w.look(&p) {
            Some(i) if !w.nodes[i].dir => w.nodes[i].data.clone(),
            _ => b"ERR_FILE_NOT_FOUND".to_vec(),
        }
    } else {
        b"ERR_INVALID_URL".to_vec()
    };
    w.pages.push(page);
    w.pages.len() as u32
}
/// what the browser prints for a page
pub fn printed(page: &[u8]) -> Vec<u8> {
    let mut v = b"%PDF".to_vec();
    for b in page {
        v.push(b ^ 1);
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn chrome_print(page: u32, buf: *mut u8, cap: usize) -> usize {
    let p = if page == 0 { b"BLANK" as &[u8] } else { &w().pages[page as usize - 1] };
    let v = printed(p);
    assert!(v.len() <= cap);
    std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
    v.len()
}

// ------------------------------------------------------------ threads

/// Thread-local keys of the one thread; it never ends before the program does,
/// so their destructors do not run.
#[cfg(not(feature = "replay"))]
mod threads {
    static mut KEYS: [*mut u8; 64] = [std::ptr::null_mut(); 64];
    static mut NEXT: u32 = 1;
    #[no_mangle]
    pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _f: *const u8) -> i32 {
        *k = NEXT;
        NEXT += 1;
        0
    }
    #[no_mangle]
    pub extern "C" fn pthread_key_delete(_k: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_setspecific(k: u32, v: *mut u8) -> i32 {
        KEYS[k as usize] = v;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_getspecific(k: u32) -> *mut u8 {
        KEYS[k as usize]
    }
}

/// the C library's description of an error
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(e: i32, b: *mut u8, _n: usize) -> i32 {
    let m: &[u8] = match e {
        EPERM => b"Operation not permitted\0",
        ENOENT => b"No such file or directory\0",
        EINTR => b"Interrupted system call\0",
        EIO => b"Input/output error\0",
        EBADF => b"Bad file descriptor\0",
        EAGAIN => b"Resource temporarily unavailable\0",
        EACCES => b"Permission denied\0",
        EBUSY => b"Device or resource busy\0",
        EEXIST => b"File exists\0",
        ENOTDIR => b"Not a directory\0",
        EISDIR => b"Is a directory\0",
        EINVAL => b"Invalid argument\0",
        EMFILE => b"Too many open files\0",
        ENOSPC => b"No space left on device\0",
        EROFS => b"Read-only file system\0",
        EPIPE => b"Broken pipe\0",
        ENOTEMPTY => b"Directory not empty\0",
        ELOOP => b"Too many levels of symbolic links\0",
        EDQUOT => b"Disk quota exceeded\0",
        _ => b"Unknown error\0",
    };
    std::ptr::copy_nonoverlapping(m.as_ptr(), b, m.len());
    0
}
