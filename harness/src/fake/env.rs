//! Stand-ins used only inside the executor (see tools/overrides.txt).
use std::ffi::{c_char, c_int, c_void};

extern "C" {
    fn sqlite3_open(name: *const c_char, db: *mut *mut c_void) -> c_int;
}
/// Every connection of the process shares one in-memory database.
#[no_mangle]
pub unsafe extern "C" fn h_sqlite3_open_v2(_name: *const c_char, db: *mut *mut c_void, _flags: c_int, _vfs: *const c_char) -> c_int {
    let name = b"file:/vdb?vfs=memdb\0".as_ptr() as *const c_char;
    if KEEPER.is_null() {
        // an in-memory database lives as long as some connection to it
        sqlite3_open(name, &mut *std::ptr::addr_of_mut!(KEEPER));
    }
    sqlite3_open(name, db)
}
static mut KEEPER: *mut c_void = std::ptr::null_mut();

// ------------------------------------------------------------------ a small file system
pub struct Node {
    pub path: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
    pub mode: u32,
}
struct Fd {
    path: Vec<u8>,
    pos: usize,
    append: bool,
    dir: Option<Vec<Vec<u8>>>,
}
#[derive(Default)]
pub struct Fs {
    pub nodes: Vec<Node>,
    fds: Vec<Option<Fd>>,
    /// Data written to the standard streams.
    pub out: Vec<u8>,
    /// What reading the standard input gives.
    pub stdin: Vec<u8>,
    pub mutations: usize,
    /// The process dies before its n-th change to the file system.
    pub crash_at: Option<usize>,
    dirent: [u64; 32],
}
static mut FS: Option<Fs> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { FS.get_or_insert_with(Fs::default) }
}
const ENOENT: c_int = 2;
const EBADF: c_int = 9;
const EEXIST: c_int = 17;
const ENOTDIR: c_int = 20;
const EISDIR: c_int = 21;
extern "C" {
    fn __errno_location() -> *mut c_int;
}
unsafe fn fail(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}
fn norm(p: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for part in p.split(|b| *b == b'/') {
        if part.is_empty() || part == b"." {
            continue;
        }
        if part == b".." {
            while let Some(b) = out.pop() {
                if b == b'/' {
                    break;
                }
            }
            continue;
        }
        out.push(b'/');
        out.extend_from_slice(part);
    }
    out
}
unsafe fn path(p: *const c_char) -> Vec<u8> {
    norm(std::ffi::CStr::from_ptr(p).to_bytes())
}
impl Fs {
    pub fn get(&mut self, p: &[u8]) -> Option<&mut Node> {
        self.nodes.iter_mut().find(|n| n.path == p)
    }
    pub fn put(&mut self, p: &str, data: &[u8], mode: u32) {
        let p = norm(p.as_bytes());
        let mut i = 1;
        while i < p.len() {
            if p[i] == b'/' {
                self.mkdirs(&p[..i]);
            }
            i += 1;
        }
        self.nodes.retain(|n| n.path != p);
        self.nodes.push(Node { path: p, dir: false, data: data.to_vec(), mode });
    }
    fn mkdirs(&mut self, p: &[u8]) {
        if self.get(p).is_none() {
            self.nodes.push(Node { path: p.to_vec(), dir: true, data: vec![], mode: 0o755 });
        }
    }
    pub fn read(&mut self, p: &str) -> Option<Vec<u8>> {
        let p = norm(p.as_bytes());
        self.get(&p).filter(|n| !n.dir).map(|n| n.data.clone())
    }
    fn is_dir(&mut self, p: &[u8]) -> bool {
        p.is_empty() || self.get(p).map_or(false, |n| n.dir)
    }
    fn parent_ok(&mut self, p: &[u8]) -> bool {
        let i = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
        let d = p[..i].to_vec();
        self.is_dir(&d)
    }
    fn mutate(&mut self) {
        if self.crash_at == Some(self.mutations) {
            crate::sym::crash();
        }
        self.mutations += 1;
    }
    fn fd(&mut self, f: Fd) -> c_int {
        for i in 0..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(f);
                return i as c_int + 10;
            }
        }
        self.fds.push(Some(f));
        self.fds.len() as c_int + 9
    }
    fn at(&mut self, fd: c_int) -> Option<&mut Fd> {
        if fd < 10 {
            return None;
        }
        self.fds.get_mut(fd as usize - 10)?.as_mut()
    }
}
#[no_mangle]
pub unsafe extern "C" fn vfs_mkdir(p: *const c_char, mode: u32) -> c_int {
    let p = path(p);
    if fs().is_dir(&p) || fs().get(&p).is_some() {
        return fail(EEXIST);
    }
    if !fs().parent_ok(&p) {
        return fail(ENOENT);
    }
    fs().mutate();
    fs().nodes.push(Node { path: p, dir: true, data: vec![], mode });
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let p = path(p);
    if p == b"/dev/null" {
        return fs().fd(Fd { path: p, pos: 0, append: true, dir: None });
    }
    let exists = fs().get(&p).map(|n| n.dir);
    match exists {
        Some(true) if flags & 3 != 0 => return fail(EISDIR),
        Some(_) if flags & 0o300 == 0o300 => return fail(EEXIST),
        Some(_) => {}
        None if flags & 0o100 == 0 => return fail(ENOENT),
        None => {
            if !fs().parent_ok(&p) {
                return fail(ENOENT);
            }
            fs().mutate();
            fs().nodes.push(Node { path: p.clone(), dir: false, data: vec![], mode });
        }
    }
    if flags & 0o1000 != 0 && exists.is_some() {
        fs().mutate();
        fs().get(&p).unwrap().data.clear();
    }
    fs().fd(Fd { path: p, pos: 0, append: flags & 0o2000 != 0, dir: None })
}
#[no_mangle]
pub unsafe extern "C" fn vfs_close(fd: c_int) -> c_int {
    if fd >= 10 {
        if let Some(x) = fs().fds.get_mut(fd as usize - 10) {
            *x = None;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if fd == 0 {
        let k = n.min(fs().stdin.len());
        std::ptr::copy_nonoverlapping(fs().stdin.as_ptr(), buf, k);
        fs().stdin.drain(..k);
        return k as isize;
    }
    let f = match fs().at(fd) {
        Some(f) => f,
        None => return fail(EBADF) as isize,
    };
    let p = f.path.clone();
    let pos = f.pos;
    if p.starts_with(b"|") {
        // the other end runs on another thread
        while fs().get(&p).map_or(0, |n| n.data.len()) <= pos && fs().fds.iter().flatten().any(|f| f.append && f.path == p) {
            std::thread::yield_now();
        }
    }
    let data = match fs().get(&p) {
        Some(x) => &x.data,
        None => return 0,
    };
    let k = n.min(data.len().saturating_sub(pos));
    std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, k);
    fs().at(fd).unwrap().pos += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn vfs_write(fd: c_int, buf: *const u8, n: usize) -> isize {
    let s = std::slice::from_raw_parts(buf, n);
    if fd == 1 || fd == 2 {
        return n as isize;
    }
    let f = match fs().at(fd) {
        Some(f) => f,
        None => return fail(EBADF) as isize,
    };
    let (p, mut pos, append) = (f.path.clone(), f.pos, f.append);
    fs().mutate();
    if let Some(x) = fs().get(&p) {
        if append {
            pos = x.data.len();
        }
        while x.data.len() < pos {
            x.data.push(0);
        }
        x.data.truncate(pos.max(x.data.len()));
        for (i, b) in s.iter().enumerate() {
            if pos + i < x.data.len() {
                x.data[pos + i] = *b;
            } else {
                x.data.push(*b);
            }
        }
    }
    fs().at(fd).unwrap().pos = pos + n;
    n as isize
}
#[repr(C)]
struct Iov {
    p: *const u8,
    n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn vfs_writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    let v = v as *const Iov;
    let mut t = 0;
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.n > 0 {
            let r = vfs_write(fd, x.p, x.n);
            if r < 0 {
                return r;
            }
            t += r;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn vfs_lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let f = match fs().at(fd) {
        Some(f) => f,
        None => return fail(EBADF) as i64,
    };
    let p = f.path.clone();
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => fs().get(&p).map_or(0, |n| n.data.len() as i64),
    };
    fs().at(fd).unwrap().pos = (base + off) as usize;
    base + off
}
unsafe fn fill_stat(p: &[u8], st: *mut u64) -> c_int {
    let (dir, len, mode) = if p.is_empty() {
        (true, 0, 0o755)
    } else {
        match fs().get(p) {
            Some(n) => (n.dir, n.data.len(), n.mode),
            None => return fail(ENOENT),
        }
    };
    // struct stat of x86_64 linux
    for i in 0..18 {
        *st.add(i) = 0;
    }
    *st.add(0) = 1;
    *st.add(1) = fs().nodes.iter().position(|n| n.path == p).map_or(1, |i| i as u64 + 2);
    *st.add(2) = 1;
    *(st.add(3) as *mut u32) = (if dir { 0o040000 } else { 0o100000 }) | (mode & 0o7777);
    *st.add(6) = len as u64;
    *st.add(7) = 4096;
    *st.add(11) = 1700000000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_stat64(p: *const c_char, st: *mut u64) -> c_int {
    fill_stat(&path(p), st)
}
#[no_mangle]
pub unsafe extern "C" fn vfs_fstat64(fd: c_int, st: *mut u64) -> c_int {
    let p = match fs().at(fd) {
        Some(f) => f.path.clone(),
        None => return fail(EBADF),
    };
    fill_stat(&p, st)
}
#[no_mangle]
pub unsafe extern "C" fn vfs_unlink(p: *const c_char) -> c_int {
    let p = path(p);
    match fs().get(&p) {
        Some(n) if !n.dir => {
            fs().mutate();
            fs().nodes.retain(|n| n.path != p);
            0
        }
        Some(_) => fail(EISDIR),
        None => fail(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn vfs_rmdir(p: *const c_char) -> c_int {
    let p = path(p);
    match fs().get(&p) {
        Some(n) if n.dir => {
            let mut pre = p.clone();
            pre.push(b'/');
            if fs().nodes.iter().any(|n| n.path.starts_with(&pre)) {
                return fail(39);
            }
            fs().mutate();
            fs().nodes.retain(|n| n.path != p);
            0
        }
        Some(_) => fail(ENOTDIR),
        None => fail(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn vfs_rename(a: *const c_char, b: *const c_char) -> c_int {
    let (a, b) = (path(a), path(b));
    if fs().get(&a).is_none() || !fs().parent_ok(&b) {
        return fail(ENOENT);
    }
    fs().mutate();
    if a == b {
        return 0;
    }
    fs().nodes.retain(|n| n.path != b);
    let mut pre = a.clone();
    pre.push(b'/');
    for n in fs().nodes.iter_mut() {
        if n.path == a || n.path.starts_with(&pre) {
            let mut q = b.clone();
            q.extend_from_slice(&n.path[a.len()..]);
            n.path = q;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_chmod(p: *const c_char, mode: u32) -> c_int {
    let p = path(p);
    match fs().get(&p) {
        Some(n) => {
            n.mode = mode & 0o7777;
            0
        }
        None => fail(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn vfs_fchmod(fd: c_int, mode: u32) -> c_int {
    let p = match fs().at(fd) {
        Some(f) => f.path.clone(),
        None => return fail(EBADF),
    };
    if let Some(n) = fs().get(&p) {
        n.mode = mode & 0o7777;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_ftruncate64(fd: c_int, len: i64) -> c_int {
    let p = match fs().at(fd) {
        Some(f) => f.path.clone(),
        None => return fail(EBADF),
    };
    fs().mutate();
    if let Some(n) = fs().get(&p) {
        n.data.resize(len as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_access(p: *const c_char, _mode: c_int) -> c_int {
    let p = path(p);
    if p.is_empty() || fs().get(&p).is_some() {
        0
    } else {
        fail(ENOENT)
    }
}
#[no_mangle]
pub unsafe extern "C" fn vfs_fsync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_readlink(_p: *const c_char, _b: *mut u8, _n: usize) -> isize {
    fail(22) as isize
}
extern "C" {
    fn malloc(n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn vfs_realpath(p: *const c_char, out: *mut u8) -> *mut u8 {
    let mut p = path(p);
    if !p.is_empty() && fs().get(&p).is_none() {
        fail(ENOENT);
        return std::ptr::null_mut();
    }
    if p.is_empty() {
        p.push(b'/');
    }
    p.push(0);
    let out = if out.is_null() { malloc(p.len()) } else { out };
    std::ptr::copy_nonoverlapping(p.as_ptr(), out, p.len());
    out
}
#[no_mangle]
pub unsafe extern "C" fn vfs_getcwd(out: *mut u8, _n: usize) -> *mut u8 {
    *out = b'/';
    *out.add(1) = b'r';
    *out.add(2) = 0;
    out
}
#[no_mangle]
pub unsafe extern "C" fn vfs_opendir(p: *const c_char) -> *mut c_void {
    let p = path(p);
    if !fs().is_dir(&p) {
        fail(ENOENT);
        return std::ptr::null_mut();
    }
    let mut pre = p.clone();
    pre.push(b'/');
    let names = fs()
        .nodes
        .iter()
        .filter(|n| n.path.starts_with(&pre) && !n.path[pre.len()..].contains(&b'/'))
        .map(|n| n.path[pre.len()..].to_vec())
        .collect();
    fs().fd(Fd { path: p, pos: 0, append: false, dir: Some(names) }) as usize as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn vfs_readdir64(d: *mut c_void) -> *mut c_void {
    let f = match fs().at(d as usize as c_int) {
        Some(f) => f,
        None => return std::ptr::null_mut(),
    };
    let names = f.dir.as_ref().unwrap();
    if f.pos >= names.len() {
        return std::ptr::null_mut();
    }
    let mut n = names[f.pos].clone();
    n.push(0);
    f.pos += 1;
    let e = fs().dirent.as_mut_ptr() as *mut u8;
    for i in 0..19 {
        *e.add(i) = 0;
    }
    *e = 1;
    std::ptr::copy_nonoverlapping(n.as_ptr(), e.add(19), n.len());
    e as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn vfs_closedir(d: *mut c_void) -> c_int {
    vfs_close(d as usize as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn vfs_pipe2(fds: *mut c_int, _flags: c_int) -> c_int {
    let p = format!("|{}", fs().nodes.len()).into_bytes();
    fs().nodes.push(Node { path: p.clone(), dir: false, data: vec![], mode: 0 });
    *fds = fs().fd(Fd { path: p.clone(), pos: 0, append: false, dir: None });
    *fds.add(1) = fs().fd(Fd { path: p, pos: 0, append: true, dir: None });
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_dup(fd: c_int) -> c_int {
    let f = match fs().at(fd) {
        Some(f) => Fd { path: f.path.clone(), pos: f.pos, append: f.append, dir: None },
        None => return fail(EBADF),
    };
    fs().fd(f)
}
#[no_mangle]
pub unsafe extern "C" fn vfs_fcntl(fd: c_int, cmd: c_int) -> c_int {
    if cmd == 0 || cmd == 1030 {
        return vfs_dup(fd);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn vfs_ioctl(_fd: c_int, _req: u64) -> c_int {
    0
}
/// Everything is always ready: reads block by themselves, one stream after the other.
#[no_mangle]
pub unsafe extern "C" fn vfs_poll(p: *mut c_void, n: u64, _timeout: c_int) -> c_int {
    let p = p as *mut [u16; 4];
    for i in 0..n as usize {
        (*p.add(i))[3] = (*p.add(i))[2];
    }
    n as c_int
}
#[no_mangle]
pub unsafe extern "C" fn l_gnu_get_libc_version() -> *const u8 {
    b"2.35\0".as_ptr()
}

static mut TX: Vec<u8> = vec![];
/// The environment variable that ties a hook to the command that ran it.
#[allow(static_mut_refs)]
pub fn set_tx(id: Option<&[u8]>) {
    unsafe {
        TX = id.map_or(vec![], |i| {
            let mut v = i.to_vec();
            v.push(0);
            v
        })
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn l_getenv(name: *const c_char) -> *const u8 {
    match std::ffi::CStr::from_ptr(name).to_bytes() {
        b"PATH" => b"/bin\0".as_ptr(),
        b"BRANCHLESS_TRANSACTION_ID" if !TX.is_empty() => TX.as_ptr(),
        _ => std::ptr::null(),
    }
}

/// tempfile renames by a raw system call.
#[no_mangle]
pub fn h_tempfile_persist(old: &std::path::Path, new: &std::path::Path, _overwrite: bool) -> std::io::Result<()> {
    std::fs::rename(old, new)
}
