//! An in-memory stand-in for libgit2, at its C interface. Objects are identified by small
//! artificial ids; identical objects get identical ids, like in a content-addressed store.
#![allow(clippy::missing_safety_doc)]
use libgit2_sys as raw;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::ptr;

pub const COMMIT: u8 = 0xc0;
pub const TREE: u8 = 0x70;
pub const BLOB: u8 = 0xb0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct O(pub [u8; 20]);

/// Id of the n-th object of a kind: two leading bytes differ, so abbreviations are unambiguous.
pub fn oid(kind: u8, n: usize) -> O {
    let mut id = [0x5a; 20];
    id[0] = kind;
    id[1] = n as u8;
    O(id)
}
impl O {
    pub fn raw(self) -> raw::git_oid {
        raw::git_oid { id: self.0 }
    }
    pub fn g2(self) -> git2::Oid {
        git2::Oid::from_bytes(&self.0).unwrap()
    }
    pub fn nz(self) -> lib::git::NonZeroOid {
        lib::git::NonZeroOid::from_bytes(&self.0).expect("oid")
    }
    pub fn mz(self) -> lib::git::MaybeZeroOid {
        lib::git::MaybeZeroOid::NonZero(self.nz())
    }
    pub fn index(self) -> usize {
        self.0[1] as usize
    }
}
pub trait Nz: Sized {
    fn from_bytes(b: &[u8; 20]) -> Option<Self>;
}
impl Nz for lib::git::NonZeroOid {
    fn from_bytes(b: &[u8; 20]) -> Option<Self> {
        let m: lib::git::MaybeZeroOid = git2::Oid::from_bytes(b).ok()?.into();
        match m {
            lib::git::MaybeZeroOid::NonZero(x) => Some(x),
            lib::git::MaybeZeroOid::Zero => None,
        }
    }
}
pub fn of(o: lib::git::NonZeroOid) -> O {
    let mut id = [0u8; 20];
    id.copy_from_slice(o.as_bytes());
    O(id)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sig {
    pub name: Vec<u8>,
    pub email: Vec<u8>,
    pub time: i64,
    pub offset: i32,
}
impl Sig {
    pub fn new(name: &str, time: i64) -> Sig {
        Sig { name: cs(name), email: cs("t@e.com"), time, offset: 0 }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Commit {
    pub parents: Vec<O>,
    pub tree: O,
    /// NUL-terminated
    pub message: Vec<u8>,
    pub author: Sig,
    pub committer: Sig,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    /// NUL-terminated
    pub name: Vec<u8>,
    pub mode: u32,
    pub oid: O,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RefVal {
    Direct(O),
    Symbolic(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct IndexEntry {
    pub path: Vec<u8>,
    pub mode: u32,
    pub oid: O,
    pub stage: u8,
}
#[derive(Default)]
pub struct World {
    pub commits: Vec<Commit>,
    pub trees: Vec<Vec<Entry>>,
    pub blobs: Vec<Vec<u8>>,
    /// NUL-terminated names, including HEAD
    pub refs: Vec<(Vec<u8>, RefVal)>,
    pub config: Vec<(Vec<u8>, Vec<u8>)>,
    pub user_config: Vec<(Vec<u8>, Vec<u8>)>,
    /// Path and contents of a configuration file that was opened on its own.
    pub file_config: (Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
    pub index: Vec<IndexEntry>,
    pub state: i32,
    /// Fails the n-th ref write when set.
    pub ref_writes: usize,
    pub fail_ref_write: Option<usize>,
    /// Objects that have been pruned.
    pub missing: Vec<O>,
    /// Merges file contents where all three versions differ: (base, ours, theirs).
    pub merge_blobs: Option<fn(Option<O>, O, O) -> Option<O>>,
    pub remotes: Vec<Vec<u8>>,
    /// What fetching does to remote branches.
    pub fetch: Vec<(Vec<u8>, O)>,
    /// What is on the servers: remote, branch and commit.
    pub servers: Vec<(Vec<u8>, Vec<u8>, O)>,
    /// What somebody else puts there right after the next fetch.
    pub race: Vec<(usize, O)>,
    /// Output of `git status` (what comes before the files if there is a working copy).
    pub status: Vec<u8>,
    /// Are files and index modelled?
    pub wt: bool,
    /// Files on disk which are executable.
    pub exec: Vec<Vec<u8>>,
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.get_or_insert_with(World::default) }
}

pub fn cs(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.push(0);
    v
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes_with_nul()
}

impl World {
    pub fn add_commit(&mut self, c: Commit) -> O {
        for i in 0..self.commits.len() {
            if self.commits[i] == c {
                return oid(COMMIT, i);
            }
        }
        self.commits.push(c);
        oid(COMMIT, self.commits.len() - 1)
    }
    /// Entries are stored in git's order.
    pub fn add_tree(&mut self, mut t: Vec<Entry>) -> O {
        t.sort_by(|a, b| {
            let k = |e: &Entry| {
                let mut n = e.name[..e.name.len() - 1].to_vec();
                if e.mode == 0o040000 {
                    n.push(b'/');
                }
                n
            };
            k(a).cmp(&k(b))
        });
        for i in 0..self.trees.len() {
            if self.trees[i] == t {
                return oid(TREE, i);
            }
        }
        self.trees.push(t);
        oid(TREE, self.trees.len() - 1)
    }
    pub fn add_blob(&mut self, b: &[u8]) -> O {
        for i in 0..self.blobs.len() {
            if self.blobs[i] == b {
                return oid(BLOB, i);
            }
        }
        self.blobs.push(b.to_vec());
        oid(BLOB, self.blobs.len() - 1)
    }
    pub fn find(&self, kind: u8, id: &O) -> Option<usize> {
        let n = match kind {
            COMMIT => self.commits.len(),
            TREE => self.trees.len(),
            _ => self.blobs.len(),
        };
        if id.0[0] != kind || id.0[2] != 0x5a || id.0[19] != 0x5a {
            return None;
        }
        let i = crate::sym::fork(id.0[1] as u64) as usize;
        if i >= n || self.missing.iter().any(|m| *m == oid(kind, i)) {
            return None;
        }
        Some(i)
    }
    pub fn get_ref(&self, name: &[u8]) -> Option<&RefVal> {
        self.refs.iter().find(|(n, _)| n == name).map(|(_, v)| v)
    }
    pub fn ref_oid(&self, name: &str) -> Option<O> {
        self.resolve(&cs(name))
    }
    pub fn resolve(&self, name: &[u8]) -> Option<O> {
        match self.get_ref(name)? {
            RefVal::Direct(o) => Some(*o),
            RefVal::Symbolic(n) => {
                let n = n.clone();
                self.resolve(&n)
            }
        }
    }
    pub fn set_ref(&mut self, name: &[u8], v: RefVal) {
        for (n, x) in self.refs.iter_mut() {
            if n == name {
                *x = v;
                return;
            }
        }
        self.refs.push((name.to_vec(), v));
        self.refs.sort_by(|a, b| a.0.cmp(&b.0));
    }
    pub fn del_ref(&mut self, name: &[u8]) {
        self.refs.retain(|(n, _)| n != name);
    }
    pub fn config_set(&mut self, k: &str, v: &str) {
        self.config.push((cs(k), cs(v)));
    }
    pub fn is_ancestor(&self, a: O, d: O) -> bool {
        if a == d {
            return true;
        }
        let ps = self.commits[d.index()].parents.clone();
        ps.into_iter().any(|p| self.is_ancestor(a, p))
    }
}

// ------------------------------------------------------------------ errors and library state
struct SyncErr(raw::git_error);
unsafe impl Sync for SyncErr {}
static ERR: SyncErr = SyncErr(raw::git_error { message: b"fake\0".as_ptr() as *mut c_char, klass: 0 });
const ENOTFOUND: c_int = -3;
const EEXISTS: c_int = -4;

#[no_mangle]
pub extern "C" fn git_libgit2_init() -> c_int {
    1
}
#[no_mangle]
pub extern "C" fn git_error_last() -> *const raw::git_error {
    &ERR.0
}
#[no_mangle]
pub extern "C" fn git_error_clear() {}
#[no_mangle]
pub unsafe extern "C" fn git_error_set_str(_: c_int, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_buf_dispose(b: *mut raw::git_buf) {
    if !(*b).ptr.is_null() && (*b).reserved > 0 {
        drop(Vec::from_raw_parts((*b).ptr as *mut u8, (*b).reserved, (*b).reserved));
    }
    (*b).ptr = ptr::null_mut();
    (*b).size = 0;
    (*b).reserved = 0;
}
unsafe fn put_buf(b: *mut raw::git_buf, s: &[u8]) {
    let mut v = s.to_vec();
    if v.last() != Some(&0) {
        v.push(0);
    }
    let bx = v.into_boxed_slice();
    (*b).size = bx.len() - 1;
    (*b).reserved = bx.len();
    (*b).ptr = Box::into_raw(bx) as *mut c_char;
}

// ------------------------------------------------------------------ ids
#[no_mangle]
pub unsafe extern "C" fn git_oid_fromraw(out: *mut raw::git_oid, p: *const u8) -> c_int {
    ptr::copy_nonoverlapping(p, (*out).id.as_mut_ptr(), 20);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_oid_equal(a: *const raw::git_oid, b: *const raw::git_oid) -> c_int {
    ((*a).id == (*b).id) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_oid_cmp(a: *const raw::git_oid, b: *const raw::git_oid) -> c_int {
    (*a).id.cmp(&(*b).id) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_oid_iszero(a: *const raw::git_oid) -> c_int {
    ((*a).id == [0; 20]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_oid_tostr(out: *mut c_char, n: usize, a: *const raw::git_oid) -> *mut c_char {
    let mut k = 0;
    for b in (*a).id {
        for d in [b >> 4, b & 15] {
            if k + 1 < n {
                // no branch on the digit: it may be symbolic
                *out.add(k) = d.wrapping_add(b'0').wrapping_add((d > 9) as u8 * 39) as c_char;
                k += 1;
            }
        }
    }
    if n > 0 {
        *out.add(k) = 0;
    }
    out
}
#[no_mangle]
pub unsafe extern "C" fn git_oid_fromstrn(out: *mut raw::git_oid, s: *const c_char, n: usize) -> c_int {
    if n == 0 || n > 40 {
        return -1;
    }
    let mut id = [0u8; 20];
    let mut ok = true;
    for i in 0..n {
        let c = *s.add(i) as u8;
        ok &= ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
        let d = (c & 15).wrapping_add((c >> 6) * 9) & 15;
        id[i / 2] |= if i % 2 == 0 { d << 4 } else { d };
    }
    if !ok {
        return -1;
    }
    (*out).id = id;
    0
}

// ------------------------------------------------------------------ repository
/// Where file system effects of native replays go; the executor has no environment.
fn scratch(sub: &str) -> *const c_char {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/r".to_string());
    Box::leak(cs(&format!("{base}/{sub}")).into_boxed_slice()).as_ptr() as *const c_char
}
pub fn git_dir() -> std::path::PathBuf {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/r".to_string());
    std::path::PathBuf::from(base).join(".git")
}
static REPO: u8 = 0;
fn repo_ptr() -> *mut raw::git_repository {
    &REPO as *const u8 as *mut raw::git_repository
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_discover(out: *mut raw::git_buf, _: *const c_char, _: c_int, _: *const c_char) -> c_int {
    put_buf(out, cstr(scratch(".git/")));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_open(out: *mut *mut raw::git_repository, _: *const c_char) -> c_int {
    *out = repo_ptr();
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_open_ext(out: *mut *mut raw::git_repository, _: *const c_char, _: c_uint, _: *const c_char) -> c_int {
    *out = repo_ptr();
    0
}
#[no_mangle]
pub extern "C" fn git_repository_free(_: *mut raw::git_repository) {}
#[no_mangle]
pub extern "C" fn git_repository_path(_: *const raw::git_repository) -> *const c_char {
    scratch(".git/")
}
#[no_mangle]
pub extern "C" fn git_repository_commondir(_: *const raw::git_repository) -> *const c_char {
    scratch(".git/")
}
#[no_mangle]
pub extern "C" fn git_repository_workdir(_: *const raw::git_repository) -> *const c_char {
    scratch("")
}
#[no_mangle]
pub extern "C" fn git_repository_is_worktree(_: *const raw::git_repository) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn git_repository_is_bare(_: *const raw::git_repository) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn git_repository_is_shallow(_: *const raw::git_repository) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn git_repository_state(_: *mut raw::git_repository) -> c_int {
    if w().state == 0 && super::rebase::underway() {
        return raw::GIT_REPOSITORY_STATE_REBASE_INTERACTIVE as c_int;
    }
    w().state
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_head(out: *mut *mut raw::git_reference, _: *mut raw::git_repository) -> c_int {
    match w().resolve(b"HEAD\0") {
        None => ENOTFOUND,
        Some(_) => {
            let mut n = b"HEAD\0".to_vec();
            while let Some(RefVal::Symbolic(t)) = w().get_ref(&n) {
                n = t.clone();
            }
            *out = new_ref(&n);
            0
        }
    }
}
#[no_mangle]
pub extern "C" fn git_repository_head_detached(_: *mut raw::git_repository) -> c_int {
    matches!(w().get_ref(b"HEAD\0"), Some(RefVal::Direct(_))) as c_int
}
fn ref_write(name: &[u8], v: Option<RefVal>) -> c_int {
    let wd = w();
    let n = wd.ref_writes;
    wd.ref_writes += 1;
    if wd.fail_ref_write == Some(n) {
        return -1;
    }
    match v {
        Some(v) => wd.set_ref(name, v),
        None => wd.del_ref(name),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_set_head_detached(_: *mut raw::git_repository, o: *const raw::git_oid) -> c_int {
    ref_write(b"HEAD\0", Some(RefVal::Direct(O((*o).id))))
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_set_head(_: *mut raw::git_repository, n: *const c_char) -> c_int {
    ref_write(b"HEAD\0", Some(RefVal::Symbolic(cstr(n).to_vec())))
}

// ------------------------------------------------------------------ objects
pub struct Handle {
    kind: u8,
    idx: usize,
    oid: raw::git_oid,
    author: Option<Box<(Sig, raw::git_signature)>>,
    committer: Option<Box<(Sig, raw::git_signature)>>,
    text: Vec<u8>,
}
pub unsafe fn commit_index(p: *const raw::git_commit) -> usize {
    h(p).idx
}
pub unsafe fn tree_index(p: *const raw::git_tree) -> usize {
    h(p).idx
}
/// A C string without its terminator.
pub unsafe fn cstr0(p: *const c_char) -> Vec<u8> {
    let mut v = cstr(p).to_vec();
    if v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn handle(kind: u8, idx: usize) -> *mut Handle {
    Box::into_raw(Box::new(Handle { kind, idx, oid: oid(kind, idx).raw(), author: None, committer: None, text: vec![] }))
}
unsafe fn lookup<T>(out: *mut *mut T, kind: u8, id: *const raw::git_oid) -> c_int {
    match w().find(kind, &O((*id).id)) {
        Some(i) => {
            *out = handle(kind, i) as *mut T;
            0
        }
        None => ENOTFOUND,
    }
}
type R = *mut raw::git_repository;
#[no_mangle]
pub unsafe extern "C" fn git_commit_lookup(out: *mut *mut raw::git_commit, _: R, id: *const raw::git_oid) -> c_int {
    lookup(out, COMMIT, id)
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_lookup(out: *mut *mut raw::git_tree, _: R, id: *const raw::git_oid) -> c_int {
    lookup(out, TREE, id)
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_lookup(out: *mut *mut raw::git_blob, _: R, id: *const raw::git_oid) -> c_int {
    lookup(out, BLOB, id)
}
unsafe fn h<'a, T>(p: *const T) -> &'a mut Handle {
    &mut *(p as *mut Handle)
}
unsafe fn free<T>(p: *mut T) {
    drop(Box::from_raw(p as *mut Handle))
}
#[no_mangle]
pub unsafe extern "C" fn git_object_lookup(out: *mut *mut raw::git_object, _: R, id: *const raw::git_oid, _: c_int) -> c_int {
    for k in [COMMIT, TREE, BLOB] {
        if (*id).id[0] == k {
            return lookup(out, k, id);
        }
    }
    ENOTFOUND
}
#[no_mangle]
pub unsafe extern "C" fn git_object_free(p: *mut raw::git_object) {
    free(p)
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_free(p: *mut raw::git_commit) {
    free(p)
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_free(p: *mut raw::git_tree) {
    free(p)
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_free(p: *mut raw::git_blob) {
    free(p)
}
#[no_mangle]
pub unsafe extern "C" fn git_object_dup(out: *mut *mut raw::git_object, p: *mut raw::git_object) -> c_int {
    *out = handle(h(p).kind, h(p).idx) as *mut raw::git_object;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_object_id(p: *const raw::git_object) -> *const raw::git_oid {
    &h(p).oid
}
#[no_mangle]
pub unsafe extern "C" fn git_object_type(p: *const raw::git_object) -> c_int {
    match h(p).kind {
        COMMIT => 1,
        TREE => 2,
        _ => 3,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_object_short_id(out: *mut raw::git_buf, p: *const raw::git_object) -> c_int {
    let mut b = [0 as c_char; 8];
    git_oid_tostr(b.as_mut_ptr(), 8, &h(p).oid);
    let v: Vec<u8> = b.iter().map(|c| *c as u8).collect();
    put_buf(out, &v);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_object_peel(out: *mut *mut raw::git_object, p: *const raw::git_object, ty: c_int) -> c_int {
    let x = h(p);
    let have = git_object_type(p);
    if ty == have || ty == -2 {
        *out = handle(x.kind, x.idx) as *mut raw::git_object;
        return 0;
    }
    if have == 1 && ty == 2 {
        let t = w().commits[x.idx].tree.raw();
        return lookup(out, TREE, &t);
    }
    -12 // EINVALIDSPEC
}
unsafe fn c<'a>(p: *const raw::git_commit) -> &'a Commit {
    &w().commits[h(p).idx]
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_id(p: *const raw::git_commit) -> *const raw::git_oid {
    &h(p).oid
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_id(p: *const raw::git_tree) -> *const raw::git_oid {
    &h(p).oid
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_id(p: *const raw::git_blob) -> *const raw::git_oid {
    &h(p).oid
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_parentcount(p: *const raw::git_commit) -> c_uint {
    c(p).parents.len() as c_uint
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_parent_id(p: *const raw::git_commit, n: c_uint) -> *const raw::git_oid {
    match c(p).parents.get(n as usize) {
        Some(o) => o as *const O as *const raw::git_oid,
        None => ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_parent(out: *mut *mut raw::git_commit, p: *const raw::git_commit, n: c_uint) -> c_int {
    match c(p).parents.get(n as usize) {
        Some(o) => lookup(out, COMMIT, &o.raw()),
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_tree_id(p: *const raw::git_commit) -> *const raw::git_oid {
    &c(p).tree as *const O as *const raw::git_oid
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_tree(out: *mut *mut raw::git_tree, p: *const raw::git_commit) -> c_int {
    lookup(out, TREE, &c(p).tree.raw())
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_message(p: *const raw::git_commit) -> *const c_char {
    c(p).message.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_message_raw(p: *const raw::git_commit) -> *const c_char {
    c(p).message.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_message_encoding(_: *const raw::git_commit) -> *const c_char {
    ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_summary(p: *mut raw::git_commit) -> *const c_char {
    let m = &c(p).message;
    let mut t: Vec<u8> = m[..m.len() - 1].iter().copied().take_while(|b| *b != b'\n').collect();
    t.push(0);
    h(p).text = t;
    h(p).text.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_time(p: *const raw::git_commit) -> i64 {
    c(p).committer.time
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_time_offset(p: *const raw::git_commit) -> c_int {
    c(p).committer.offset
}
fn raw_sig(s: &Sig) -> raw::git_signature {
    raw::git_signature {
        name: s.name.as_ptr() as *mut c_char,
        email: s.email.as_ptr() as *mut c_char,
        when: raw::git_time { time: s.time, offset: s.offset, sign: if s.offset < 0 { b'-' } else { b'+' } as c_char },
    }
}
fn own_sig(s: &Sig) -> Box<(Sig, raw::git_signature)> {
    let s = s.clone();
    let r = raw_sig(&s);
    Box::new((s, r))
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_author(p: *const raw::git_commit) -> *const raw::git_signature {
    if h(p).author.is_none() {
        h(p).author = Some(own_sig(&c(p).author));
    }
    &h(p).author.as_ref().unwrap().1
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_committer(p: *const raw::git_commit) -> *const raw::git_signature {
    if h(p).committer.is_none() {
        h(p).committer = Some(own_sig(&c(p).committer));
    }
    &h(p).committer.as_ref().unwrap().1
}
unsafe fn from_sig(s: *const raw::git_signature) -> Sig {
    Sig { name: cstr((*s).name).to_vec(), email: cstr((*s).email).to_vec(), time: (*s).when.time, offset: (*s).when.offset }
}
// a signature handed out by us keeps its strings behind it
#[repr(C)]
struct OwnedSig {
    raw: raw::git_signature,
    sig: Sig,
}
fn new_sig(s: Sig) -> *mut raw::git_signature {
    let raw = raw_sig(&s);
    Box::into_raw(Box::new(OwnedSig { raw, sig: s })) as *mut raw::git_signature
}
#[no_mangle]
pub unsafe extern "C" fn git_signature_new(out: *mut *mut raw::git_signature, n: *const c_char, e: *const c_char, t: i64, off: c_int) -> c_int {
    *out = new_sig(Sig { name: cstr(n).to_vec(), email: cstr(e).to_vec(), time: t, offset: off });
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_signature_now(out: *mut *mut raw::git_signature, n: *const c_char, e: *const c_char) -> c_int {
    git_signature_new(out, n, e, 1700000000, 0)
}
#[no_mangle]
pub unsafe extern "C" fn git_signature_dup(out: *mut *mut raw::git_signature, s: *const raw::git_signature) -> c_int {
    *out = new_sig(from_sig(s));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_signature_free(s: *mut raw::git_signature) {
    let b = Box::from_raw(s as *mut OwnedSig);
    let _ = &b.sig;
}
#[no_mangle]
pub unsafe extern "C" fn git_signature_default(out: *mut *mut raw::git_signature, _: R) -> c_int {
    *out = new_sig(Sig::new("me", 1700000000));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_create(
    out: *mut raw::git_oid,
    _: R,
    update_ref: *const c_char,
    author: *const raw::git_signature,
    committer: *const raw::git_signature,
    _enc: *const c_char,
    message: *const c_char,
    tree: *const raw::git_tree,
    n: usize,
    parents: *mut *const raw::git_commit,
) -> c_int {
    let mut ps = vec![];
    for i in 0..n {
        ps.push(O((*git_commit_id(*parents.add(i))).id));
    }
    let new = w().add_commit(Commit {
        parents: ps,
        tree: O((*git_tree_id(tree)).id),
        message: cstr(message).to_vec(),
        author: from_sig(author),
        committer: from_sig(committer),
    });
    *out = new.raw();
    if !update_ref.is_null() {
        return ref_write(cstr(update_ref), Some(RefVal::Direct(new)));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_commit_amend(
    out: *mut raw::git_oid,
    old: *const raw::git_commit,
    update_ref: *const c_char,
    author: *const raw::git_signature,
    committer: *const raw::git_signature,
    _enc: *const c_char,
    message: *const c_char,
    tree: *const raw::git_tree,
) -> c_int {
    let old_oid = O((*git_commit_id(old)).id);
    let com = &w().commits[old_oid.index()];
    let new = Commit {
        parents: com.parents.clone(),
        tree: if tree.is_null() { com.tree } else { O((*git_tree_id(tree)).id) },
        message: if message.is_null() { com.message.clone() } else { cstr(message).to_vec() },
        author: if author.is_null() { com.author.clone() } else { from_sig(author) },
        committer: if committer.is_null() { com.committer.clone() } else { from_sig(committer) },
    };
    if !update_ref.is_null() && w().ref_oid(std::str::from_utf8(cstr(update_ref)).unwrap()) != Some(old_oid) {
        return -15; // GIT_EMODIFIED
    }
    let new = w().add_commit(new);
    *out = new.raw();
    if !update_ref.is_null() {
        return ref_write(cstr(update_ref), Some(RefVal::Direct(new)));
    }
    0
}
/// Follows libgit2's own implementation.
#[no_mangle]
pub unsafe extern "C" fn git_message_prettify(out: *mut raw::git_buf, message: *const c_char, strip: c_int, comment: c_char) -> c_int {
    let m = CStr::from_ptr(message).to_bytes();
    let mut o: Vec<u8> = vec![];
    let mut empty = false;
    for line in m.split_inclusive(|b| *b == b'\n') {
        if strip != 0 && line[0] == comment as u8 {
            continue;
        }
        let n = line.iter().rposition(|b| !matches!(b, b' ' | 9..=13)).map_or(0, |k| k + 1);
        if n == 0 {
            empty = true;
            continue;
        }
        if empty && !o.is_empty() {
            o.push(b'\n');
        }
        empty = false;
        o.extend_from_slice(&line[..n]);
        o.push(b'\n');
    }
    put_buf(out, &o);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_rawcontent(p: *const raw::git_blob) -> *const c_void {
    w().blobs[h(p).idx].as_ptr() as *const c_void
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_rawsize(p: *const raw::git_blob) -> raw::git_object_size_t {
    w().blobs[h(p).idx].len() as raw::git_object_size_t
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_is_binary(p: *const raw::git_blob) -> c_int {
    w().blobs[h(p).idx].contains(&0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_create_frombuffer(out: *mut raw::git_oid, _: R, p: *const c_void, n: usize) -> c_int {
    let b = std::slice::from_raw_parts(p as *const u8, n);
    *out = w().add_blob(b).raw();
    0
}

// ------------------------------------------------------------------ trees
struct TreeEnt {
    e: Entry,
}
fn new_ent(e: &Entry) -> *mut raw::git_tree_entry {
    Box::into_raw(Box::new(TreeEnt { e: e.clone() })) as *mut raw::git_tree_entry
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entrycount(p: *const raw::git_tree) -> usize {
    w().trees[h(p).idx].len()
}
// borrowed entries stay valid as long as the tree: keep them forever
fn leak_ent(e: Option<&Entry>) -> *const raw::git_tree_entry {
    match e {
        Some(e) => new_ent(e),
        None => ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_byindex(p: *const raw::git_tree, i: usize) -> *const raw::git_tree_entry {
    leak_ent(w().trees[h(p).idx].get(i))
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_byname(p: *const raw::git_tree, n: *const c_char) -> *const raw::git_tree_entry {
    let n = cstr(n);
    leak_ent(w().trees[h(p).idx].iter().find(|e| e.name == n))
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_byid(p: *const raw::git_tree, id: *const raw::git_oid) -> *const raw::git_tree_entry {
    leak_ent(w().trees[h(p).idx].iter().find(|e| e.oid.0 == (*id).id))
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_bypath(out: *mut *mut raw::git_tree_entry, p: *const raw::git_tree, path: *const c_char) -> c_int {
    match w().lookup_path(oid(TREE, h(p).idx), cstr(path)) {
        Some(e) => {
            *out = new_ent(&e);
            0
        }
        None => ENOTFOUND,
    }
}
impl World {
    /// `path` is NUL-terminated.
    pub fn lookup_path(&self, tree: O, path: &[u8]) -> Option<Entry> {
        let path = &path[..path.len() - 1];
        let mut t = tree;
        let parts: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
        for (i, part) in parts.iter().enumerate() {
            let ti = self.find(TREE, &t)?;
            let mut found = None;
            for e in &self.trees[ti] {
                if &e.name[..e.name.len() - 1] == *part {
                    found = Some(e.clone());
                }
            }
            let e = found?;
            if i + 1 == parts.len() {
                return Some(e);
            }
            if e.mode != 0o040000 {
                return None;
            }
            t = e.oid;
        }
        None
    }
    pub fn files(&self, tree: O) -> Vec<(Vec<u8>, u32, O)> {
        let mut out = vec![];
        self.files_into(tree, vec![], &mut out);
        out
    }
    fn files_into(&self, tree: O, prefix: Vec<u8>, out: &mut Vec<(Vec<u8>, u32, O)>) {
        for e in self.trees[tree.index()].clone() {
            let mut p = prefix.clone();
            p.extend_from_slice(&e.name[..e.name.len() - 1]);
            if e.mode == 0o040000 {
                p.push(b'/');
                self.files_into(e.oid, p, out);
            } else {
                out.push((p, e.mode, e.oid));
            }
        }
    }
    /// Build a tree from full paths.
    pub fn tree_from_files(&mut self, files: &[(Vec<u8>, u32, O)]) -> O {
        let mut here: Vec<Entry> = vec![];
        let mut dirs: Vec<(Vec<u8>, Vec<(Vec<u8>, u32, O)>)> = vec![];
        for (p, m, o) in files {
            match p.iter().position(|b| *b == b'/') {
                None => {
                    let mut name = p.clone();
                    name.push(0);
                    here.push(Entry { name, mode: *m, oid: *o });
                }
                Some(i) => {
                    let d = p[..i].to_vec();
                    let rest = (p[i + 1..].to_vec(), *m, *o);
                    match dirs.iter_mut().find(|x| x.0 == d) {
                        Some(x) => x.1.push(rest),
                        None => dirs.push((d, vec![rest])),
                    }
                }
            }
        }
        for (d, fs) in dirs {
            let o = self.tree_from_files(&fs);
            let mut name = d;
            name.push(0);
            here.push(Entry { name, mode: 0o040000, oid: o });
        }
        self.add_tree(here)
    }
}
unsafe fn te<'a>(p: *const raw::git_tree_entry) -> &'a TreeEnt {
    &*(p as *const TreeEnt)
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_free(p: *mut raw::git_tree_entry) {
    drop(Box::from_raw(p as *mut TreeEnt))
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_dup(out: *mut *mut raw::git_tree_entry, p: *const raw::git_tree_entry) -> c_int {
    *out = new_ent(&te(p).e);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_id(p: *const raw::git_tree_entry) -> *const raw::git_oid {
    &te(p).e.oid as *const O as *const raw::git_oid
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_name(p: *const raw::git_tree_entry) -> *const c_char {
    te(p).e.name.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_filemode(p: *const raw::git_tree_entry) -> raw::git_filemode_t {
    te(p).e.mode as raw::git_filemode_t
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_filemode_raw(p: *const raw::git_tree_entry) -> raw::git_filemode_t {
    te(p).e.mode as raw::git_filemode_t
}
#[no_mangle]
pub unsafe extern "C" fn git_tree_entry_type(p: *const raw::git_tree_entry) -> c_int {
    match te(p).e.mode {
        0o040000 => 2,
        0o160000 => 1,
        _ => 3,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_new(out: *mut *mut raw::git_treebuilder, _: R, src: *const raw::git_tree) -> c_int {
    let v: Vec<Entry> = if src.is_null() { vec![] } else { w().trees[h(src).idx].clone() };
    *out = Box::into_raw(Box::new(v)) as *mut raw::git_treebuilder;
    0
}
unsafe fn tb<'a>(p: *mut raw::git_treebuilder) -> &'a mut Vec<Entry> {
    &mut *(p as *mut Vec<Entry>)
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_free(p: *mut raw::git_treebuilder) {
    drop(Box::from_raw(p as *mut Vec<Entry>))
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_entrycount(p: *mut raw::git_treebuilder) -> usize {
    tb(p).len()
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_clear(p: *mut raw::git_treebuilder) -> c_int {
    tb(p).clear();
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_get(p: *mut raw::git_treebuilder, n: *const c_char) -> *const raw::git_tree_entry {
    let n = cstr(n);
    leak_ent(tb(p).iter().find(|e| e.name == n))
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_insert(
    out: *mut *const raw::git_tree_entry,
    p: *mut raw::git_treebuilder,
    n: *const c_char,
    id: *const raw::git_oid,
    mode: raw::git_filemode_t,
) -> c_int {
    let name = cstr(n).to_vec();
    // names are validated and objects must exist, like with libgit2's strict object creation
    if name.len() == 1 || name.contains(&b'/') || name == b".\0" || name == b"..\0" || name == b".git\0" {
        return -1;
    }
    if !matches!(mode as u32, 0o040000 | 0o100644 | 0o100755 | 0o120000 | 0o160000) {
        return -1;
    }
    if mode as u32 != 0o160000 {
        let o = O((*id).id);
        if w().find(if mode as u32 == 0o040000 { TREE } else { BLOB }, &o).is_none() {
            return -1;
        }
    }
    tb(p).retain(|e| e.name != name);
    tb(p).push(Entry { name, mode: mode as u32, oid: O((*id).id) });
    if !out.is_null() {
        *out = new_ent(tb(p).last().unwrap());
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_remove(p: *mut raw::git_treebuilder, n: *const c_char) -> c_int {
    let n = cstr(n);
    let k = tb(p).len();
    tb(p).retain(|e| e.name != n);
    if tb(p).len() == k {
        -1
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_treebuilder_write(out: *mut raw::git_oid, p: *mut raw::git_treebuilder) -> c_int {
    *out = w().add_tree(tb(p).clone()).raw();
    0
}

// ------------------------------------------------------------------ references
struct RefH {
    name: Vec<u8>,
    val: RefVal,
    short: Vec<u8>,
}
fn new_ref(name: &[u8]) -> *mut raw::git_reference {
    let val = w().get_ref(name).unwrap().clone();
    let mut short = name;
    for p in [&b"refs/heads/"[..], b"refs/tags/", b"refs/remotes/", b"refs/"] {
        if name.starts_with(p) {
            short = &name[p.len()..];
            break;
        }
    }
    Box::into_raw(Box::new(RefH { name: name.to_vec(), val, short: short.to_vec() })) as *mut raw::git_reference
}
unsafe fn r<'a>(p: *const raw::git_reference) -> &'a mut RefH {
    &mut *(p as *mut RefH)
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_lookup(out: *mut *mut raw::git_reference, _: R, n: *const c_char) -> c_int {
    let n = cstr(n);
    if w().get_ref(n).is_none() {
        return ENOTFOUND;
    }
    *out = new_ref(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_free(p: *mut raw::git_reference) {
    drop(Box::from_raw(p as *mut RefH))
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_name(p: *const raw::git_reference) -> *const c_char {
    r(p).name.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_shorthand(p: *const raw::git_reference) -> *const c_char {
    r(p).short.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_type(p: *const raw::git_reference) -> raw::git_reference_t {
    match r(p).val {
        RefVal::Direct(_) => raw::GIT_REFERENCE_DIRECT,
        RefVal::Symbolic(_) => raw::GIT_REFERENCE_SYMBOLIC,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_target(p: *const raw::git_reference) -> *const raw::git_oid {
    match &r(p).val {
        RefVal::Direct(o) => o as *const O as *const raw::git_oid,
        RefVal::Symbolic(_) => ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_target_peel(_: *const raw::git_reference) -> *const raw::git_oid {
    ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_symbolic_target(p: *const raw::git_reference) -> *const c_char {
    match &r(p).val {
        RefVal::Direct(_) => ptr::null(),
        RefVal::Symbolic(n) => n.as_ptr() as *const c_char,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_is_branch(p: *const raw::git_reference) -> c_int {
    r(p).name.starts_with(b"refs/heads/") as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_is_remote(p: *const raw::git_reference) -> c_int {
    r(p).name.starts_with(b"refs/remotes/") as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_is_tag(p: *const raw::git_reference) -> c_int {
    r(p).name.starts_with(b"refs/tags/") as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_resolve(out: *mut *mut raw::git_reference, p: *const raw::git_reference) -> c_int {
    let mut n = r(p).name.clone();
    if let RefVal::Symbolic(t) = &r(p).val {
        n = t.clone();
    }
    loop {
        match w().get_ref(&n) {
            None => return ENOTFOUND,
            Some(RefVal::Direct(_)) => break,
            Some(RefVal::Symbolic(t)) => n = t.clone(),
        }
    }
    *out = new_ref(&n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_name_to_id(out: *mut raw::git_oid, _: R, n: *const c_char) -> c_int {
    match w().resolve(cstr(n)) {
        Some(o) => {
            *out = o.raw();
            0
        }
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_peel(out: *mut *mut raw::git_object, p: *const raw::git_reference, ty: c_int) -> c_int {
    let o = match &r(p).val {
        RefVal::Direct(o) => Some(*o),
        RefVal::Symbolic(n) => w().resolve(n),
    };
    let o = match o {
        Some(o) => o,
        None => return ENOTFOUND,
    };
    let mut obj: *mut raw::git_object = ptr::null_mut();
    let e = git_object_lookup(&mut obj, repo_ptr(), &o.raw(), -2);
    if e != 0 {
        return e;
    }
    let e = git_object_peel(out, obj, ty);
    git_object_free(obj);
    e
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_name_is_valid(out: *mut c_int, n: *const c_char) -> c_int {
    *out = valid_ref_name(cstr(n)) as c_int;
    0
}
fn valid_ref_name(n: &[u8]) -> bool {
    let n = &n[..n.len() - 1];
    if n.is_empty() || n[0] == b'/' || n[n.len() - 1] == b'/' || n[n.len() - 1] == b'.' || n == b"@" {
        return false;
    }
    if !n.contains(&b'/') {
        return n.iter().all(|b| b.is_ascii_uppercase() || *b == b'_');
    }
    for part in n.split(|b| *b == b'/') {
        if part.is_empty() || part[0] == b'.' || part.ends_with(b".lock") {
            return false;
        }
    }
    for i in 0..n.len() {
        let b = n[i];
        if b < 32 || b == 127 || b" ~^:?*[\\".contains(&b) {
            return false;
        }
        if i + 1 < n.len() && ((b == b'.' && n[i + 1] == b'.') || (b == b'@' && n[i + 1] == b'{')) {
            return false;
        }
    }
    true
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_create(
    out: *mut *mut raw::git_reference,
    _: R,
    n: *const c_char,
    id: *const raw::git_oid,
    force: c_int,
    _msg: *const c_char,
) -> c_int {
    let n = cstr(n);
    if !valid_ref_name(n) {
        return -12;
    }
    if force == 0 && w().get_ref(n).is_some() {
        return EEXISTS;
    }
    if w().find((*id).id[0], &O((*id).id)).is_none() {
        return -1;
    }
    let e = ref_write(n, Some(RefVal::Direct(O((*id).id))));
    if e != 0 {
        return e;
    }
    *out = new_ref(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_delete(p: *mut raw::git_reference) -> c_int {
    ref_write(&r(p).name, None)
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_set_target(
    out: *mut *mut raw::git_reference,
    p: *mut raw::git_reference,
    id: *const raw::git_oid,
    _msg: *const c_char,
) -> c_int {
    let n = r(p).name.clone();
    let e = ref_write(&n, Some(RefVal::Direct(O((*id).id))));
    if e != 0 {
        return e;
    }
    *out = new_ref(&n);
    0
}
struct RefIter {
    names: Vec<Vec<u8>>,
    pos: usize,
}
fn iter_over(f: impl Fn(&[u8]) -> bool) -> *mut RefIter {
    let names = w().refs.iter().map(|x| x.0.clone()).filter(|n| f(n)).collect();
    Box::into_raw(Box::new(RefIter { names, pos: 0 }))
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_iterator_new(out: *mut *mut raw::git_reference_iterator, _: R) -> c_int {
    *out = iter_over(|n| n.starts_with(b"refs/")) as *mut raw::git_reference_iterator;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_iterator_glob_new(out: *mut *mut raw::git_reference_iterator, _: R, glob: *const c_char) -> c_int {
    let g = cstr(glob).to_vec();
    let g: Vec<u8> = g.into_iter().filter(|b| *b != 0 && *b != b'*').collect();
    *out = iter_over(|n| n.starts_with(&g)) as *mut raw::git_reference_iterator;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_iterator_free(p: *mut raw::git_reference_iterator) {
    drop(Box::from_raw(p as *mut RefIter))
}
#[no_mangle]
pub unsafe extern "C" fn git_reference_next(out: *mut *mut raw::git_reference, p: *mut raw::git_reference_iterator) -> c_int {
    let it = &mut *(p as *mut RefIter);
    if it.pos >= it.names.len() {
        return -31; // ITEROVER
    }
    it.pos += 1;
    *out = new_ref(&it.names[it.pos - 1]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_iterator_new(out: *mut *mut raw::git_branch_iterator, _: R, ty: raw::git_branch_t) -> c_int {
    let (l, m) = (ty as i32 & 1 != 0, ty as i32 & 2 != 0);
    *out = iter_over(|n| (l && n.starts_with(b"refs/heads/")) || (m && n.starts_with(b"refs/remotes/"))) as *mut raw::git_branch_iterator;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_iterator_free(p: *mut raw::git_branch_iterator) {
    drop(Box::from_raw(p as *mut RefIter))
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_next(out: *mut *mut raw::git_reference, ty: *mut raw::git_branch_t, p: *mut raw::git_branch_iterator) -> c_int {
    let e = git_reference_next(out, p as *mut raw::git_reference_iterator);
    if e == 0 {
        *ty = if r(*out).name.starts_with(b"refs/heads/") { raw::GIT_BRANCH_LOCAL } else { raw::GIT_BRANCH_REMOTE };
    }
    e
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_lookup(out: *mut *mut raw::git_reference, _: R, n: *const c_char, ty: raw::git_branch_t) -> c_int {
    for (bit, p) in [(1, &b"refs/heads/"[..]), (2, b"refs/remotes/")] {
        if ty as i32 & bit != 0 {
            let full = [p, cstr(n)].concat();
            if w().get_ref(&full).is_some() {
                *out = new_ref(&full);
                return 0;
            }
        }
    }
    ENOTFOUND
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_name(out: *mut *const c_char, p: *const raw::git_reference) -> c_int {
    *out = r(p).short.as_ptr() as *const c_char;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_create(
    out: *mut *mut raw::git_reference,
    repo: R,
    n: *const c_char,
    commit: *const raw::git_commit,
    force: c_int,
) -> c_int {
    let full = [b"refs/heads/", cstr(n)].concat();
    git_reference_create(out, repo, full.as_ptr() as *const c_char, git_commit_id(commit), force, ptr::null())
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_delete(p: *mut raw::git_reference) -> c_int {
    let n = r(p).name.clone();
    if w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(n.clone())) {
        return -1;
    }
    ref_write(&n, None)
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_move(out: *mut *mut raw::git_reference, p: *mut raw::git_reference, n: *const c_char, force: c_int) -> c_int {
    let full = [b"refs/heads/", cstr(n)].concat();
    if force == 0 && w().get_ref(&full).is_some() {
        return EEXISTS;
    }
    let v = r(p).val.clone();
    let e = ref_write(&r(p).name, None);
    if e != 0 {
        return e;
    }
    let e = ref_write(&full, Some(v));
    if e != 0 {
        return e;
    }
    *out = new_ref(&full);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_is_head(p: *const raw::git_reference) -> c_int {
    (w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(r(p).name.clone()))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_branch_upstream(out: *mut *mut raw::git_reference, p: *const raw::git_reference) -> c_int {
    // branch "x" tracks "x" of its remote, or else of "origin", when that exists and is configured
    let key = |k: &[u8]| [b"branch.", &r(p).short[..r(p).short.len() - 1], k].concat();
    if !w().config.iter().any(|(k, _)| *k == key(b".merge\0")) {
        return ENOTFOUND;
    }
    let remote = w().config.iter().find(|(k, _)| *k == key(b".remote\0")).map_or(b"origin".to_vec(), |(_, v)| v[..v.len() - 1].to_vec());
    let full = [b"refs/remotes/", &remote[..], b"/", &r(p).short[..]].concat();
    if w().get_ref(&full).is_none() {
        return ENOTFOUND;
    }
    *out = new_ref(&full);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_revparse_single(out: *mut *mut raw::git_object, _: R, s: *const c_char) -> c_int {
    let n = cstr(s);
    match w().revparse(&n[..n.len() - 1]) {
        Some(o) => git_object_lookup(out, repo_ptr(), &o.raw(), -2),
        None => ENOTFOUND,
    }
}
impl World {
    /// Full ids, abbreviations of at least four digits, and reference names.
    pub fn revparse(&self, name: &[u8]) -> Option<O> {
        if name.len() >= 4 && name.len() <= 40 && name.iter().all(|b| b.is_ascii_hexdigit()) {
            let mut n = name.to_vec();
            n.push(0);
            let mut o = raw::git_oid { id: [0; 20] };
            unsafe { git_oid_fromstrn(&mut o, n.as_ptr() as *const c_char, name.len()) };
            let full = oid(o.id[0], o.id[1] as usize);
            let mut hex = [0 as c_char; 41];
            unsafe { git_oid_tostr(hex.as_mut_ptr(), 41, &full.raw()) };
            if (0..name.len()).all(|i| hex[i] as u8 == name[i].to_ascii_lowercase()) && self.find(full.0[0], &full).is_some() {
                return Some(full);
            }
        }
        for p in [&b""[..], b"refs/", b"refs/tags/", b"refs/heads/", b"refs/remotes/"] {
            let mut full = [p, name].concat();
            full.push(0);
            if let Some(o) = self.resolve(&full) {
                return Some(o);
            }
        }
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_merge_base(out: *mut raw::git_oid, _: R, a: *const raw::git_oid, b: *const raw::git_oid) -> c_int {
    match w().merge_base(O((*a).id), O((*b).id)) {
        Some(x) => {
            *out = x.raw();
            0
        }
        None => ENOTFOUND,
    }
}
impl World {
    /// A common ancestor that is not an ancestor of another one.
    pub fn merge_base(&self, a: O, b: O) -> Option<O> {
        let common: Vec<O> = (0..self.commits.len()).map(|i| oid(COMMIT, i)).filter(|x| self.is_ancestor(*x, a) && self.is_ancestor(*x, b)).collect();
        common.iter().copied().find(|x| !common.iter().any(|y| y != x && self.is_ancestor(*x, *y)))
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_graph_descendant_of(_: R, d: *const raw::git_oid, a: *const raw::git_oid) -> c_int {
    ((*d).id != (*a).id && w().is_ancestor(O((*a).id), O((*d).id))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn git_remote_list(out: *mut raw::git_strarray, _: R) -> c_int {
    let v: Vec<*mut c_char> = w().remotes.iter().map(|r| r.as_ptr() as *mut c_char).collect();
    let b = v.into_boxed_slice();
    (*out).count = b.len();
    (*out).strings = Box::into_raw(b) as *mut *mut c_char;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_strarray_dispose(_: *mut raw::git_strarray) {}
#[no_mangle]
pub unsafe extern "C" fn git_strarray_free(_: *mut raw::git_strarray) {}

// ------------------------------------------------------------------ configuration
/// The repository's configuration, the user's, and that of a file.
static CONFIG: [u8; 3] = [0; 3];
fn config_ptr(i: usize) -> *mut raw::git_config {
    &CONFIG[i] as *const u8 as *mut raw::git_config
}
fn config_list(c: *const raw::git_config) -> &'static mut Vec<(Vec<u8>, Vec<u8>)> {
    if c == config_ptr(1) {
        &mut w().user_config
    } else if c == config_ptr(2) {
        &mut w().file_config.1
    } else {
        &mut w().config
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_config(out: *mut *mut raw::git_config, _: R) -> c_int {
    *out = config_ptr(0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_config_snapshot(out: *mut *mut raw::git_config, c: *mut raw::git_config) -> c_int {
    *out = c;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_config_open_default(out: *mut *mut raw::git_config) -> c_int {
    *out = config_ptr(1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_config_open_ondisk(out: *mut *mut raw::git_config, p: *const c_char) -> c_int {
    let p = cstr0(p).to_vec();
    let exists = std::path::Path::new(std::str::from_utf8(&p).unwrap()).exists();
    if w().file_config.0 != p || !exists {
        w().file_config = (p, vec![]);
    }
    *out = config_ptr(2);
    0
}
#[no_mangle]
pub extern "C" fn git_config_free(_: *mut raw::git_config) {}
fn config_get(c: *const raw::git_config, k: &[u8]) -> Option<&'static [u8]> {
    let find = |l: &'static Vec<(Vec<u8>, Vec<u8>)>| l.iter().rev().find(|(n, _)| n == k).map(|x| &x.1[..]);
    find(config_list(c)).or_else(|| if c == config_ptr(0) { find(config_list(config_ptr(1))) } else { None })
}
#[no_mangle]
pub unsafe extern "C" fn git_config_get_string(out: *mut *const c_char, c: *const raw::git_config, n: *const c_char) -> c_int {
    match config_get(c, cstr(n)) {
        Some(v) => {
            *out = v.as_ptr() as *const c_char;
            0
        }
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_get_string_buf(out: *mut raw::git_buf, c: *const raw::git_config, n: *const c_char) -> c_int {
    match config_get(c, cstr(n)) {
        Some(v) => {
            put_buf(out, v);
            0
        }
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_get_bool(out: *mut c_int, c: *const raw::git_config, n: *const c_char) -> c_int {
    match config_get(c, cstr(n)) {
        Some(v) => {
            *out = (v == b"true\0") as c_int;
            0
        }
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_get_int32(out: *mut i32, c: *const raw::git_config, n: *const c_char) -> c_int {
    match config_get(c, cstr(n)) {
        Some(v) => {
            *out = v[..v.len() - 1].iter().fold(0, |a, b| a * 10 + (b - b'0') as i32);
            0
        }
        None => ENOTFOUND,
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_get_path(out: *mut raw::git_buf, c: *const raw::git_config, n: *const c_char) -> c_int {
    git_config_get_string_buf(out, c, n)
}
fn config_saved(c: *const raw::git_config) {
    if c == config_ptr(2) {
        std::fs::write(std::str::from_utf8(&w().file_config.0).unwrap(), b"").unwrap();
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_set_string(c: *mut raw::git_config, n: *const c_char, v: *const c_char) -> c_int {
    let (n, v) = (cstr(n).to_vec(), cstr(v).to_vec());
    let l = config_list(c);
    l.retain(|x| x.0 != n);
    l.push((n, v));
    config_saved(c);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_config_set_bool(c: *mut raw::git_config, n: *const c_char, v: c_int) -> c_int {
    git_config_set_string(c, n, if v != 0 { &b"true\0"[..] } else { b"false\0" }.as_ptr() as *const c_char)
}
#[no_mangle]
pub unsafe extern "C" fn git_config_delete_entry(c: *mut raw::git_config, n: *const c_char) -> c_int {
    let (l, n) = (config_list(c), cstr(n));
    let before = l.len();
    l.retain(|x| x.0 != n);
    config_saved(c);
    if l.len() < before { 0 } else { ENOTFOUND }
}
/// Only patterns of the form `^literal`, `literal` and `^literal$`.
fn config_matches(re: &[u8], v: &[u8]) -> bool {
    let start = re.first() == Some(&b'^');
    let end = re.last() == Some(&b'$');
    let lit = &re[start as usize..re.len() - end as usize];
    assert!(!lit.iter().any(|b| b"^$.*+?[](){}|\\".contains(b)), "pattern is not modelled");
    match (start, end) {
        (true, true) => v == lit,
        (true, false) => v.starts_with(lit),
        (false, true) => v.ends_with(lit),
        (false, false) => lit.is_empty() || v.windows(lit.len()).any(|x| x == lit),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_config_set_multivar(c: *mut raw::git_config, n: *const c_char, re: *const c_char, v: *const c_char) -> c_int {
    let (n, re, v) = (cstr(n).to_vec(), cstr0(re), cstr(v).to_vec());
    let l = config_list(c);
    let mut any = false;
    for x in l.iter_mut().filter(|x| x.0 == n) {
        if config_matches(&re, &x.1[..x.1.len() - 1]) {
            x.1 = v.clone();
            any = true;
        }
    }
    if !any {
        l.push((n, v));
    }
    config_saved(c);
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_config_delete_multivar(c: *mut raw::git_config, n: *const c_char, re: *const c_char) -> c_int {
    let (n, re, l) = (cstr(n), cstr0(re), config_list(c));
    let before = l.len();
    l.retain(|x| !(x.0 == n && config_matches(&re, &x.1[..x.1.len() - 1])));
    config_saved(c);
    if l.len() < before { 0 } else { ENOTFOUND }
}

// ------------------------------------------------------------------ messages
/// `Key: value` lines of the last paragraph (never the first one).
#[no_mangle]
pub unsafe extern "C" fn git_message_trailers(out: *mut raw::git_message_trailer_array, msg: *const c_char) -> c_int {
    let m = cstr0(msg);
    let end = m.iter().rposition(|b| *b != b'\n').map_or(0, |i| i + 1);
    let m = &m[..end];
    let start = m.windows(2).rposition(|x| x == b"\n\n").map(|i| i + 2);
    let mut list: Vec<raw::git_message_trailer> = vec![];
    if let Some(start) = start {
        for line in m[start..].split(|b| *b == b'\n') {
            let Some(colon) = line.iter().position(|b| *b == b':') else { continue };
            let key = &line[..colon];
            if key.is_empty() || !key.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'-') {
                continue;
            }
            let mut v = colon + 1;
            while v < line.len() && line[v] == b' ' {
                v += 1;
            }
            let leak = |s: &[u8]| {
                let mut s = s.to_vec();
                s.push(0);
                Box::leak(s.into_boxed_slice()).as_ptr() as *const c_char
            };
            list.push(raw::git_message_trailer { key: leak(key), value: leak(&line[v..]) });
        }
    }
    (*out).count = list.len();
    (*out).trailers = Box::leak(list.into_boxed_slice()).as_mut_ptr();
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_message_trailer_array_free(_: *mut raw::git_message_trailer_array) {}
