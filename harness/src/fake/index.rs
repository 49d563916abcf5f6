//! Indexes and three-way merges of the fake repository.
//!
//! A merge works file by file like git's: a side that equals the base takes the
//! other side. If all three differ, `World::merge_blobs` may produce a merged
//! blob, otherwise the path conflicts. Renames are not followed.
use super::git::*;
use libgit2_sys as raw;
use std::os::raw::{c_char, c_int, c_uint};

pub struct Idx {
    pub entries: Vec<IndexEntry>,
    raws: Vec<Box<(raw::git_index_entry, Vec<u8>)>>,
}
unsafe fn ix<'a>(p: *const raw::git_index) -> &'a mut Idx {
    &mut *(p as *mut Idx)
}
fn new_index(entries: Vec<IndexEntry>) -> *mut raw::git_index {
    Box::into_raw(Box::new(Idx { entries, raws: vec![] })) as *mut raw::git_index
}
impl Idx {
    fn raw(&mut self, e: &IndexEntry) -> *const raw::git_index_entry {
        let mut path = e.path.clone();
        path.push(0);
        let mut r: raw::git_index_entry = unsafe { std::mem::zeroed() };
        r.mode = e.mode;
        r.id = e.oid.raw();
        r.flags = (e.stage as u16) << 12 | (e.path.len() as u16 & 0xfff);
        let mut b = Box::new((r, path));
        b.0.path = b.1.as_ptr() as *const c_char;
        self.raws.push(b);
        &self.raws.last().unwrap().0
    }
}
pub fn index_of_files(files: &[(Vec<u8>, u32, O)]) -> Vec<IndexEntry> {
    files.iter().map(|(p, m, o)| IndexEntry { path: p.clone(), mode: *m, oid: *o, stage: 0 }).collect()
}
/// Merge the changes from `base` to `theirs` into `ours`.
pub fn merge(base: Option<O>, ours: O, theirs: O) -> Vec<IndexEntry> {
    let b = base.map_or(vec![], |t| w().files(t));
    let o = w().files(ours);
    let t = w().files(theirs);
    let mut paths: Vec<Vec<u8>> = vec![];
    for f in b.iter().chain(o.iter()).chain(t.iter()) {
        if !paths.contains(&f.0) {
            paths.push(f.0.clone());
        }
    }
    paths.sort();
    let get = |l: &Vec<(Vec<u8>, u32, O)>, p: &Vec<u8>| l.iter().find(|f| f.0 == *p).map(|f| (f.1, f.2));
    let mut out = vec![];
    for p in paths {
        let (x, y, z) = (get(&b, &p), get(&o, &p), get(&t, &p));
        let res = if y == z || x == z {
            y
        } else if x == y {
            z
        } else {
            let merged = match (w().merge_blobs, x, y, z) {
                (Some(f), x, Some(y), Some(z)) if y.0 == z.0 => f(x.map(|x| x.1), y.1, z.1).map(|o| (y.0, o)),
                _ => None,
            };
            match merged {
                Some(m) => Some(m),
                None => {
                    for (stage, s) in [(1, x), (2, y), (3, z)] {
                        if let Some((mode, oid)) = s {
                            out.push(IndexEntry { path: p.clone(), mode, oid, stage });
                        }
                    }
                    continue;
                }
            }
        };
        if let Some((mode, oid)) = res {
            out.push(IndexEntry { path: p, mode, oid, stage: 0 });
        }
    }
    out
}
#[no_mangle]
pub unsafe extern "C" fn git_cherrypick_commit(
    out: *mut *mut raw::git_index,
    _: *mut raw::git_repository,
    pick: *mut raw::git_commit,
    our: *mut raw::git_commit,
    mainline: c_uint,
    _: *const raw::git_merge_options,
) -> c_int {
    let pick = w().commits[commit_index(pick)].clone();
    let our = w().commits[commit_index(our)].clone();
    let parent = match (pick.parents.len(), mainline) {
        (0, 0) => None,
        (1, 0) => Some(0),
        (n, m) if m > 0 && m as usize <= n && n > 1 => Some(m as usize - 1),
        _ => return -1,
    };
    let base = match parent {
        None => None,
        Some(i) => match w().find(COMMIT, &pick.parents[i]) {
            Some(i) => Some(w().commits[i].tree),
            None => return -3,
        },
    };
    *out = new_index(merge(base, our.tree, pick.tree));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_merge_trees(
    out: *mut *mut raw::git_index,
    _: *mut raw::git_repository,
    base: *const raw::git_tree,
    our: *const raw::git_tree,
    their: *const raw::git_tree,
    _: *const raw::git_merge_options,
) -> c_int {
    let b = if base.is_null() { None } else { Some(oid(TREE, tree_index(base))) };
    *out = new_index(merge(b, oid(TREE, tree_index(our)), oid(TREE, tree_index(their))));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_repository_index(out: *mut *mut raw::git_index, _: *mut raw::git_repository) -> c_int {
    *out = new_index(w().index.clone());
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_index_read(_: *mut raw::git_index, _: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_index_free(p: *mut raw::git_index) {
    drop(Box::from_raw(p as *mut Idx))
}
#[no_mangle]
pub unsafe extern "C" fn git_index_entrycount(p: *const raw::git_index) -> usize {
    ix(p).entries.len()
}
#[no_mangle]
pub unsafe extern "C" fn git_index_get_byindex(p: *mut raw::git_index, n: usize) -> *const raw::git_index_entry {
    match ix(p).entries.get(n).cloned() {
        Some(e) => ix(p).raw(&e),
        None => std::ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_index_get_bypath(p: *mut raw::git_index, path: *const c_char, stage: c_int) -> *const raw::git_index_entry {
    let path = cstr0(path);
    match ix(p).entries.iter().find(|e| e.path == path && e.stage as c_int == stage).cloned() {
        Some(e) => ix(p).raw(&e),
        None => std::ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_index_has_conflicts(p: *const raw::git_index) -> c_int {
    ix(p).entries.iter().any(|e| e.stage > 0) as c_int
}
struct Conflicts {
    index: *mut raw::git_index,
    paths: Vec<Vec<u8>>,
    at: usize,
}
#[no_mangle]
pub unsafe extern "C" fn git_index_conflict_iterator_new(out: *mut *mut raw::git_index_conflict_iterator, p: *mut raw::git_index) -> c_int {
    let mut paths: Vec<Vec<u8>> = vec![];
    for e in &ix(p).entries {
        if e.stage > 0 && !paths.contains(&e.path) {
            paths.push(e.path.clone());
        }
    }
    *out = Box::into_raw(Box::new(Conflicts { index: p, paths, at: 0 })) as *mut raw::git_index_conflict_iterator;
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_index_conflict_next(
    a: *mut *const raw::git_index_entry,
    o: *mut *const raw::git_index_entry,
    t: *mut *const raw::git_index_entry,
    it: *mut raw::git_index_conflict_iterator,
) -> c_int {
    let it = &mut *(it as *mut Conflicts);
    let Some(path) = it.paths.get(it.at).cloned() else { return -31 };
    it.at += 1;
    for (stage, out) in [(1, a), (2, o), (3, t)] {
        *out = match ix(it.index).entries.iter().find(|e| e.path == path && e.stage == stage).cloned() {
            Some(e) => ix(it.index).raw(&e),
            None => std::ptr::null(),
        };
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_index_conflict_iterator_free(p: *mut raw::git_index_conflict_iterator) {
    drop(Box::from_raw(p as *mut Conflicts))
}
#[no_mangle]
pub unsafe extern "C" fn git_index_write_tree_to(out: *mut raw::git_oid, p: *mut raw::git_index, _: *mut raw::git_repository) -> c_int {
    if git_index_has_conflicts(p) == 1 {
        return -10; // GIT_EUNMERGED
    }
    let files: Vec<(Vec<u8>, u32, O)> = ix(p).entries.iter().map(|e| (e.path.clone(), e.mode, e.oid)).collect();
    *out = w().tree_from_files(&files).raw();
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_index_write_tree(out: *mut raw::git_oid, p: *mut raw::git_index) -> c_int {
    git_index_write_tree_to(out, p, std::ptr::null_mut())
}
/// The files of an index that are not in conflict.
pub unsafe fn files_of(p: *const raw::git_index) -> Vec<(Vec<u8>, u32, O)> {
    ix(p).entries.iter().filter(|e| e.stage == 0).map(|e| (e.path.clone(), e.mode, e.oid)).collect()
}
