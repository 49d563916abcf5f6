//! Differences between trees, at libgit2's C interface.
use super::git::*;
use libgit2_sys as raw;
use std::ffi::{c_char, c_int, c_uint, c_void};
use std::ptr;

type File = Option<(u32, O)>;
struct Diff {
    context: usize,
    deltas: Vec<(Box<raw::git_diff_delta>, Vec<u8>, File, File)>,
}
/// One line of an edit script: kept, taken away or added.
#[derive(Clone, PartialEq, Eq)]
pub struct Op(pub u8, pub Vec<u8>);
struct Hunk {
    old: (usize, usize),
    new: (usize, usize),
    ops: Vec<Op>,
}
static mut PATCHES: Vec<Vec<(Vec<u8>, File, File, Vec<Op>)>> = vec![];

pub fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect()
}
/// A shortest edit script; what is taken away comes before what is added.
fn script(a: &[Vec<u8>], b: &[Vec<u8>]) -> Vec<Op> {
    let (n, m) = (a.len(), b.len());
    let mut common = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            common[i][j] = if a[i] == b[j] { common[i + 1][j + 1] + 1 } else { common[i + 1][j].max(common[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut ops = vec![];
    let mut added = vec![];
    loop {
        if i < n && j < m && a[i] == b[j] {
            ops.append(&mut added);
            ops.push(Op(b' ', a[i].clone()));
            i += 1;
            j += 1;
        } else if i < n && (j == m || common[i + 1][j] >= common[i][j + 1]) {
            ops.push(Op(b'-', a[i].clone()));
            i += 1;
        } else if j < m {
            added.push(Op(b'+', b[j].clone()));
            j += 1;
        } else {
            ops.append(&mut added);
            return ops;
        }
    }
}
fn hunks(ops: &[Op], context: usize) -> Vec<Hunk> {
    let near = |i: usize| {
        let from = i.saturating_sub(context);
        ops[from..(i + context + 1).min(ops.len())].iter().any(|o| o.0 != b' ')
    };
    let mut out: Vec<Hunk> = vec![];
    let (mut old, mut new) = (0, 0);
    let mut open = false;
    for (i, o) in ops.iter().enumerate() {
        if near(i) {
            if !open {
                out.push(Hunk { old: (old, 0), new: (new, 0), ops: vec![] });
                open = true;
            }
            let h = out.last_mut().unwrap();
            h.ops.push(o.clone());
            if o.0 != b'+' {
                h.old.1 += 1;
            }
            if o.0 != b'-' {
                h.new.1 += 1;
            }
        } else {
            open = false;
        }
        if o.0 != b'+' {
            old += 1;
        }
        if o.0 != b'-' {
            new += 1;
        }
    }
    // Lines are counted from one; where there are none, the line before is named.
    for h in &mut out {
        if h.old.1 > 0 {
            h.old.0 += 1;
        }
        if h.new.1 > 0 {
            h.new.0 += 1;
        }
    }
    out
}
fn content(f: File) -> Vec<u8> {
    match f {
        Some((_, o)) if o.0[0] == BLOB => w().blobs[o.index()].clone(),
        _ => vec![],
    }
}
fn binary(f: File) -> bool {
    content(f).contains(&0)
}
fn hunks_of(a: File, b: File, context: usize) -> Vec<Hunk> {
    hunks(&script(&lines(&content(a)), &lines(&content(b))), context)
}
fn side(path: *const c_char, f: File) -> raw::git_diff_file {
    raw::git_diff_file {
        id: f.map(|f| f.1).unwrap_or(O([0; 20])).raw(),
        path,
        size: content(f).len() as raw::git_object_size_t,
        flags: 0,
        mode: f.map(|f| f.0).unwrap_or(0) as u16,
        id_abbrev: 40,
    }
}
fn between(a: Vec<(Vec<u8>, u32, O)>, b: Vec<(Vec<u8>, u32, O)>, context: usize) -> *mut raw::git_diff {
    let mut paths: Vec<Vec<u8>> = a.iter().chain(b.iter()).map(|f| f.0.clone()).collect();
    paths.sort();
    paths.dedup();
    let mut deltas = vec![];
    for p in paths {
        let find = |l: &[(Vec<u8>, u32, O)]| l.iter().find(|f| f.0 == p).map(|f| (f.1, f.2));
        let (x, y) = (find(&a), find(&b));
        if x == y {
            continue;
        }
        let mut name = p.clone();
        if name.last() != Some(&0) {
            name.push(0);
        }
        let c = name.as_ptr() as *const c_char;
        let status = match (x, y) {
            (None, _) => raw::GIT_DELTA_ADDED,
            (_, None) => raw::GIT_DELTA_DELETED,
            _ => raw::GIT_DELTA_MODIFIED,
        };
        let d = raw::git_diff_delta {
            status,
            flags: 0,
            similarity: 0,
            nfiles: if x.is_some() && y.is_some() { 2 } else { 1 },
            old_file: side(c, x),
            new_file: side(c, y),
        };
        deltas.push((Box::new(d), name, x, y));
    }
    Box::into_raw(Box::new(Diff { context, deltas })) as *mut raw::git_diff
}
unsafe fn d<'a>(p: *const raw::git_diff) -> &'a Diff {
    &*(p as *const Diff)
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_init_options(o: *mut raw::git_diff_options, version: c_uint) -> c_int {
    ptr::write_bytes(o, 0, 1);
    (*o).version = version;
    (*o).context_lines = 3;
    0
}
unsafe fn context(o: *const raw::git_diff_options) -> usize {
    if o.is_null() {
        3
    } else {
        (*o).context_lines as usize
    }
}
unsafe fn files<T>(t: *mut T) -> Vec<(Vec<u8>, u32, O)> {
    if t.is_null() {
        vec![]
    } else {
        w().files(O((*git_tree_id(t as *const raw::git_tree)).id))
    }
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_tree_to_tree(out: *mut *mut raw::git_diff, _: *mut raw::git_repository, a: *mut raw::git_tree, b: *mut raw::git_tree, o: *const raw::git_diff_options) -> c_int {
    *out = between(files(a), files(b), context(o));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_tree_to_index(out: *mut *mut raw::git_diff, _: *mut raw::git_repository, a: *mut raw::git_tree, i: *mut raw::git_index, o: *const raw::git_diff_options) -> c_int {
    let b = super::index::files_of(i);
    *out = between(files(a), b, context(o));
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_free(p: *mut raw::git_diff) {
    drop(Box::from_raw(p as *mut Diff))
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_num_deltas(p: *const raw::git_diff) -> usize {
    d(p).deltas.len()
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_get_delta(p: *const raw::git_diff, i: usize) -> *const raw::git_diff_delta {
    d(p).deltas.get(i).map_or(ptr::null(), |x| &*x.0)
}
#[no_mangle]
pub unsafe extern "C" fn git_diff_foreach(
    p: *mut raw::git_diff,
    file: raw::git_diff_file_cb,
    bin: raw::git_diff_binary_cb,
    hunk: raw::git_diff_hunk_cb,
    line: raw::git_diff_line_cb,
    payload: *mut c_void,
) -> c_int {
    let diff = d(p);
    for (delta, _, x, y) in &diff.deltas {
        let delta: *const raw::git_diff_delta = &**delta;
        if let Some(f) = file {
            let r = f(delta, 0.0, payload);
            if r != 0 {
                return r;
            }
        }
        if binary(*x) || binary(*y) {
            if let Some(f) = bin {
                // What is told about the contents is not looked at.
                let none = std::mem::MaybeUninit::<raw::git_diff_binary>::zeroed();
                let r = f(delta, none.as_ptr(), payload);
                if r != 0 {
                    return r;
                }
            }
            continue;
        }
        for h in hunks_of(*x, *y, diff.context) {
            if let Some(f) = hunk {
                let r = raw::git_diff_hunk {
                    old_start: h.old.0 as c_int,
                    old_lines: h.old.1 as c_int,
                    new_start: h.new.0 as c_int,
                    new_lines: h.new.1 as c_int,
                    header_len: 0,
                    header: [0; 128],
                };
                let r = f(delta, &r, payload);
                if r != 0 {
                    return r;
                }
            }
        }
        assert!(line.is_none());
    }
    0
}
/// Equal for patches that change the same lines with the same lines around them, wherever they are.
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn git_diff_patchid(out: *mut raw::git_oid, p: *mut raw::git_diff, _: *mut raw::git_diff_patchid_options) -> c_int {
    let mut patch = vec![];
    for (_, name, x, y) in &d(p).deltas {
        let mode = |f: &File| f.map(|f| (f.0, O([0; 20])));
        let bin = binary(*x) || binary(*y);
        let ops = if bin { vec![] } else { hunks_of(*x, *y, 3).into_iter().flat_map(|h| h.ops).collect() };
        let whole = |f: &File| if bin { *f } else { mode(f) };
        patch.push((name.clone(), whole(x), whole(y), ops));
    }
    let n = match PATCHES.iter().position(|q| *q == patch) {
        Some(n) => n,
        None => {
            PATCHES.push(patch);
            PATCHES.len() - 1
        }
    };
    *out = oid(0xd0, n).raw();
    0
}
#[no_mangle]
pub unsafe extern "C" fn git_blob_create_fromdisk(_: *mut raw::git_oid, _: *mut raw::git_repository, _: *const c_char) -> c_int {
    // The path given is relative to the current directory, which is not the working copy.
    -3
}
