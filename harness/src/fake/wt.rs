//! The working copy: files on disk, the index and what git's commands do to them.
//!
//! Only used when `World::wt` is set. Follows git's documented two-way rules: a
//! checkout keeps local changes in files which are the same in both commits and
//! refuses when it would lose any.
use super::git::*;
use super::proc::hook;

type File = (u32, O);
pub const FILE: u32 = 0o100644;
pub const EXEC: u32 = 0o100755;

fn place(p: &[u8]) -> std::path::PathBuf {
    git_dir().parent().unwrap().join(String::from_utf8(p.to_vec()).unwrap())
}
/// Content and mode of a file on disk.
pub fn disk(p: &[u8]) -> Option<File> {
    let data = std::fs::read(place(p)).ok()?;
    let mode = if w().exec.iter().any(|x| x == p) { EXEC } else { FILE };
    Some((mode, w().add_blob(&data)))
}
pub fn set_disk(p: &[u8], f: Option<File>) {
    w().exec.retain(|x| x != p);
    match f {
        None => {
            let _ = std::fs::remove_file(place(p));
        }
        Some((mode, o)) => {
            let path = place(p);
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(path, w().blobs[o.index()].clone()).unwrap();
            if mode == EXEC {
                w().exec.push(p.to_vec());
            }
        }
    }
}
pub fn staged(p: &[u8], stage: u8) -> Option<File> {
    w().index.iter().find(|e| e.path == p && e.stage == stage).map(|e| (e.mode, e.oid))
}
pub fn set_staged(p: &[u8], stage: u8, f: Option<File>) {
    w().index.retain(|e| e.path != p || e.stage != stage);
    if let Some((mode, oid)) = f {
        w().index.push(IndexEntry { path: p.to_vec(), mode, oid, stage });
        w().index.sort_by(|a, b| (&a.path, a.stage).cmp(&(&b.path, b.stage)));
    }
}
fn unmerged(p: &[u8]) -> bool {
    w().index.iter().any(|e| e.path == p && e.stage > 0)
}
fn tree(commit: Option<O>) -> Vec<(Vec<u8>, u32, O)> {
    match commit {
        Some(o) => w().files(w().commits[o.index()].tree),
        None => vec![],
    }
}
fn of(t: &[(Vec<u8>, u32, O)], p: &[u8]) -> Option<File> {
    t.iter().find(|f| f.0 == p).map(|f| (f.1, f.2))
}
pub fn in_commit(commit: O, p: &[u8]) -> Option<File> {
    of(&tree(Some(commit)), p)
}
fn index_paths() -> Vec<Vec<u8>> {
    w().index.iter().map(|e| e.path.clone()).collect()
}
fn all_paths(trees: &[&Vec<(Vec<u8>, u32, O)>]) -> Vec<Vec<u8>> {
    let mut v = index_paths();
    for t in trees {
        v.extend(t.iter().map(|f| f.0.clone()));
    }
    v.sort();
    v.dedup();
    v
}
fn mode(f: Option<File>) -> String {
    format!("{:06o}", f.map_or(0, |f| f.0))
}
fn id(f: Option<File>) -> String {
    f.map_or("0000000000000000000000000000000000000000".to_string(), |f| f.1.nz().to_string())
}
/// Staged renames: the content of a removed file under a new name.
pub fn renames() -> Vec<(Vec<u8>, Vec<u8>)> {
    let head = tree(w().ref_oid("HEAD"));
    let paths = all_paths(&[&head]);
    let mut renames: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for p in &paths {
        if let (None, Some(new), false) = (of(&head, p), staged(p, 0), unmerged(p)) {
            let from = paths.iter().find(|q| {
                let gone = staged(q, 0).is_none() && !unmerged(q) && !renames.iter().any(|r| r.0 == **q);
                gone && of(&head, q).map(|f| f.1) == Some(new.1)
            });
            if let Some(q) = from {
                renames.push((q.clone(), p.clone()));
            }
        }
    }
    renames
}

/// `git status --porcelain=v2 -z --untracked-files=no`
pub fn status() -> Vec<u8> {
    let head = tree(w().ref_oid("HEAD"));
    let mut out: Vec<u8> = w().status.clone();
    let paths = all_paths(&[&head]);
    let renames = renames();
    for p in &paths {
        let d = disk(p);
        if unmerged(p) {
            let s = [staged(p, 1), staged(p, 2), staged(p, 3)];
            let xy = match (s[0].is_some(), s[1].is_some(), s[2].is_some()) {
                (true, false, false) => "DD",
                (false, true, false) => "AU",
                (false, false, true) => "UA",
                (true, true, false) => "UD",
                (true, false, true) => "DU",
                (false, true, true) => "AA",
                _ => "UU",
            };
            let l = format!("u {xy} N... {} {} {} {} {} {} {} ", mode(s[0]), mode(s[1]), mode(s[2]), mode(d), id(s[0]), id(s[1]), id(s[2]));
            out.extend_from_slice(l.as_bytes());
            out.extend_from_slice(p);
            out.push(0);
            continue;
        }
        if renames.iter().any(|r| r.0 == *p) {
            continue;
        }
        let from = renames.iter().find(|r| r.1 == *p).map(|r| r.0.clone());
        let h = of(&head, from.as_ref().unwrap_or(p));
        let i = staged(p, 0);
        let x = match (h, i) {
            _ if from.is_some() => 'R',
            (None, Some(_)) => 'A',
            (Some(_), None) => 'D',
            (h, i) if h != i => 'M',
            _ => '.',
        };
        let y = match (i, d) {
            (None, _) => '.',
            (Some(_), None) => 'D',
            (Some(i), Some(d)) if i != d => 'M',
            _ => '.',
        };
        if x == '.' && y == '.' {
            continue;
        }
        let now = if i.is_some() { d } else { None };
        let l = format!("{} {x}{y} N... {} {} {} {} {} ", if from.is_some() { 2 } else { 1 }, mode(h), mode(i), mode(now), id(h), id(i));
        out.extend_from_slice(l.as_bytes());
        if from.is_some() {
            out.extend_from_slice(b"R100 ");
        }
        out.extend_from_slice(p);
        out.push(0);
        if let Some(from) = from {
            out.extend_from_slice(&from);
            out.push(0);
        }
    }
    out
}

fn load(t: &[(Vec<u8>, u32, O)]) {
    w().index = super::index::index_of_files(t);
}
/// Tell the hooks about updated references.
fn updated(env: &[Vec<u8>], refs: &[(Vec<u8>, Option<O>, Option<O>)]) {
    let text = |o: &Option<O>| match o {
        Some(o) => o.nz().to_string(),
        None => "0".repeat(40),
    };
    let mut lines = String::new();
    for (name, old, new) in refs {
        let name = String::from_utf8(name[..name.len() - 1].to_vec()).unwrap();
        lines.push_str(&format!("{} {} {name}\n", text(old), text(new)));
    }
    hook(env, &[b"reference-transaction", b"committed"], lines.as_bytes());
}
/// Make HEAD (or the branch it is on) be at a commit.
pub fn move_head(env: &[Vec<u8>], to: O) {
    let old = w().ref_oid("HEAD");
    match w().get_ref(b"HEAD\0").cloned() {
        Some(RefVal::Symbolic(n)) => {
            w().set_ref(&n, RefVal::Direct(to));
            updated(env, &[(b"HEAD\0".to_vec(), old, Some(to)), (n, old, Some(to))]);
        }
        _ => {
            w().set_ref(b"HEAD\0", RefVal::Direct(to));
            updated(env, &[(b"HEAD\0".to_vec(), old, Some(to))]);
        }
    }
}
pub fn reset(env: &[Vec<u8>], to: O, hard: bool) {
    let t = tree(Some(to));
    if hard {
        for p in all_paths(&[&t]) {
            let f = of(&t, &p);
            if disk(&p) != f {
                set_disk(&p, f);
            }
        }
    }
    load(&t);
    move_head(env, to);
}
/// Bring files and index from the current commit to another; false if that would lose something.
pub fn switch_files(to: O, force: bool) -> bool {
    let old = tree(w().ref_oid("HEAD"));
    let new = tree(Some(to));
    if force {
        for p in all_paths(&[&new]) {
            set_disk(&p, of(&new, &p));
        }
        load(&new);
        return true;
    }
    if w().index.iter().any(|e| e.stage > 0) {
        return false;
    }
    let mut todo = vec![];
    for p in all_paths(&[&old, &new]) {
        let (h, t, i, d) = (of(&old, &p), of(&new, &p), staged(&p, 0), disk(&p));
        if h == t || i == t && i.is_some() || i.is_none() && t.is_none() {
            continue;
        }
        let clean = match (i, d) {
            (None, None) => h.is_none(),
            (None, Some(_)) => false,
            (Some(_), None) => i == h,
            (Some(x), Some(y)) => i == h && x == y,
        };
        if !clean {
            return false;
        }
        todo.push((p, t));
    }
    for (p, t) in todo {
        set_disk(&p, t);
        set_staged(&p, 0, t);
    }
    true
}
/// `git commit`, on top of HEAD.
pub fn commit(env: &[Vec<u8>], all: bool, message: &[u8]) -> i32 {
    if all {
        for p in index_paths() {
            let f = disk(&p);
            w().index.retain(|e| e.path != p);
            set_staged(&p, 0, f);
        }
    }
    let head = w().ref_oid("HEAD").unwrap();
    if w().index.iter().any(|e| e.stage > 0) {
        return 128;
    }
    if message.is_empty() || index_is(head) {
        return 1;
    }
    let files: Vec<(Vec<u8>, u32, O)> = w().index.iter().map(|e| (e.path.clone(), e.mode, e.oid)).collect();
    let tree = w().tree_from_files(&files);
    let new = w().add_commit(Commit {
        parents: vec![head],
        tree,
        message: [message, b"\n\0"].concat(),
        author: Sig::new("committer", 1000),
        committer: Sig::new("committer", 1000),
    });
    move_head(env, new);
    hook(env, &[b"post-commit"], b"");
    0
}
pub fn index_is(commit: O) -> bool {
    w().index == super::index::index_of_files(&tree(Some(commit)))
}
/// Do files on disk differ from the index?
pub fn unstaged() -> bool {
    index_paths().iter().any(|p| unmerged(p) || staged(p, 0) != disk(p))
}
/// `git update-index -z --index-info`
pub fn update_index(input: &[u8]) -> i32 {
    for line in input.split(|b| *b == 0) {
        if line.is_empty() {
            continue;
        }
        let Some(tab) = line.iter().position(|b| *b == b'\t') else { return 128 };
        let path = line[tab + 1..].to_vec();
        let words: Vec<&str> = std::str::from_utf8(&line[..tab]).unwrap().split(' ').collect();
        if words.len() != 3 {
            return 128;
        }
        let m = u32::from_str_radix(words[0], 8).unwrap();
        if m == 0 {
            w().index.retain(|e| e.path != path);
            continue;
        }
        let mut o = O([0; 20]);
        for k in 0..20 {
            o.0[k] = u8::from_str_radix(&words[1][2 * k..2 * k + 2], 16).unwrap();
        }
        let stage = words[2].as_bytes()[0] - b'0';
        if stage == 0 {
            w().index.retain(|e| e.path != path);
        }
        set_staged(&path, stage, Some((m, o)));
    }
    0
}
/// `git update-ref NAME OID`
pub fn update_ref(env: &[Vec<u8>], name: &[u8], to: O) {
    let mut n = name.to_vec();
    n.push(0);
    let old = w().resolve(&n);
    w().set_ref(&n, RefVal::Direct(to));
    if old != Some(to) {
        updated(env, &[(n, old, Some(to))]);
    }
}
