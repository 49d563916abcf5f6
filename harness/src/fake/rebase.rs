//! `git rebase --continue` and `--abort`: git's sequencer over the state directory that the code under test writes.
//!
//! Understands pick, label, reset, merge -C, exec and break. Picks are never fast-forwarded when
//! timestamps are preserved, empty picks are kept, and hooks are run as git runs them.
use super::git::*;
use super::proc::hook;
use super::wt;
use std::path::PathBuf;

fn dir() -> PathBuf {
    git_dir().join("rebase-merge")
}
fn read(name: &str) -> Option<String> {
    std::fs::read_to_string(dir().join(name)).ok()
}
fn write(name: &str, s: &str) {
    std::fs::write(dir().join(name), s).unwrap();
}
pub fn underway() -> bool {
    dir().join("interactive").exists()
}
fn head() -> O {
    w().ref_oid("HEAD").unwrap()
}
fn tree_of(o: O) -> O {
    w().commits[o.index()].tree
}
fn set_head(env: &[Vec<u8>], to: O) {
    if w().wt {
        wt::reset(env, to, true);
    } else {
        wt::move_head(env, to);
    }
}
fn labelled(name: &str) -> Option<O> {
    w().ref_oid(&format!("refs/rewritten/{name}")).or_else(|| w().revparse(name.as_bytes()))
}
/// Make a commit like `old`; fails on conflicts.
fn commit(env: &[Vec<u8>], old: O, parents: Vec<O>, merged: Vec<IndexEntry>) -> bool {
    if merged.iter().any(|e| e.stage > 0) {
        return false;
    }
    let files: Vec<(Vec<u8>, u32, O)> = merged.into_iter().map(|e| (e.path, e.mode, e.oid)).collect();
    let tree = w().tree_from_files(&files);
    let c = w().commits[old.index()].clone();
    let same_date = dir().join("cdate_is_adate").exists();
    let new = w().add_commit(Commit {
        parents,
        tree,
        message: c.message,
        committer: if same_date { c.author.clone() } else { Sig::new("committer", 1000) },
        author: c.author,
    });
    set_head(env, new);
    hook(env, &[b"post-commit"], b"");
    true
}
/// The rewrite of `old` is finished.
fn rewritten(old: O) {
    let mut l = read("rewritten-list").unwrap_or_default();
    l.push_str(&format!("{} {}\n", old.nz(), head().nz()));
    write("rewritten-list", &l);
}
/// The user resolves the conflicts of the commit being picked: `f` is given the commit and its side.
pub fn resolve(env: &[Vec<u8>], f: impl Fn(O, Option<O>) -> O) {
    let old = w().revparse(read("stopped-sha").unwrap().trim().as_bytes()).unwrap();
    let parent = w().commits[old.index()].parents.first().copied();
    let mut out: Vec<IndexEntry> = vec![];
    for mut e in super::index::merge(parent.map(tree_of), tree_of(head()), tree_of(old)) {
        if e.stage > 0 {
            let theirs = w().files(tree_of(old)).into_iter().find(|x| x.0 == e.path);
            e = IndexEntry { oid: f(old, theirs.map(|x| x.2)), mode: 0o100644, stage: 0, path: e.path };
        }
        if !out.iter().any(|x| x.path == e.path) {
            out.push(e);
        }
    }
    assert!(commit(env, old, vec![head()], out));
    rewritten(old);
    std::fs::remove_file(dir().join("stopped-sha")).unwrap();
}
fn finish() {
    for f in std::fs::read_dir(dir()).unwrap() {
        std::fs::remove_file(f.unwrap().path()).unwrap();
    }
    std::fs::remove_dir(dir()).unwrap();
    w().refs.retain(|r| !r.0.starts_with(b"refs/rewritten/"));
}
pub fn abort(env: &[Vec<u8>]) -> i32 {
    if !underway() {
        return 128;
    }
    let to = w().revparse(read("orig-head").unwrap().trim().as_bytes()).unwrap();
    let name = read("head-name").unwrap();
    w().index.retain(|e| e.stage == 0);
    set_head(env, to);
    if name.trim().starts_with("refs/") {
        wt::update_ref(env, name.trim().as_bytes(), to);
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs(name.trim())));
    }
    finish();
    0
}
pub fn go_on(env: &[Vec<u8>]) -> i32 {
    if !underway() {
        return 128;
    }
    if let Some(o) = std::fs::read_to_string(git_dir().join("ORIG_HEAD")).ok().and_then(|s| w().revparse(s.trim().as_bytes())) {
        w().set_ref(b"ORIG_HEAD\0", RefVal::Direct(o));
    }
    if w().wt && !wt::index_is(head()) {
        return 1;
    }
    loop {
        let todo = read("git-rebase-todo").unwrap_or_default();
        let mut lines: Vec<&str> = todo.lines().filter(|l| !l.trim().is_empty()).collect();
        if lines.is_empty() {
            break;
        }
        let line = lines.remove(0);
        let rest: String = lines.iter().map(|l| format!("{l}\n")).collect();
        write("git-rebase-todo", &rest);
        let words: Vec<&str> = line.split(' ').filter(|x| !x.is_empty()).collect();
        match words[0] {
            "break" => return 0,
            "label" => {
                let (name, h) = (format!("refs/rewritten/{}\0", words[1]), head());
                w().set_ref(name.as_bytes(), RefVal::Direct(h));
            }
            "reset" => match labelled(words[1]) {
                Some(o) => set_head(env, o),
                None => return 1,
            },
            "pick" => {
                let Some(old) = w().revparse(words[1].as_bytes()) else { return 1 };
                let parent = w().commits[old.index()].parents.first().copied();
                if parent == Some(head()) && !dir().join("cdate_is_adate").exists() {
                    set_head(env, old);
                } else {
                    let merged = super::index::merge(parent.map(tree_of), tree_of(head()), tree_of(old));
                    if !commit(env, old, vec![head()], merged) {
                        write("stopped-sha", words[1]);
                        return 1;
                    }
                }
                rewritten(old);
            }
            "merge" => {
                assert!(words[1] == "-C" && words.len() == 4, "this merge is not modelled");
                let Some(old) = w().revparse(words[2].as_bytes()) else { return 1 };
                let Some(other) = labelled(words[3]) else { return 1 };
                let base = w().merge_base(head(), other);
                let merged = super::index::merge(base.map(tree_of), tree_of(head()), tree_of(other));
                if !commit(env, old, vec![head(), other], merged) {
                    write("stopped-sha", words[2]);
                    return 1;
                }
                rewritten(old);
            }
            "exec" => {
                assert!(words.len() >= 4 && words[1] == "git" && words[2] == "branchless", "this command is not modelled");
                let mut args: Vec<&[u8]> = words[3..].iter().map(|x| x.as_bytes()).collect();
                args[0] = match args[0].strip_prefix(b"hook-") {
                    Some(a) => a,
                    None => return 1,
                };
                if hook(env, &args, b"") != 0 {
                    return 1;
                }
            }
            _ => panic!("todo line {line:?} is not modelled"),
        }
    }
    let name = read("head-name").unwrap_or_default();
    if name.trim().starts_with("refs/") {
        wt::update_ref(env, name.trim().as_bytes(), head());
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs(name.trim())));
    }
    match read("rewritten-list") {
        Some(l) if !l.is_empty() => {
            hook(env, &[b"post-rewrite", b"rebase"], l.as_bytes());
        }
        _ => {}
    }
    finish();
    0
}
