//! Garbage collection: what the user still has must stay reachable.
use crate::fake::git::*;
use crate::fake::proc::hook;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};

fn kept(name: &[u8]) -> bool {
    name.starts_with(b"refs/branchless/")
}

/// Any tree whose draft commits were made with the hooks in place; then a command; then collect garbage.
pub fn run(n: usize) {
    let mut g = Graph::any_tree(n);
    // the last commit may be a merge
    let merge = g.parents[n - 1] != [0] && sym::any_index(2) == 1;
    if merge {
        g.parents[n - 1].push(0);
    }
    let foo = sym::any_index(n);
    let s = Scene { g, main: 0, foo, head: Head::Detached(0) };
    s.install();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    // one commit may come from before the hooks were installed
    let foreign = if merge { 0 } else { sym::any_index(n) };
    // the last commits may be made while git runs a rebase
    let rebase_from = if foreign == 0 { 1 + sym::any_index(n) } else { n };
    for i in 1..n {
        if i == rebase_from {
            std::fs::create_dir_all(git_dir().join("rebase-merge")).unwrap();
            std::fs::write(git_dir().join("rebase-merge/interactive"), b"").unwrap();
            w().state = 7;
        }
        if foreign == 0 || i != foreign {
            w().set_ref(b"HEAD\0", RefVal::Direct(c(i)));
            let name: &[u8] = [&b"post-commit"[..], b"post-merge", b"post-applypatch"][i % 3];
            sym::check(hook(&[], &[name], b"") == 0, "the hook succeeds");
        }
    }
    if rebase_from < n {
        sym::check(hook(&[], &[b"post-rewrite", b"rebase"], b"") == 0, "the hook succeeds");
        for f in ["rebase-merge/interactive", "rebase-merge/deferred-commits"] {
            let _ = std::fs::remove_file(git_dir().join(f));
        }
        std::fs::remove_dir(git_dir().join("rebase-merge")).unwrap();
        w().state = 0;
        sym::cover("made during a rebase");
    }
    if foreign > 0 && sym::any_index(2) == 1 {
        w().set_ref(format!("{}\0", refname(foreign)).as_bytes(), RefVal::Direct(c(foreign)));
    }
    w().set_ref(b"HEAD\0", RefVal::Direct(c(0)));
    let x = 1 + sym::any_index(n - 1);
    let opts = ResolveRevsetOptions { show_hidden_commits: true };
    let what = sym::any_index(if merge { 3 } else { 4 });
    let recursive = sym::any_index(2) == 1;
    let hide = || Command::Hide { revsets: vec![rev(x)], resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: true }, no_delete_branches: true, recursive };
    let res = match what {
        0 => Ok(()),
        1 => command(hide()),
        2 => {
            command(hide()).unwrap();
            command(Command::Unhide { revsets: vec![rev(x)], resolve_revset_options: opts, recursive: false })
        }
        _ => {
            sym::assume(!recursive && foreign == 0);
            command(Command::Move {
                source: vec![rev(x)],
                dest: Some(rev(0)),
                base: vec![],
                exact: vec![],
                resolve_revset_options: opts,
                move_options: move_options(),
                fixup: false,
                insert: false,
            })
        }
    };
    sym::assume(res.is_ok());
    let refs0: Vec<_> = w().refs.iter().filter(|r| !kept(&r.0)).cloned().collect();
    let status = |db: &EventLogDb| -> Vec<CommitActivityStatus> {
        let e = effects();
        let r = replayer(&e, &repo, db);
        let cur = r.make_default_cursor();
        (0..w().commits.len()).map(|k| r.get_cursor_commit_activity_status(cur, nz(k))).collect()
    };
    let before = status(&db);
    let had: Vec<bool> = (0..w().commits.len()).map(|k| at(&refname(k)).is_some()).collect();
    if sym::any_index(2) == 1 {
        sym::check(command(Command::Gc).is_ok(), "collecting succeeds");
    } else {
        sym::check(hook(&[], &[b"pre-auto-gc"], b"") == 0, "collecting succeeds");
    }
    let after = status(&db);
    sym::log(&format!(
        "parents {:?} foo {foo} x {x} what {what} recursive {recursive} foreign {foreign}: active {:?} refs {:?}",
        s.g.parents,
        before.iter().map(|s| matches!(s, CommitActivityStatus::Active)).collect::<Vec<_>>(),
        w().refs
    ));
    sym::check(w().refs.iter().filter(|r| !kept(&r.0)).cloned().collect::<Vec<_>>() == refs0, "branches, tags and HEAD are left alone");
    for k in 0..before.len() {
        sym::check(format!("{:?}", before[k]) == format!("{:?}", after[k]), "collecting does not change what is active");
        match before[k] {
            CommitActivityStatus::Active => {
                // a commit from elsewhere is only protected once it was seen by `smartlog`
                let own = k < n && k == foreign;
                sym::check(if own { at(&refname(k)).is_some() == had[k] } else { reachable(k) }, "a commit that is neither hidden nor rewritten stays reachable");
            }
            CommitActivityStatus::Inactive => sym::check(at(&refname(k)).is_some() == had[k], "a commit unknown to the log keeps its protection"),
            CommitActivityStatus::Obsolete => {
                sym::check(at(&refname(k)).is_none(), "a hidden or rewritten commit is let go");
                sym::cover("let go");
            }
        }
    }
    if what == 2 {
        sym::cover("brought back");
    }
    if what == 3 {
        sym::cover("moved");
    }
}

fn reachable(k: usize) -> bool {
    fn below(k: usize, from: usize) -> bool {
        k == from || w().commits[from].parents.iter().any(|p| below(k, p.index()))
    }
    let names: Vec<Vec<u8>> = w().refs.iter().map(|r| r.0.clone()).collect();
    names.iter().any(|r| matches!(w().resolve(r), Some(o) if below(k, o.index())))
}

fn refname(k: usize) -> String {
    format!("refs/branchless/{}", nz(k))
}
