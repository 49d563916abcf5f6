//! `git sync`: every stack goes on top of the main branch, which follows its upstream.
use crate::clash::{files_of, install, merge3, Files};
use crate::fake::git::*;
use crate::fake::wt::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::EventLogDb;

const UPSTREAM: &str = "refs/remotes/origin/master";

fn sync(pull: bool, only: Option<usize>) -> Result<(), lib::util::ExitCode> {
    command(Command::Sync {
        pull,
        move_options: move_options(),
        revsets: only.into_iter().map(rev).collect(),
        resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false },
    })
}
/// The working copy is as in a commit.
fn check_out_files(i: usize) {
    w().wt = true;
    for (p, m, o) in w().files(w().commits[i].tree) {
        set_disk(&p, Some((m, o)));
        set_staged(&p, 0, Some((m, o)));
    }
}
fn check_files() {
    let head = w().ref_oid("HEAD").unwrap();
    let mut paths: Vec<Vec<u8>> = (0..w().commits.len()).flat_map(|k| w().files(w().commits[k].tree)).map(|f| f.0).collect();
    paths.sort();
    paths.dedup();
    sym::check(paths.iter().all(|p| disk(p) == in_commit(head, p) && staged(p, 0) == in_commit(head, p)), "the files are as in what is checked out");
}
/// Any tree, main branch, branch and checkout; all stacks or the one of any commit; with `pull`
/// the upstream branch moves from anywhere below the main branch to any commit.
pub fn run(n: usize, pull: bool) {
    let g = Graph::any_tree(n);
    let main = sym::any_index(n);
    let (foo, on) = match sym::any_index(3) {
        0 => (sym::any_index(n), 0),
        k => (if pull { sym::any_index(n) } else { 0 }, k),
    };
    let up = if pull { sym::any_index(n) } else { main };
    let only = if pull { None } else { Some(sym::any_index(n + 1)).filter(|x| *x < n) };
    g.install();
    branch("foo", foo);
    refs(main, None);
    let head = match on {
        0 => {
            w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
            foo
        }
        1 => main,
        _ => {
            let h = sym::any_index(n);
            w().set_ref(b"HEAD\0", RefVal::Direct(c(h)));
            h
        }
    };
    check_out_files(head);
    let (local, remote) = (g.ancestors(1 << main), g.ancestors(1 << up));
    if pull {
        w().set_ref(&cs(UPSTREAM), RefVal::Direct(c(0)));
        w().config_set("branch.master.merge", "refs/heads/master");
        w().fetch.push((UPSTREAM.as_bytes().to_vec(), c(up)));
    }
    w().config_set("branchless.undo.createSnapshots", "false");
    crate::fake::proc::install_hooks();
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((0..n).filter(|i| (local | remote) >> i & 1 == 0).map(|i| commit_event(t0, i)).collect()).unwrap();
    // ---- what must happen
    let mut parent: Vec<Option<usize>> = (0..n).map(|i| g.parents[i].first().copied()).collect();
    let own = local & !remote; // commits of the main branch which upstream does not have
    let mut main_now = up;
    if own != 0 {
        main_now = main;
        for i in 0..n {
            if own >> i & 1 == 1 && own >> g.parents[i][0] & 1 == 0 {
                parent[i] = Some(up);
            }
        }
    }
    let public = local | remote;
    // commits in the chosen stacks
    let root_of = |i: usize| {
        let mut r = i;
        while public >> g.parents[r][0] & 1 == 0 {
            r = g.parents[r][0];
        }
        r
    };
    for i in 0..n {
        if public >> i & 1 == 0 && root_of(i) == i && only.map_or(true, |o| public >> o & 1 == 0 && root_of(o) == i) {
            parent[i] = Some(main_now);
        }
    }
    let res = sync(pull, only);
    let a = after(n, &effects, &repo, &db);
    sym::log(&format!(
        "parents {:?} main {main} up {up} foo {foo} head {on}/{head} only {only:?}; ok {} want {parent:?} now {:?} {:?} HEAD {:?} master {:?} foo {:?}; ran {:?}",
        g.parents,
        res.is_ok(),
        a.version,
        w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        at("HEAD"),
        at(MAIN),
        at("refs/heads/foo"),
        commands()
    ));
    sym::check(res.is_ok(), "syncing succeeds");
    let moved = |i: usize| {
        let mut k = Some(i);
        while let Some(x) = k {
            if parent[x] != g.parents[x].first().copied() {
                return true;
            }
            k = parent[x];
        }
        false
    };
    let mut v = vec![usize::MAX; n];
    for i in 0..n {
        if !moved(i) {
            v[i] = i;
            if public >> i & 1 == 0 {
                sym::check(a.version[i] == [i], "stacks which are in place keep their identity");
            }
        } else {
            sym::check(a.version[i].len() == 1, "every commit has exactly one current version");
            v[i] = a.version[i][0];
        }
    }
    for i in 0..n {
        let com = &w().commits[v[i]];
        let want: Vec<usize> = parent[i].iter().map(|p| v[*p]).collect();
        sym::check(com.parents.iter().map(|p| p.index()).collect::<Vec<_>>() == want, "the commit sits on the right parent");
        sym::check(com.author == w().commits[i].author, "the author is kept");
        let mut chain = vec![i];
        while let Some(p) = parent[*chain.last().unwrap()] {
            chain.push(p);
        }
        let files: Vec<Vec<u8>> = w().files(com.tree).into_iter().map(|f| f.0).collect();
        sym::check(files == own_files(&chain), "the contents are the parent's plus the commit's own change");
    }
    sym::check(at(MAIN) == Some(v[main_now]), "the main branch has upstream's commits and its own on top");
    sym::check(at("refs/heads/foo") == Some(v[foo]), "the branch follows its commit");
    match on {
        0 => sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "HEAD stays on its branch"),
        1 => sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs(MAIN))), "HEAD stays on the main branch"),
        _ => sym::check(at("HEAD") == Some(v[head]), "HEAD follows its commit"),
    }
    check_files();
    sym::cover(if v.iter().enumerate().all(|(i, k)| i == *k) { "in place" } else { "moved" });
}

/// Commits edit a shared file: stacks which conflict stay, the others are moved.
pub fn clash(n: usize, values: usize) {
    let g = Graph::any_tree(n);
    let mut shared = vec![0];
    for i in 1..n {
        shared.push(sym::any_index(values));
        sym::assume(shared[i] != shared[g.parents[i][0]]);
    }
    install(&g, &shared, &[], &vec![true; n]);
    let main = sym::any_index(n);
    let foo = sym::any_index(n);
    branch("foo", foo);
    refs(main, Some(main));
    w().config_set("branchless.undo.createSnapshots", "false");
    crate::fake::proc::install_hooks();
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    let public = g.ancestors(1 << main);
    db.add_events((0..n).filter(|i| public >> i & 1 == 0).map(|i| commit_event(t0, i)).collect()).unwrap();
    let old: Vec<Files> = (0..n).map(files_of).collect();
    let mut now = old.clone();
    let mut place: Vec<Option<usize>> = (0..n).map(|i| g.parents[i].first().copied()).collect();
    let mut conflicts = 0;
    for r in (0..n).filter(|i| public >> i & 1 == 0) {
        if public >> g.parents[r][0] & 1 == 0 || g.parents[r][0] == main {
            continue;
        }
        let (saved_now, saved_place) = (now.clone(), place.clone());
        for i in (r..n).filter(|i| g.anc(r, *i)) {
            let p = if i == r { main } else { g.parents[i][0] };
            match merge3(&old[g.parents[i][0]], &now[p], &old[i], &|_| None) {
                Some(f) => {
                    now[i] = f;
                    place[i] = Some(p);
                }
                None => {
                    // the whole stack stays
                    now = saved_now;
                    place = saved_place;
                    conflicts += 1;
                    break;
                }
            }
        }
    }
    let res = sync(false, None);
    let a = after(n, &effects, &repo, &db);
    sym::log(&format!(
        "parents {:?} shared {shared:?} main {main} foo {foo}; ok {} want {place:?} now {:?} {:?} HEAD {:?} foo {:?}",
        g.parents,
        res.is_ok(),
        a.version,
        w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        at("HEAD"),
        at("refs/heads/foo")
    ));
    sym::check(res.is_ok(), "a conflict is no failure");
    let mut v: Vec<usize> = (0..n).collect();
    for i in (0..n).filter(|i| public >> i & 1 == 0) {
        sym::check(a.version[i].len() == 1, "every commit has exactly one current version");
        v[i] = a.version[i][0];
    }
    for i in (0..n).filter(|i| public >> i & 1 == 0) {
        let com = &w().commits[v[i]];
        sym::check(com.parents.len() == 1 && com.parents[0].index() == v[place[i].unwrap()], "stacks without conflicts are moved, the others are not");
        sym::check(files_of(v[i]) == now[i], "the contents are the merge of the commit's change with its new parent");
    }
    sym::check(at(MAIN) == Some(main) && at("HEAD") == Some(main), "the main branch stays");
    sym::check(at("refs/heads/foo") == Some(v[foo]), "the branch follows its commit");
    sym::cover(if conflicts > 0 { "conflict" } else { "moved" });
}
