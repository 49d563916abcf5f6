//! The working copy: snapshots, amending, switching with local changes.
use crate::fake::git::*;
use crate::fake::rebase;
use crate::fake::wt::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, RecordArgs, ResolveRevsetOptions, Revset, SwitchOptions, TraverseCommitsOptions};
use lib::core::check_out::{check_out_commit, create_snapshot, CheckOutCommitOptions, CheckoutTarget};
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};
use lib::git::CategorizedReferenceName;

/// A file at some place: absent or one of a few contents, possibly executable.
fn any_file(contents: usize, exec: bool) -> Option<(u32, O)> {
    let k = sym::any_index(contents + 1);
    if k == 0 {
        return None;
    }
    let mode = if exec && sym::any_index(2) == 1 { EXEC } else { FILE };
    Some((mode, w().add_blob(format!("{}\n", ["x", "y", "z"][k - 1]).as_bytes())))
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct State {
    pub head: Option<RefVal>,
    pub refs: Vec<(Vec<u8>, RefVal)>,
    pub index: Vec<IndexEntry>,
    pub disk: Vec<Option<(u32, O)>>,
}
pub fn state(paths: &[&str]) -> State {
    State {
        head: w().get_ref(b"HEAD\0").cloned(),
        refs: w().refs.iter().filter(|r| r.0.starts_with(b"refs/heads/")).cloned().collect(),
        index: w().index.clone(),
        disk: paths.iter().map(|p| disk(p.as_bytes())).collect(),
    }
}
fn show(f: &Option<(u32, O)>) -> String {
    f.map_or("-".into(), |f| format!("{}{}", String::from_utf8(w().blobs[f.1.index()].clone()).unwrap().trim(), if f.0 == EXEC { "*" } else { "" }))
}
pub fn tell(paths: &[&str]) -> String {
    let mut s = format!("{:?}", w().get_ref(b"HEAD\0"));
    for p in paths {
        let p8 = p.as_bytes();
        let h = w().ref_oid("HEAD").and_then(|o| in_commit(o, p8));
        s.push_str(&format!(" {p:?}: HEAD {} index {}/{}/{}/{} disk {}", show(&h), show(&staged(p8, 0)), show(&staged(p8, 1)), show(&staged(p8, 2)), show(&staged(p8, 3)), show(&disk(p8))));
    }
    s
}

/// What the files of commits look like: two commits 0 (main) and 1 on top, with any files.
pub fn install(paths: &[&str], head: &[Option<(u32, O)>]) {
    let wd = w();
    wd.wt = true;
    let base = wd.add_blob(b"base\n");
    let keep = (b"keep".to_vec(), FILE, base);
    let t0 = wd.tree_from_files(&[keep.clone()]);
    let commit = |tree, i: usize, parents| Commit {
        parents,
        tree,
        message: cs(&format!("commit {i}\n")),
        author: Sig::new("author", 100 + i as i64),
        committer: Sig::new("committer", 200 + i as i64),
    };
    wd.add_commit(commit(t0, 0, vec![]));
    let mut files = vec![keep];
    for (p, f) in paths.iter().zip(head) {
        if let Some((m, o)) = f {
            files.push((p.as_bytes().to_vec(), *m, *o));
        }
    }
    files.sort_by(|a, b| a.0.cmp(&b.0));
    let t1 = wd.tree_from_files(&files);
    wd.add_commit(commit(t1, 1, vec![c(0)]));
    refs(0, Some(1));
    set_disk(b"keep", Some((FILE, base)));
    set_staged(b"keep", 0, Some((FILE, base)));
}
/// Any way the index and the disk can differ from the commit.
fn any_changes(paths: &[&str], conflicts: bool, exec: bool, untracked: bool) {
    for p in paths {
        let p = p.as_bytes();
        let n = if conflicts && sym::any_index(2) == 1 { 4 } else { 1 };
        if n == 1 {
            set_staged(p, 0, any_file(2, exec));
        } else {
            for stage in 1..4 {
                set_staged(p, stage, any_file(2, false));
            }
            // three equal sides are not a conflict
            sym::assume(staged(p, 1) != staged(p, 2) || staged(p, 2) != staged(p, 3));
        }
        set_disk(p, any_file(3, exec));
        // files which git does not track are none of our business
        sym::assume(untracked || w().index.iter().any(|e| e.path == p) || disk(p).is_none());
    }
}

/// Take a snapshot, lose everything, bring it back.
pub fn snapshot(paths: &[&str], conflicts: bool, exec: bool, branch_too: bool) {
    let head: Vec<_> = paths.iter().map(|_| any_file(1, false)).collect();
    install(paths, &head);
    any_changes(paths, conflicts, exec, false);
    branch("foo", 1);
    let attached = branch_too && sym::any_index(2) == 1;
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    let before = state(paths);
    let told = tell(paths);
    let old_names: Vec<Vec<u8>> = renames().into_iter().map(|r| r.0).collect();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let (eff, git) = (effects(), git_run_info());
    let t = tx(&db, "test");
    let snap = create_snapshot(&eff, &git, &repo, &db, t).unwrap();
    sym::check(state(paths) == before, "taking a snapshot changes nothing");
    // somewhere else, without the changes
    crate::fake::wt::reset(&[], c(0), true);
    w().set_ref(b"HEAD\0", RefVal::Direct(c(0)));
    branch("foo", 0);
    let args = if attached {
        vec!["-B".into(), CategorizedReferenceName::new(&"refs/heads/foo".into()).render_suffix().into()]
    } else {
        vec![]
    };
    let opts = CheckOutCommitOptions { additional_args: args, reset: false, render_smartlog: false };
    let res = check_out_commit(&eff, &git, &repo, &db, t, Some(CheckoutTarget::Oid(snap.base_commit.get_oid())), &opts).unwrap();
    sym::log(&format!("attached {attached} before {told} after {} ran {:?}", tell(paths), commands()));
    sym::check(res.is_ok(), "restoring succeeds");
    let mut after = state(paths);
    sym::check(after.head == before.head, "HEAD is as it was");
    if attached {
        sym::check(after.refs == before.refs, "the branch is as it was");
    }
    let torn = |p: &&str| before.index.iter().any(|e| e.stage > 0 && e.path == p.as_bytes());
    let same = |torn_or_not: bool| (0..paths.len()).all(|i| torn(&paths[i]) != torn_or_not || after.disk[i] == before.disk[i]);
    sym::check(same(false), "every file is as it was");
    let torn_same = same(true);
    let renamed = after.index.iter().any(|e| old_names.contains(&e.path));
    after.index.retain(|e| !old_names.contains(&e.path));
    sym::check(after.index == before.index, "everything staged is as it was");
    sym::check(!renamed, "a staged rename is as it was");
    sym::check(torn_same, "every file in conflict is as it was");
    sym::cover("restored");
    if conflicts && before.index.iter().any(|e| e.stage > 0) {
        sym::cover("restored a conflict");
    }
}

/// What the commit on top does.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kid {
    None,
    AddsOther,
    Edits,
    /// Like `AddsOther`, hidden, but below a commit that is not.
    Hidden,
    /// Like `AddsOther`, on the main branch.
    Public,
}
fn files_of(o: O) -> Vec<(Vec<u8>, u32, O)> {
    w().files(w().commits[o.index()].tree)
}
fn active_now(db: &EventLogDb) -> Vec<usize> {
    let (e, r) = (effects(), crate::scene::repo());
    let r = replayer(&e, &r, db);
    let cur = r.make_default_cursor();
    (0..w().commits.len()).filter(|k| matches!(r.get_cursor_commit_activity_status(cur, nz(*k)), CommitActivityStatus::Active)).collect()
}

/// Amend with any uncommitted changes, then undo that.
pub fn amend(paths: &[&str], conflicts: bool, exec: bool, kids: usize, undo: bool) {
    let head: Vec<_> = paths.iter().map(|_| any_file(1, false)).collect();
    install(paths, &head);
    let kid = [Kid::None, Kid::AddsOther, Kid::Edits, Kid::Hidden, Kid::Public][sym::any_index(kids)];
    let reparent = kid != Kid::None && sym::any_index(2) == 1;
    let z = w().add_blob(b"z\n");
    if kid != Kid::None {
        let mut files = files_of(c(1));
        match kid {
            Kid::Edits => {
                sym::assume(head[0].is_some());
                for f in &mut files {
                    if f.0 == paths[0].as_bytes() {
                        f.2 = z;
                    }
                }
            }
            _ => files.push((b"zz".to_vec(), FILE, z)),
        }
        let tree = w().tree_from_files(&files);
        w().add_commit(Commit {
            parents: vec![c(1)],
            tree,
            message: cs("commit 2\n"),
            author: Sig::new("author", 102),
            committer: Sig::new("committer", 202),
        });
    }
    if kid == Kid::Hidden {
        let mut files = files_of(c(2));
        files.push((b"zzz".to_vec(), FILE, z));
        let tree = w().tree_from_files(&files);
        w().add_commit(Commit {
            parents: vec![c(2)],
            tree,
            message: cs("commit 3\n"),
            author: Sig::new("author", 103),
            committer: Sig::new("committer", 203),
        });
    }
    any_changes(paths, conflicts, exec, false);
    let foo = if kid == Kid::None { 1 } else { 1 + sym::any_index(2) };
    branch("foo", foo);
    let attached = foo == 1 && sym::any_index(2) == 1;
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    crate::fake::proc::install_hooks();
    let repo = crate::scene::repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..w().commits.len()).map(|i| commit_event(t0, i)).collect()).unwrap();

    let before = state(paths);
    let old_names: Vec<Vec<u8>> = renames().into_iter().map(|r| r.0).collect();
    let active = active_now(&db);
    let told = tell(paths);
    let n = w().commits.len();
    let torn = before.index.iter().any(|e| e.stage > 0);
    let any_staged = paths.iter().zip(&head).any(|(p, h)| staged(p.as_bytes(), 0) != *h);
    // what the amended commit must contain
    let mut want = vec![];
    for (p, _, _) in files_of(c(1)).into_iter().chain(w().index.clone().into_iter().map(|e| (e.path, e.mode, e.oid))) {
        let f = if any_staged { staged(&p, 0) } else { disk(&p) };
        if let (Some((m, o)), false) = (f, want.iter().any(|x: &(Vec<u8>, u32, O)| x.0 == p)) {
            want.push((p, m, o));
        }
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));

    let res = command(Command::Amend { move_options: move_options(), reparent });
    sym::log(&format!("{kid:?} reparent {reparent} foo {foo} attached {attached} {told} after {} ran {:?}", tell(paths), commands()));
    let after = state(paths);
    if torn {
        sym::check(res.is_err() && after == before, "with unresolved conflicts, amending is refused and changes nothing");
        sym::cover("refused");
        return;
    }
    sym::check(res.is_ok(), "amending succeeds");
    sym::check(after.disk == before.disk, "no file changes on disk");
    if want == files_of(c(1)) && before.index.iter().all(|e| staged(&e.path, 0) == in_commit(c(1), &e.path)) {
        sym::check(after == before, "without changes, nothing happens");
        sym::cover("nothing to do");
        return;
    }
    let new = w().ref_oid("HEAD").unwrap();
    let com = &w().commits[new.index()];
    let old = &w().commits[1];
    sym::check(new.index() >= n && com.parents == old.parents && com.message == old.message && com.author.name == old.author.name, "the amended commit replaces the old one");
    sym::check(files_of(new) == want, "the amended commit contains the staged changes or, without any, all changes");
    sym::check(after.index == crate::fake::index::index_of_files(&want), "what was amended is no longer staged and nothing else is");
    if attached {
        sym::check(after.head == before.head, "the branch stays checked out");
    } else {
        sym::check(after.head == Some(RefVal::Direct(new)), "the amended commit is checked out");
    }
    let mut kept = kid == Kid::None;
    let mut new_kid = None;
    if !kept {
        let base = in_commit(c(1), paths[0].as_bytes());
        let ours = want.iter().find(|f| f.0 == paths[0].as_bytes()).map(|f| (f.1, f.2));
        let theirs = in_commit(c(2), paths[0].as_bytes());
        // a commit left without changes may go
        sym::assume(!(kid == Kid::Edits && ours == theirs));
        let clash = kid == Kid::Edits && ours != base && !reparent;
        let kids: Vec<usize> = active_now(&db).into_iter().filter(|k| w().commits[*k].message == cs("commit 2\n")).collect();
        sym::check(kids.len() == 1, "the commit on top is there once");
        let k = kids[0];
        kept = k == 2;
        sym::check(kept == clash, "the commit on top moves along unless that conflicts");
        if clash {
            sym::cover("not restacked");
        } else {
            new_kid = Some(k);
            sym::check(w().commits[k].parents == vec![new], "the commit on top is on the amended commit");
            let mut files = want.clone();
            if reparent {
                files = files_of(c(2));
            } else if kid == Kid::Edits {
                files.retain(|f| f.0 != paths[0].as_bytes());
                files.push((paths[0].as_bytes().to_vec(), theirs.unwrap().0, z));
            } else {
                files.push((b"zz".to_vec(), FILE, z));
            }
            files.sort_by(|a, b| a.0.cmp(&b.0));
            sym::check(files_of(c(k)) == files, "the commit on top has the contents asked for");
            sym::cover(if reparent { "reparented" } else { "restacked" });
        }
    }
    let foo_now = at("refs/heads/foo");
    sym::check(foo_now == Some(if foo == 1 { new.index() } else { new_kid.unwrap_or(2) }), "the branch follows");
    sym::check(at(MAIN) == Some(0), "the main branch stays");
    sym::check(!active_now(&db).contains(&1), "the old commit is gone");
    sym::cover("amended");
    if !undo {
        return;
    }
    let active_after = active_now(&db);
    let res = command(Command::Undo { interactive: false, yes: true });
    let back = state(paths);
    sym::log(&format!("undone {} ran {:?}", tell(paths), commands()));
    sym::check(back.disk == before.disk, "undoing changes no file");
    // changes which were not amended may stand in the way
    let left = want.iter().any(|f| disk(&f.0) != Some((f.1, f.2)));
    if res.is_err() {
        sym::check(left, "undoing succeeds or is refused because of remaining changes");
        sym::cover("undo refused");
        sym::check(back.index == after.index && at("HEAD") == Some(new.index()), "a refused undo keeps what is checked out");
        sym::check(back == after && active_now(&db) == active_after, "a refused undo changes nothing");
        return;
    }
    sym::check(back.head == before.head && back.refs == before.refs, "undoing brings back the checkout and the branches");
    sym::check(active_now(&db) == active, "undoing brings back the commits");
    let strip = |v: &[IndexEntry]| v.iter().filter(|e| !old_names.contains(&e.path)).cloned().collect::<Vec<_>>();
    sym::check(strip(&back.index) == strip(&before.index), "undoing brings back what was staged");
    sym::cover("undone");
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Recording {
    Plain,
    Create,
    Detach,
    Stash,
}
/// Record the uncommitted changes as a new commit on top of commit 1, which may have another commit on top.
pub fn record(paths: &[&str], hows: &[Recording], conflicts: bool, kids: usize) {
    let how = hows[sym::any_index(hows.len())];
    let head: Vec<_> = paths.iter().map(|_| any_file(1, false)).collect();
    install(paths, &head);
    let kid = [Kid::None, Kid::AddsOther, Kid::Edits, Kid::Hidden, Kid::Public][sym::any_index(kids)];
    let insert = kid != Kid::None && sym::any_index(2) == 1;
    let z = w().add_blob(b"z\n");
    if kid != Kid::None {
        let mut files = files_of(c(1));
        match kid {
            Kid::Edits => {
                sym::assume(head[0].is_some());
                for f in &mut files {
                    if f.0 == paths[0].as_bytes() {
                        f.2 = z;
                    }
                }
            }
            _ => files.push((b"zz".to_vec(), FILE, z)),
        }
        let tree = w().tree_from_files(&files);
        w().add_commit(Commit {
            parents: vec![c(1)],
            tree,
            message: cs("commit 2\n"),
            author: Sig::new("author", 102),
            committer: Sig::new("committer", 202),
        });
    }
    if kid == Kid::Hidden {
        let mut files = files_of(c(2));
        files.push((b"zzz".to_vec(), FILE, z));
        let tree = w().tree_from_files(&files);
        w().add_commit(Commit {
            parents: vec![c(2)],
            tree,
            message: cs("commit 3\n"),
            author: Sig::new("author", 103),
            committer: Sig::new("committer", 203),
        });
    }
    any_changes(paths, conflicts, false, false);
    if kid == Kid::Public {
        w().set_ref(&cs(MAIN), RefVal::Direct(c(2)));
    }
    branch("foo", 1);
    let attached = conflicts || sym::any_index(2) == 1;
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    w().config_set("branchless.undo.createSnapshots", "false");
    crate::fake::proc::install_hooks();
    let repo = crate::scene::repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..w().commits.len()).map(|i| commit_event(t0, i)).collect()).unwrap();
    if kid == Kid::Hidden {
        db.add_events(vec![hide_event(tx(&db, "hide"), 2)]).unwrap();
    }

    let before = state(paths);
    let told = tell(paths);
    let n = w().commits.len();
    let torn = before.index.iter().any(|e| e.stage > 0);
    let any_staged = paths.iter().zip(&head).any(|(p, h)| staged(p.as_bytes(), 0) != *h);
    // what the new commit must contain
    let mut want = vec![];
    for (p, _, _) in files_of(c(1)).into_iter().chain(w().index.clone().into_iter().map(|e| (e.path, e.mode, e.oid))) {
        let f = if any_staged { staged(&p, 0) } else { disk(&p) };
        if let (Some((m, o)), false) = (f, want.iter().any(|x: &(Vec<u8>, u32, O)| x.0 == p)) {
            want.push((p, m, o));
        }
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));
    let args = RecordArgs {
        messages: vec!["new".into()],
        interactive: false,
        create: if how == Recording::Create { Some("new".into()) } else { None },
        detach: how == Recording::Detach,
        insert,
        stash: how == Recording::Stash,
    };
    let res = command(Command::Record(args));
    sym::log(&format!("{how:?} {kid:?} insert {insert} attached {attached} {told} after {} ran {:?}", tell(paths), commands()));
    let after = state(paths);
    if torn {
        sym::check(res.is_err() && after == before, "with unresolved conflicts, recording is refused and changes nothing");
        sym::cover("refused");
        return;
    }
    if want == files_of(c(1)) {
        sym::check(res.is_ok() && after == before && w().commits.iter().all(|c| c.message != cs("new\n")), "without changes, nothing happens");
        sym::cover("nothing to do");
        return;
    }
    let made: Vec<usize> = (n..w().commits.len()).filter(|k| w().commits[*k].message == cs("new\n")).collect();
    sym::check(made.len() == 1, "one commit is made");
    let new = c(made[0]);
    sym::check(active_now(&db).contains(&made[0]), "the new commit is there");
    sym::check(w().commits[made[0]].parents == vec![c(1)], "the new commit is on top of what was checked out");
    sym::check(files_of(new) == want, "the new commit contains the staged changes or, without any, all changes");
    let mut back = false;
    match how {
        Recording::Plain => sym::check(at("HEAD") == Some(made[0]) && if attached { after.head == before.head } else { matches!(after.head, Some(RefVal::Direct(_))) }, "the new commit is checked out, on the same branch"),
        Recording::Create => {
            sym::check(after.head == Some(RefVal::Symbolic(cs("refs/heads/new"))) && at("HEAD") == Some(made[0]), "the new branch is checked out");
        }
        Recording::Detach => sym::check(after.head == Some(RefVal::Direct(new)), "the new commit is checked out on no branch"),
        Recording::Stash => {
            // changes which are not in the new commit may stand in the way
            let stands = paths.iter().map(|p| p.as_bytes()).enumerate().any(|(k, p)| in_commit(new, p) != in_commit(c(1), p) && before.disk[k] != in_commit(new, p) && before.disk[k].is_some());
            sym::check(res.is_ok() == !stands, "going back is refused only if changes stand in the way");
            back = !stands;
            if stands {
                sym::cover("stays");
                sym::check(after.disk == before.disk && at("HEAD") == Some(made[0]), "no change is lost");
            } else {
                sym::cover("stashed");
                // a branch there may be checked out with it
                sym::check((after.head == before.head || !attached) && at("HEAD") == Some(1), "what was checked out before is checked out again");
            }
        }
    }
    if how != Recording::Stash {
        sym::check(res.is_ok(), "recording succeeds");
        sym::check(after.disk == before.disk, "no file changes on disk");
        sym::check(after.index == crate::fake::index::index_of_files(&want), "what was recorded is no longer staged and nothing else is");
    }
    if back {
        for (k, p) in paths.iter().map(|p| p.as_bytes()).enumerate() {
            let left = before.disk[k] != in_commit(new, p) && in_commit(new, p) == in_commit(c(1), p);
            sym::check(after.disk[k] == if left { before.disk[k] } else { in_commit(c(1), p) }, "files are as committed, apart from changes which were not recorded");
            sym::check(staged(p, 0) == in_commit(c(1), p), "nothing is staged");
        }
    }
    let own_branch = attached && how == Recording::Plain;
    sym::check(after.refs.iter().find(|r| r.0 == cs("refs/heads/foo")).map(|r| r.1.clone()) == Some(RefVal::Direct(if own_branch { new } else { c(1) })), "only the branch that is committed to moves");
    if kid != Kid::None && (how != Recording::Stash || back) {
        let base = in_commit(c(1), paths[0].as_bytes());
        let ours = want.iter().find(|f| f.0 == paths[0].as_bytes()).map(|f| (f.1, f.2));
        let theirs = in_commit(c(2), paths[0].as_bytes());
        sym::assume(!(kid == Kid::Edits && ours == theirs));
        let stays = !insert || kid == Kid::Public || (kid == Kid::Edits && ours != base);
        let tops: Vec<usize> = active_now(&db).into_iter().filter(|k| w().commits[*k].message == cs("commit 3\n")).collect();
        sym::check(tops.len() == (kid == Kid::Hidden) as usize, "the topmost commit is there once");
        let kids: Vec<usize> = if kid == Kid::Hidden { vec![w().commits[tops[0]].parents[0].index()] } else { active_now(&db).into_iter().filter(|k| w().commits[*k].message == cs("commit 2\n")).collect() };
        sym::check(kids.len() == 1, "the commit on top is there once");
        let k = kids[0];
        if stays {
            sym::check(k == 2, "the commit on top is moved only if asked for and possible");
        } else {
            sym::cover("inserted");
            sym::check(w().commits[k].parents == vec![new], "the new commit is inserted below the commit on top");
            let mut files = want.clone();
            if kid == Kid::Edits {
                files.retain(|f| f.0 != paths[0].as_bytes());
                files.push((paths[0].as_bytes().to_vec(), theirs.unwrap().0, z));
            } else {
                files.push((b"zz".to_vec(), FILE, z));
            }
            files.sort_by(|a, b| a.0.cmp(&b.0));
            sym::check(files_of(c(k)) == files, "the commit on top keeps its change");
        }
    }
    sym::cover("recorded");
}

/// Commands which change what is checked out.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Going {
    Switch,
    Prev,
    Move,
    Reword,
    Undo,
}
fn go(how: Going) -> Result<(), lib::util::ExitCode> {
    let all = ResolveRevsetOptions { show_hidden_commits: false };
    let none = TraverseCommitsOptions {
        num_commits: None,
        all_the_way: false,
        move_by_branches: false,
        oldest: false,
        newest: false,
        interactive: false,
        merge: false,
        force: false,
    };
    match how {
        Going::Switch => command(Command::Switch { switch_options: SwitchOptions { interactive: false, branch_name: None, force: false, merge: false, detach: false, target: Some(rev(2)) } }),
        Going::Prev => command(Command::Prev { traverse_commits_options: none }),
        Going::Move => command(Command::Move {
            source: vec![rev(1)],
            dest: Some(rev(2)),
            base: vec![],
            exact: vec![],
            resolve_revset_options: all,
            move_options: move_options(),
            fixup: false,
            insert: false,
        }),
        Going::Reword => command(Command::Reword {
            revsets: vec![rev(1)],
            resolve_revset_options: all,
            force_rewrite_public_commits: false,
            messages: vec!["other".into()],
            discard: false,
            commit_to_fixup: None::<Revset>,
        }),
        Going::Undo => command(Command::Undo { interactive: false, yes: true }),
    }
}
/// Commits 1 (checked out) and 2, both on 0, with any versions of the files; any uncommitted
/// changes; then a command which checks something out.
pub fn carry(paths: &[&str], hows: &[Going], untracked: bool, create_snapshots: bool, detached: bool) {
    let how = hows[sym::any_index(hows.len())];
    let one: Vec<_> = paths.iter().map(|_| any_file(2, false)).collect();
    install(paths, &one);
    let mut files = files_of(c(0));
    for p in paths {
        if let Some((m, o)) = any_file(2, false) {
            files.push((p.as_bytes().to_vec(), m, o));
        }
    }
    files.sort_by(|a, b| a.0.cmp(&b.0));
    let tree = w().tree_from_files(&files);
    w().add_commit(Commit {
        parents: vec![c(0)],
        tree,
        message: cs("commit 2\n"),
        author: Sig::new("author", 102),
        committer: Sig::new("committer", 202),
    });
    if !create_snapshots {
        w().config_set("branchless.undo.createSnapshots", "false");
    }
    branch("foo", 1);
    let attached = !detached || sym::any_index(2) == 1;
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    crate::fake::proc::install_hooks();
    let repo = crate::scene::repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..3).map(|i| commit_event(t0, i)).collect()).unwrap();
    let mut target = match how {
        Going::Switch => Some(2),
        Going::Prev => Some(0),
        _ => None,
    };
    // a commit whose changes are there already is dropped
    if how == Going::Move && paths.iter().all(|p| in_commit(c(1), p.as_bytes()).map_or(true, |f| in_commit(c(2), p.as_bytes()) == Some(f))) {
        target = Some(2);
    }
    if how == Going::Undo {
        // come from commit 2
        reset_to(2);
        let opts = SwitchOptions { interactive: false, branch_name: None, force: false, merge: false, detach: !attached, target: Some(if attached { Revset("foo".into()) } else { rev(1) }) };
        command(Command::Switch { switch_options: opts }).unwrap();
        target = Some(2);
    }
    any_changes(paths, false, false, untracked);

    let before = state(paths);
    let told = tell(paths);
    let changed: Vec<bool> = paths.iter().map(|p| p.as_bytes()).map(|p| staged(p, 0) != in_commit(c(1), p) || disk(p) != staged(p, 0)).collect();
    let old_names: Vec<Vec<u8>> = renames().into_iter().map(|r| r.0).collect();
    let n = w().commits.len();
    let res = go(how);
    sym::log(&format!("{how:?} attached {attached} {told} other {:?} after {} ran {:?}", paths.iter().map(|p| show(&in_commit(c(2), p.as_bytes()))).collect::<Vec<_>>(), tell(paths), commands()));
    let after = state(paths);
    let head = at("HEAD");
    // what the command was to check out
    let to = match (how, target) {
        (_, Some(t)) => t,
        _ => (n..w().commits.len()).rev().find(|k| w().commits[*k].author.name == w().commits[1].author.name && w().commits[*k].message != cs("commit 2\n") && !w().commits[*k].message.starts_with(b"branchless")).unwrap_or(usize::MAX),
    };
    if how == Going::Undo {
        if res.is_ok() {
            sym::check(head == Some(2), "the earlier commit is checked out");
            for (k, p) in paths.iter().enumerate() {
                sym::check(after.disk[k] == in_commit(c(2), p.as_bytes()) || before.index.iter().all(|e| e.path != p.as_bytes()), "undoing brings back the earlier files");
            }
            let res = go(Going::Undo);
            let back = state(paths);
            sym::log(&format!("again {} ran {:?}", tell(paths), commands()));
            sym::check(res.is_ok(), "undoing the undo succeeds");
            sym::check(back.disk == before.disk && at("HEAD") == Some(1), "undoing the undo brings back every uncommitted change");
            let strip = |v: &[IndexEntry]| v.iter().filter(|e| !old_names.contains(&e.path)).cloned().collect::<Vec<_>>();
            sym::check(strip(&back.index) == strip(&before.index), "undoing the undo brings back what was staged");
            sym::cover("undone");
            return;
        }
    }
    let stands = to != usize::MAX && (0..paths.len()).any(|k| changed[k] && in_commit(c(1), paths[k].as_bytes()) != in_commit(c(to), paths[k].as_bytes()));
    if head == Some(1) && to != 1 {
        sym::check(res.is_err() || matches!(how, Going::Move | Going::Reword), "staying is reported as a failure");
        sym::check(stands || to == usize::MAX, "refused only if a changed file is different there");
        sym::check(after.disk == before.disk && after.index == before.index, "a refused checkout changes nothing");
        sym::cover("refused");
        return;
    }
    sym::check(head == Some(to) && res.is_ok(), "the target is checked out");
    for (k, p) in paths.iter().map(|p| p.as_bytes()).enumerate() {
        // for git, a missing file is no change
        let gone = before.disk[k].is_none() && before.index.iter().any(|e| e.path == p && in_commit(c(1), p) == Some((e.mode, e.oid))) && in_commit(c(1), p) != in_commit(c(to), p);
        if changed[k] && !gone {
            sym::check(after.disk[k] == before.disk[k], "changed files are kept");
            sym::check(staged(p, 0) == before.index.iter().find(|e| e.path == p).map(|e| (e.mode, e.oid)), "staged changes are kept");
        } else {
            sym::check(after.disk[k] == in_commit(c(to), p) && staged(p, 0) == in_commit(c(to), p), "other files are the target's");
        }
    }
    sym::cover("carried over");
}
/// Moving a commit in the working copy: refused if there are changes which it would trample on.
pub fn carry_disk(paths: &[&str]) {
    unsafe { ON_DISK = true }
    let one: Vec<_> = paths.iter().map(|_| any_file(2, false)).collect();
    install(paths, &one);
    let mut files = files_of(c(0));
    for p in paths {
        if let Some((m, o)) = any_file(2, false) {
            files.push((p.as_bytes().to_vec(), m, o));
        }
    }
    files.sort_by(|a, b| a.0.cmp(&b.0));
    let tree = w().tree_from_files(&files);
    w().add_commit(Commit {
        parents: vec![c(0)],
        tree,
        message: cs("commit 2\n"),
        author: Sig::new("author", 102),
        committer: Sig::new("committer", 202),
    });
    branch("foo", 1);
    if sym::any_index(2) == 1 {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    crate::fake::proc::install_hooks();
    let repo = crate::scene::repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..3).map(|i| commit_event(t0, i)).collect()).unwrap();
    any_changes(paths, false, false, false);
    let before = state(paths);
    let told = tell(paths);
    let changed = paths.iter().map(|p| p.as_bytes()).any(|p| staged(p, 0) != in_commit(c(1), p) || disk(p) != staged(p, 0));
    let res = go(Going::Move);
    sym::log(&format!("{told} other {:?} after {} ran {:?}", paths.iter().map(|p| show(&in_commit(c(2), p.as_bytes()))).collect::<Vec<_>>(), tell(paths), commands()));
    if changed {
        sym::cover("refused");
        sym::check(res.is_err(), "uncommitted changes keep a commit from being moved in the working copy");
    } else if rebase::underway() {
        sym::cover("conflict");
        sym::check(res.is_err(), "a conflict is reported as a failure");
        rebase::abort(&[]);
    }
    if res.is_err() {
        sym::check(!rebase::underway(), "no rebase is left behind");
        let after = state(paths);
        sym::check(after.disk == before.disk && after.index == before.index, "a move which is refused or given up changes no files");
        sym::check(at("HEAD") == Some(1) && after.refs == before.refs, "a move which is refused or given up changes no references");
        return;
    }
    sym::cover("moved");
    for p in paths.iter().map(|p| p.as_bytes()) {
        let there = in_commit(c(at("HEAD").unwrap()), p);
        sym::check(disk(p) == there && staged(p, 0) == there, "afterwards the files are those of the commit checked out");
    }
}
fn reset_to(i: usize) {
    crate::fake::wt::reset(&[], c(i), true);
    w().set_ref(b"HEAD\0", RefVal::Direct(c(i)));
    branch("foo", 1);
}
