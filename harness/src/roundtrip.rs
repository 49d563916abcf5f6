//! A command followed by `undo`.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};

fn active(n: usize, db: &EventLogDb) -> Vec<usize> {
    let (e, r) = (effects(), repo());
    let r = replayer(&e, &r, db);
    let cur = r.make_default_cursor();
    (0..n).filter(|k| matches!(r.get_cursor_commit_activity_status(cur, nz(*k)), CommitActivityStatus::Active)).collect()
}
fn branches() -> Vec<(Vec<u8>, RefVal)> {
    let mut v: Vec<_> = w().refs.iter().filter(|r| r.0.starts_with(b"refs/heads/")).cloned().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
#[derive(Clone, Copy, PartialEq)]
pub enum Cmd {
    Move,
    Fixup,
    Hide,
}
pub fn run(n: usize, cmd: Cmd) {
    let s = scene_lite(n);
    s.install();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let x = 1 + sym::any_index(n - 1);
    let head0 = at("HEAD");
    let branches0 = branches();
    let active0 = active(n, &db);
    let opts = ResolveRevsetOptions { show_hidden_commits: false };
    let res = match cmd {
        Cmd::Hide => command(Command::Hide { revsets: vec![rev(x)], resolve_revset_options: opts, no_delete_branches: false, recursive: sym::any_index(2) == 1 }),
        _ => command(Command::Move {
            source: vec![rev(x)],
            dest: Some(rev(sym::any_index(n))),
            base: vec![],
            exact: vec![],
            resolve_revset_options: opts,
            move_options: move_options(),
            fixup: cmd == Cmd::Fixup,
            insert: false,
        }),
    };
    if res.is_err() {
        sym::end_path();
    }
    let m = w().commits.len();
    let active1 = active(m, &db);
    if active1 == active0 && branches() == branches0 && at("HEAD") == head0 {
        // nothing happened, so there is nothing to take back
        sym::end_path();
    }
    let (head1, branches1) = (at("HEAD"), branches());
    let res = command(Command::Undo { interactive: false, yes: true });
    let active2 = active(w().commits.len(), &db);
    sym::log(&format!(
        "parents {:?} foo {} attached {} x {x}; active {active0:?} -> {active1:?} -> {active2:?}; HEAD {head0:?} -> {head1:?} -> {:?}; branches {branches0:?} -> {branches1:?} -> {:?} ran {:?}",
        s.g.parents,
        s.foo,
        s.head == Head::OnFoo,
        w().get_ref(b"HEAD\0"),
        branches(),
        commands()
    ));
    sym::check(res.is_ok(), "undo succeeds");
    sym::check(branches() == branches0, "every branch is back");
    sym::check(at("HEAD") == head0, "the checked out commit is back");
    sym::check(active2 == active0, "the same commits are current again");
    sym::cover("undone");
}
