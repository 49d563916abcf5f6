//! Hiding and unhiding commits: the whole commands.
use crate::mv::*;
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};

pub fn command(cmd: Command) -> Result<(), lib::util::ExitCode> {
    let ctx = git_branchless_invoke::CommandContext { effects: effects(), git_run_info: git_run_info() };
    let opts = git_branchless_opts::Opts {
        global_args: git_branchless_opts::GlobalArgs { working_directory: None, color: None },
        command: cmd,
    };
    match git_branchless::commands::verif_command_main(ctx, opts) {
        Ok(r) => r,
        Err(e) => {
            sym::log(&format!("{e:?}"));
            panic!("the command fails internally");
        }
    }
}

/// Any tree; every draft commit is active or hidden; a branch and HEAD anywhere; then hide or unhide any commit.
pub fn run(n: usize) {
    let g = Graph::any_tree(n);
    let hidden = (sym::any_index(1 << (n - 1)) as u32) << 1;
    let foo = sym::any_index(n);
    let attached = sym::any_index(2) == 1;
    let s = Scene { g, main: 0, foo, head: if attached { Head::OnFoo } else { Head::Detached(0) } };
    s.install();
    let g = &s.g;
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let t1 = tx(&db, "hidden before");
    db.add_events((1..n).filter(|i| hidden >> i & 1 == 1).map(|i| hide_event(t1, i)).collect()).unwrap();
    let x = 1 + sym::any_index(n - 1);
    let recursive = sym::any_index(2) == 1;
    let hide = sym::any_index(2) == 1;
    let no_delete_branches = hide && sym::any_index(2) == 1;
    let opts = ResolveRevsetOptions { show_hidden_commits: true };
    // visible: active, or an ancestor of something active or checked out or branched
    let shown = g.ancestors(((1u32 << n) - 1) & !hidden | 1 << foo);
    let mut want = hidden;
    let mut touched = 0;
    if hide {
        touched = if recursive { g.descendants(1 << x) & shown } else { 1 << x };
        want |= touched;
    } else {
        want &= !if recursive { g.descendants(1 << x) } else { 1 << x };
    }
    let res = if hide {
        command(Command::Hide { revsets: vec![rev(x)], resolve_revset_options: opts, no_delete_branches, recursive })
    } else {
        command(Command::Unhide { revsets: vec![rev(x)], resolve_revset_options: opts, recursive })
    };
    let r = replayer(&eff, &repo, &db);
    let cur = r.make_default_cursor();
    let now = (1..n).filter(|i| matches!(r.get_cursor_commit_activity_status(cur, nz(*i)), CommitActivityStatus::Obsolete)).fold(0u32, |m, i| m | 1 << i);
    sym::log(&format!("parents {:?} hidden {hidden:b} foo {foo} attached {attached} x {x} hide {hide} recursive {recursive} keep {no_delete_branches}: hidden now {now:b} want {want:b} foo {:?} HEAD {:?}", g.parents, at("refs/heads/foo"), w().get_ref(b"HEAD\0")));
    sym::check(res.is_ok(), "the command succeeds");
    sym::check(now == want, "exactly the named commits (and, recursively, their descendants) change");
    let gone = hide && !no_delete_branches && touched >> foo & 1 == 1;
    sym::check(at("refs/heads/foo") == if gone { None } else { Some(foo) }, "branches are deleted only with the commit they point to");
    sym::check(at(MAIN) == Some(0), "the main branch stays");
    sym::check(at("HEAD") == Some(if attached { foo } else { 0 }), "the checked out commit stays");
    if attached && !gone {
        sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "HEAD stays on its branch");
    }
    sym::cover(if hide { "hid" } else { "unhid" });
    if gone {
        sym::cover("branch deleted");
    }
}
