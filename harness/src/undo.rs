//! Undo: any history of commands, taken back to any earlier command boundary.
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use lib::core::eventlog::{CommitActivityStatus, Event, EventLogDb};
use lib::git::MaybeZeroOid;

const C: usize = 4;

#[derive(Clone, PartialEq, Debug)]
struct State {
    head: usize,
    main: usize,
    foo: Option<usize>,
    active: [bool; C],
    attached: bool,
}

fn world_refs() -> (Option<usize>, Option<usize>, Option<usize>) {
    let p = |n: &str| w().ref_oid(n).map(|o| o.index());
    (p("HEAD"), p(MAIN), p("refs/heads/foo"))
}

fn ref_update(tx: lib::core::eventlog::EventTransactionId, name: &str, old: Option<usize>, new: Option<usize>) -> Event {
    let mz = |x: Option<usize>| x.map_or(MaybeZeroOid::Zero, |i| c(i).mz());
    Event::RefUpdateEvent { timestamp: 1.0, event_tx_id: tx, ref_name: name.into(), old_oid: mz(old), new_oid: mz(new), message: None }
}

/// One recorded command. Every event it records changes something, as git's hooks and the tool's commands do.
fn command(db: &EventLogDb, s: &mut State, kinds: usize, twice: bool) {
    let tx = tx(db, "cmd");
    let mut ev = vec![];
    let set_foo = |v: Option<usize>| match v {
        Some(i) => w().set_ref(b"refs/heads/foo\0", RefVal::Direct(c(i))),
        None => w().del_ref(b"refs/heads/foo\0"),
    };
    match sym::any_index(kinds) {
        0 => {
            // create, move or delete a branch, possibly more than once
            for _ in 0..if twice { 1 + sym::any_index(2) } else { 1 } {
                let to = sym::any_index(C + 1);
                let new = if to == C { None } else { Some(to) };
                sym::assume(new != s.foo);
                ev.push(ref_update(tx, "refs/heads/foo", s.foo, new));
                s.foo = new;
                set_foo(new);
            }
        }
        1 => {
            // check out another commit, recording a commit there (as a new commit or an amend does)
            let to = sym::any_index(C);
            sym::assume(to != s.head);
            if !s.active[to] && sym::any_bool() {
                ev.push(commit_event(tx, to));
                s.active[to] = true;
            }
            ev.push(ref_update(tx, "HEAD", Some(s.head), Some(to)));
            s.head = to;
            s.attached = false;
            w().set_ref(b"HEAD\0", RefVal::Direct(c(to)));
        }
        2 => {
            let i = sym::any_index(C);
            ev.push(if s.active[i] { hide_event(tx, i) } else { unhide_event(tx, i) });
            s.active[i] = !s.active[i];
        }
        3 if sym::any_bool() => {
            // drop a commit; a branch on it goes away
            let a = sym::any_index(C);
            sym::assume(s.active[a] && s.head != a);
            ev.push(rewrite_event(tx, a, None));
            s.active[a] = false;
            if s.foo == Some(a) {
                ev.push(ref_update(tx, "refs/heads/foo", Some(a), None));
                s.foo = None;
                set_foo(None);
            }
        }
        3 => {
            // rewrite a commit; the branch and HEAD follow it
            let (a, b) = (sym::any_index(C), sym::any_index(C));
            sym::assume(a != b && s.active[a] && !s.active[b]);
            ev.push(rewrite_event(tx, a, Some(b)));
            s.active[a] = false;
            s.active[b] = true;
            if s.foo == Some(a) {
                ev.push(ref_update(tx, "refs/heads/foo", Some(a), Some(b)));
                s.foo = Some(b);
                set_foo(Some(b));
            }
            if s.head == a {
                ev.push(ref_update(tx, "HEAD", Some(a), Some(b)));
                s.head = b;
                if s.attached {
                    ev.push(ref_update(tx, MAIN, Some(a), Some(b)));
                    s.main = b;
                    w().set_ref(b"refs/heads/master\0", RefVal::Direct(c(b)));
                } else {
                    w().set_ref(b"HEAD\0", RefVal::Direct(c(b)));
                }
            }
        }
        _ => {
            // move the main branch
            let to = sym::any_index(C);
            sym::assume(to != s.main);
            ev.push(ref_update(tx, MAIN, Some(s.main), Some(to)));
            if s.attached {
                ev.push(ref_update(tx, "HEAD", Some(s.main), Some(to)));
                s.head = to;
            }
            s.main = to;
            w().set_ref(b"refs/heads/master\0", RefVal::Direct(c(to)));
        }
    }
    db.add_events(ev).unwrap();
}

fn run<const K: usize>(kinds: usize, whole_command: bool) {
    Graph { parents: vec![vec![], vec![0], vec![0], vec![2]] }.install();
    refs(0, Some(0));
    let on_branch = sym::any_bool();
    if on_branch {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs(MAIN)));
    }
    w().config_set("branchless.undo.createSnapshots", "false");
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let mut db = EventLogDb::new(&conn).unwrap();
    let mut s = State { head: 0, main: 0, foo: None, active: [false, true, false, false], attached: on_branch };
    let t0 = tx(&db, "setup");
    db.add_events(vec![commit_event(t0, 1)]).unwrap();
    let mut past = vec![];
    for _ in 0..K {
        past.push(s.clone());
        command(&db, &mut s, kinds, K == 1);
    }
    let before = replayer(&effects, &repo, &db);
    let answer = sym::any_bytes::<2>();
    let ws = |x: u8| (x == 32) | ((x >= 9) & (x <= 13));
    let y = |x: u8| (x == b'y') | (x == b'Y');
    let yes = (y(answer[0]) & ws(answer[1])) | (ws(answer[0]) & (answer[0] != b'\n') & y(answer[1]));
    let (want, res) = if whole_command {
        // `git undo`: the last command
        let r = git_branchless_undo::undo(&effects, &git_run_info(), false, true).unwrap();
        (past[K - 1].clone(), r)
    } else {
        let back = sym::any_index(K) as isize;
        sym::assume(answer[0] < 128 && answer[1] < 128);
        let cursor = before.advance_cursor_by_transaction(before.make_default_cursor(), -(back + 1));
        let r = git_branchless_undo::testing::undo_events(&mut &answer[..], &effects, &repo, &git_run_info(), &mut db, &before, cursor).unwrap();
        if r.is_ok() {
            sym::check(yes, "nothing happens without a yes");
        } else {
            sym::check(!yes, "a yes is honoured");
        }
        let w = if r.is_ok() { past[K - 1 - back as usize].clone() } else { s.clone() };
        (w, r)
    };
    let (head, main, foo) = world_refs();
    sym::log(&format!("want {want:?} have HEAD {head:?} main {main:?} foo {foo:?}"));
    sym::check(head == Some(want.head), "HEAD is back where it was");
    sym::check(main == Some(want.main), "the main branch is back where it was");
    sym::check(foo == want.foo, "the branch is back where it was, or gone again");
    let after = replayer(&effects, &repo, &db);
    for i in 0..C {
        let active = matches!(after.get_cursor_commit_activity_status(after.make_default_cursor(), nz(i)), CommitActivityStatus::Active);
        sym::check(active == want.active[i], "the same commits are active as before");
    }
    match res {
        Ok(()) => sym::cover("undone"),
        Err(_) => sym::cover("declined"),
    }
}
pub fn refs_and_commits<const K: usize>() {
    run::<K>(5, false)
}
pub fn last_command<const K: usize>() {
    run::<K>(5, true)
}
