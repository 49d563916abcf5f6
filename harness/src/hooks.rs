//! What the hooks record.
use crate::fake::git::*;
use crate::fake::proc::hook;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use lib::core::eventlog::{CommitActivityStatus, Event, EventLogDb};
use lib::git::MaybeZeroOid;

const ZERO: &str = "0000000000000000000000000000000000000000";
const NAMES: [&str; 8] = ["refs/heads/foo", "HEAD", "refs/tags/v1", "ORIG_HEAD", "refs/branchless/x", "FETCH_HEAD", "refs/remotes/origin/foo", "refs/heads/ORIG_HEAD"];

fn mz(o: Option<usize>) -> MaybeZeroOid {
    match o {
        None => MaybeZeroOid::Zero,
        Some(i) => MaybeZeroOid::NonZero(nz(i)),
    }
}

/// `reference-transaction`: any `k` updates, any packed references.
pub fn transaction(k: usize) {
    Graph::chain(3).install();
    refs(0, Some(1));
    branch("foo", 2);
    crate::fake::proc::install_hooks();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let mut input = String::new();
    let state = ["committed", "prepared", "aborted"][sym::any_index(3)];
    let packed = sym::any_index(3);
    if packed > 0 {
        // foo and the tag are in the packed file
        std::fs::write(
            git_dir().join("packed-refs"),
            format!("# pack-refs with: peeled fully-peeled sorted \n{} refs/heads/foo\n{} refs/tags/v1\n^{}\n", nz(2), nz(packed - 1), nz(1)),
        )
        .unwrap();
    }
    let mut want = vec![];
    let mut fixed = false;
    for _ in 0..k {
        let name = NAMES[sym::any_index(if k == 1 { 8 } else { 4 })];
        // 0..3 commits, 3 nothing, 4 "ref:" to foo
        let (old, new) = (sym::any_index(5), sym::any_index(5));
        let text = |v: usize| match v {
            3 => ZERO.to_string(),
            4 => "ref:refs/heads/foo".to_string(),
            i => nz(i).to_string(),
        };
        let value = |v: usize| match v {
            3 => None,
            4 => Some(2),
            i => Some(i),
        };
        // a symbolic value only makes sense for HEAD
        sym::assume(name == "HEAD" || (old != 4 && new != 4));
        input += &format!("{} {} {name}\n", text(old), text(new));
        if !["HEAD", "refs/heads/foo", "refs/tags/v1", "refs/remotes/origin/foo", "refs/heads/ORIG_HEAD"].contains(&name) {
            continue;
        }
        let in_pack = match name {
            "refs/heads/foo" if packed > 0 => Some(2),
            "refs/tags/v1" if packed > 0 => Some(packed - 1),
            _ => None,
        };
        let (mut o, mut n) = (value(old), value(new));
        if o.is_none() && n.is_some() && n == in_pack {
            o = n;
            fixed = true;
        } else if n.is_none() && o.is_some() && o == in_pack {
            n = o;
            fixed = true;
        }
        want.push((name, o, n));
    }
    if state != "committed" {
        want.clear();
    }
    let res = hook(&[], &[b"reference-transaction", state.as_bytes()], input.as_bytes());
    sym::check(res == 0, "the hook succeeds");
    let events = db.get_events().unwrap();
    sym::log(&format!("state {state} packed {packed} {input:?}: {events:?} want {want:?}"));
    sym::check(events.len() == want.len(), "exactly the updates of user-visible references are recorded, once committed");
    for (e, (name, o, n)) in events.iter().zip(&want) {
        match e {
            Event::RefUpdateEvent { ref_name, old_oid, new_oid, .. } => {
                sym::check(ref_name.as_str() == *name, "under the right name");
                sym::check(*old_oid == mz(*o) && *new_oid == mz(*n), "with the true old and new position");
            }
            _ => sym::check(false, "only reference updates are recorded"),
        }
    }
    if want.len() == k {
        sym::cover("recorded");
    } else {
        sym::cover("ignored");
    }
    if fixed {
        sym::cover("packed");
    }
}

/// A rebase run by git itself: commits made meanwhile are only recorded when it completes, together with the rewrites.
pub fn rebase(n: usize) {
    // 0 <- 1 .. n-1 drafts; n..2n-2 the rewritten versions
    let mut g = Graph::any_tree(n);
    for i in 1..n {
        let p = g.parents[i][0];
        g.parents.push(vec![if p == 0 { 0 } else { n + p - 1 }]);
    }
    let s = Scene { g, main: 0, foo: sym::any_index(n), head: Head::Detached(0) };
    s.install();
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t = tx(&db, "made");
    db.add_events((1..n).map(|i| commit_event(t, i)).collect()).unwrap();
    let dir = git_dir().join("rebase-merge");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("interactive"), b"").unwrap();
    w().state = 7;
    // the rebase gets to commit `upto`; each step makes a commit or drops it
    let mut list = String::new();
    let mut made = vec![false; n];
    for i in 1..n {
        made[i] = sym::any_index(2) == 1;
        if made[i] {
            w().set_ref(b"HEAD\0", RefVal::Direct(c(n + i - 1)));
            sym::check(hook(&[], &[b"post-commit"], b"") == 0, "the hook succeeds");
            if sym::any_index(2) == 1 {
                // git also reports an amend while a commit is being edited
                let l = format!("{} {}\n", nz(n + i - 1), nz(n + i - 1));
                sym::check(hook(&[], &[b"post-rewrite", b"amend"], l.as_bytes()) == 0, "the hook succeeds");
            }
            list += &format!("{} {}\n", nz(i), nz(n + i - 1));
        } else {
            list += &format!("{} {ZERO}\n", nz(i));
        }
    }
    let status = |db: &EventLogDb| -> Vec<bool> {
        let r = replayer(&eff, &repo, db);
        let cur = r.make_default_cursor();
        (0..2 * n - 1).map(|k| matches!(r.get_cursor_commit_activity_status(cur, nz(k)), CommitActivityStatus::Active)).collect()
    };
    let mid = status(&db);
    for i in 1..n {
        sym::check(mid[i] && !mid[n + i - 1], "nothing changes until the rebase is done");
    }
    if sym::any_index(2) == 1 {
        sym::check(hook(&[], &[b"post-rewrite", b"rebase"], list.as_bytes()) == 0, "the hook succeeds");
        let end = status(&db);
        sym::log(&format!("parents {:?} made {made:?}: {mid:?} -> {end:?}", s.g.parents));
        for i in 1..n {
            sym::check(!end[i] && end[n + i - 1] == made[i], "the new versions replace the old ones");
        }
        sym::cover("completed");
    } else {
        // given up
        for f in ["interactive", "deferred-commits"] {
            let _ = std::fs::remove_file(dir.join(f));
        }
        std::fs::remove_dir(&dir).unwrap();
        w().state = 0;
        w().set_ref(b"HEAD\0", RefVal::Direct(c(0)));
        let end = status(&db);
        sym::check(end == mid, "a rebase that was given up leaves no trace");
        sym::cover("given up");
    }
    sym::check(at("refs/heads/foo") == Some(s.foo), "branches stay put during a plain rebase");
}
