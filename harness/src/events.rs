//! The event log: storage fidelity, replay of events, cursors, reference positions.
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use lib::core::eventlog::{testing, CommitActivityStatus, Event, EventLogDb, EventReplayer, EventTransactionId};
use lib::git::{MaybeZeroOid, NonZeroOid, ReferenceName};

/// Any object name whatsoever.
fn any_oid() -> O {
    O(sym::any_bytes::<20>())
}
fn any_nz() -> NonZeroOid {
    let o = any_oid();
    // the zero name is not a commit; choosing a nonzero first byte loses no generality for storage
    sym::assume(o.0[0] != 0);
    o.nz()
}
fn any_mz() -> MaybeZeroOid {
    if sym::any_bool() {
        MaybeZeroOid::Zero
    } else {
        MaybeZeroOid::NonZero(any_nz())
    }
}
/// Any reference name: two arbitrary ASCII characters after a prefix, optionally a non-ASCII one.
fn any_name() -> ReferenceName {
    let mut s = String::from("refs/heads/");
    let a = sym::any_in(1, 127);
    let b = sym::any_in(1, 127);
    s.push(a as char);
    s.push(b as char);
    s.push('é');
    s.into()
}
fn any_event(tx: EventTransactionId, timestamp: f64) -> Event {
    match sym::any_index(6) {
        0 => Event::RewriteEvent { timestamp, event_tx_id: tx, old_commit_oid: any_mz(), new_commit_oid: any_mz() },
        1 => Event::RefUpdateEvent {
            timestamp,
            event_tx_id: tx,
            ref_name: any_name(),
            old_oid: any_mz(),
            new_oid: any_mz(),
            message: if sym::any_bool() { Some(any_name()) } else { None },
        },
        2 => Event::CommitEvent { timestamp, event_tx_id: tx, commit_oid: any_nz() },
        3 => Event::ObsoleteEvent { timestamp, event_tx_id: tx, commit_oid: any_nz() },
        4 => Event::UnobsoleteEvent { timestamp, event_tx_id: tx, commit_oid: any_nz() },
        _ => Event::WorkingCopySnapshot {
            timestamp,
            event_tx_id: tx,
            head_oid: any_mz(),
            commit_oid: any_nz(),
            ref_name: if sym::any_bool() { Some(any_name()) } else { None },
        },
    }
}

/// What is recorded comes back unchanged, in order, through a fresh connection.
pub fn roundtrip<const N: usize>() {
    Graph::chain(1).install();
    refs(0, None);
    let repo = repo();
    let mut written: Vec<Event> = vec![];
    let mut messages = vec![];
    {
        let conn = repo.get_db_conn().unwrap();
        let db = EventLogDb::new(&conn).unwrap();
        sym::check(db.get_events().unwrap().is_empty(), "a new log is empty");
        let mut times = 1.25f64;
        let mut batch = vec![];
        let mut current: Option<EventTransactionId> = None;
        for i in 0..N {
            // continue the command, start another one, or a command that must not be recorded
            let how = if i == 0 { 1 + sym::any_index(2) } else { sym::any_index(3) };
            let tx = match how {
                0 => current.unwrap(),
                1 => {
                    let m = format!("m{}{}", i, sym::any_in(1, 127) as char);
                    let t = tx(&db, &m);
                    messages.push((t, m));
                    t
                }
                _ => EventTransactionId::Suppressed,
            };
            current = Some(tx);
            // time stamps are what the caller says: clocks go back, commits carry old dates
            times += if i > 0 && sym::any_index(2) == 1 { -0.75 } else { 1.5 };
            let e = any_event(tx, times);
            if tx != EventTransactionId::Suppressed {
                written.push(e.clone());
            }
            batch.push(e);
            if sym::any_bool() || i + 1 == N {
                db.add_events(std::mem::take(&mut batch)).unwrap();
            }
        }
    }
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let read = db.get_events().unwrap();
    sym::check(read.len() == written.len(), "every recorded event comes back, and no other");
    for (a, b) in read.iter().zip(written.iter()) {
        sym::check(a == b, "events come back unchanged and in order");
    }
    for (i, (t, m)) in messages.iter().enumerate() {
        sym::check(db.get_transaction_message(*t).unwrap() == *m, "a command's description comes back unchanged");
        for (u, _) in &messages[..i] {
            sym::check(u != t, "two commands never share an identifier");
        }
    }
    let fresh = tx(&db, "later");
    sym::check(messages.iter().all(|(t, _)| *t != fresh), "a later command gets a new identifier");
    if read.len() == N {
        sym::cover("all events kept");
    }
    if read.len() < N {
        sym::cover("suppressed");
    }
}

/// Several events of any kinds over any commands, batches and clocks: none lost, none reordered.
pub fn order<const N: usize>() {
    Graph::chain(1).install();
    refs(0, None);
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let mut written = vec![];
    let mut batch = vec![];
    // commands overlap in time
    let running = [tx(&db, "one"), tx(&db, "two")];
    for i in 0..N {
        let tx = match sym::any_index(4) {
            0 => EventTransactionId::Suppressed,
            3 => tx(&db, "cmd"),
            k => running[k - 1],
        };
        let timestamp = if sym::any_index(2) == 1 { 10.0 + i as f64 } else { 10.0 - i as f64 };
        let (a, b) = (c(10 + i), c(20 + i));
        let e = match sym::any_index(6) {
            0 => Event::RewriteEvent { timestamp, event_tx_id: tx, old_commit_oid: a.mz(), new_commit_oid: b.mz() },
            1 => Event::RefUpdateEvent { timestamp, event_tx_id: tx, ref_name: MAIN.into(), old_oid: a.mz(), new_oid: MaybeZeroOid::Zero, message: None },
            2 => Event::CommitEvent { timestamp, event_tx_id: tx, commit_oid: a.nz() },
            3 => Event::ObsoleteEvent { timestamp, event_tx_id: tx, commit_oid: a.nz() },
            4 => Event::UnobsoleteEvent { timestamp, event_tx_id: tx, commit_oid: a.nz() },
            _ => Event::WorkingCopySnapshot { timestamp, event_tx_id: tx, head_oid: a.mz(), commit_oid: b.nz(), ref_name: None },
        };
        if tx != EventTransactionId::Suppressed {
            written.push(e.clone());
        }
        batch.push(e);
        if i + 1 == N || sym::any_index(2) == 1 {
            db.add_events(std::mem::take(&mut batch)).unwrap();
        }
    }
    let read = EventLogDb::new(&repo.get_db_conn().unwrap()).unwrap().get_events().unwrap();
    sym::check(read == written, "every recorded event comes back, in order, and no other");
    if written.len() == N {
        sym::cover("all events kept");
    } else {
        sym::cover("suppressed");
    }
}

fn small_event(tx: EventTransactionId, commits: usize) -> (Event, Vec<(usize, bool)>) {
    let timestamp = 1.0;
    match sym::any_index(6) {
        0 => {
            // index == commits stands for "no commit"
            let (a, b) = (sym::any_index(commits + 1), sym::any_index(commits + 1));
            let mz = |i: usize| if i == commits { MaybeZeroOid::Zero } else { c(i).mz() };
            let mut eff = vec![];
            if a < commits {
                eff.push((a, false));
            }
            if b < commits {
                eff.push((b, true));
            }
            (Event::RewriteEvent { timestamp, event_tx_id: tx, old_commit_oid: mz(a), new_commit_oid: mz(b) }, eff)
        }
        1 => {
            let a = sym::any_index(commits);
            let e = Event::RefUpdateEvent {
                timestamp,
                event_tx_id: tx,
                ref_name: MAIN.into(),
                old_oid: MaybeZeroOid::Zero,
                new_oid: c(a).mz(),
                message: None,
            };
            (e, vec![])
        }
        2 => {
            let a = sym::any_index(commits);
            (commit_event(tx, a), vec![(a, true)])
        }
        3 => {
            let a = sym::any_index(commits);
            (hide_event(tx, a), vec![(a, false)])
        }
        4 => {
            let a = sym::any_index(commits);
            (unhide_event(tx, a), vec![(a, true)])
        }
        _ => {
            let a = sym::any_index(commits);
            let e = Event::WorkingCopySnapshot { timestamp, event_tx_id: tx, head_oid: c(a).mz(), commit_oid: c(a).nz(), ref_name: None };
            (e, vec![])
        }
    }
}

/// The state of every commit at every point in time follows from the last event about it.
pub fn status<const N: usize>() {
    const C: usize = 3;
    let mut r = testing::new_event_replayer(MAIN.into());
    let mut effs = vec![];
    for _ in 0..N {
        let (e, eff) = small_event(testing::new_event_transaction_id(1), C);
        r.process_event(&e);
        effs.push(eff);
    }
    for at in 0..=N {
        let cursor = r.make_cursor(at as isize);
        let oids = r.get_cursor_oids(cursor);
        let mut seen = 0;
        for i in 0..C {
            let mut last = None;
            for (k, eff) in effs[..at].iter().enumerate() {
                for (j, show) in eff {
                    if *j == i {
                        last = Some((k, *show));
                    }
                }
            }
            let st = r.get_cursor_commit_activity_status(cursor, nz(i));
            let ok = match (last, st) {
                (None, CommitActivityStatus::Inactive) => true,
                (Some((_, true)), CommitActivityStatus::Active) => true,
                (Some((_, false)), CommitActivityStatus::Obsolete) => true,
                _ => false,
            };
            sym::check(ok, "a commit's state is what the last event about it says");
            let ev = r.get_cursor_commit_latest_event(cursor, nz(i));
            let want = last.map(|(k, _)| &testing::get_event_replayer_events(&r)[k]);
            sym::check(ev == want, "the latest event about a commit is reported");
            sym::check(oids.contains(&nz(i)) == last.is_some(), "commits with recorded activity are known");
            seen += last.is_some() as usize;
        }
        sym::check(oids.len() == seen, "no other commit is known");
    }
    sym::cover("checked");
}

/// Moving through time by commands.
pub fn cursor<const N: usize>() {
    let mut r = testing::new_event_replayer(MAIN.into());
    let mut txs = vec![];
    let mut t = 0;
    for _ in 0..N {
        if t == 0 || sym::any_bool() {
            t += 1;
        }
        txs.push(t);
        r.process_event(&commit_event(testing::new_event_transaction_id(t), 0));
    }
    let mut bounds = vec![0usize];
    for i in 1..=N {
        if i == N || txs[i - 1] != txs[i] {
            bounds.push(i);
        }
    }
    let raw = sym::any_index(N + 3) as isize - 1;
    let cur = r.make_cursor(raw);
    let clamped = raw.clamp(0, N as isize) as usize;
    sym::check(cur == testing::new_event_cursor(clamped as isize), "a position outside the log is brought inside");
    sym::check(r.make_default_cursor() == testing::new_event_cursor(N as isize), "the present is after the last event");
    let by = sym::any_index(2 * N + 3) as isize - N as isize - 1;
    sym::check(r.advance_cursor(cur, by) == testing::new_event_cursor((clamped as isize + by).clamp(0, N as isize)), "moving by events");
    let k = bounds.iter().position(|b| *b >= clamped).unwrap() as isize;
    let want = bounds[(k + by).clamp(0, bounds.len() as isize - 1) as usize];
    let got = r.advance_cursor_by_transaction(cur, by);
    sym::check(got == testing::new_event_cursor(want as isize), "moving by whole commands lands on the right command boundary");
    sym::check(r.get_events_since_cursor(cur).len() == N - clamped, "events since a point in time");
    match r.get_event_before_cursor(cur) {
        None => sym::check(clamped == 0, "event before"),
        Some((id, e)) => sym::check(id as usize == clamped && e.get_event_tx_id() == testing::new_event_transaction_id(txs[clamped - 1]), "event before"),
    }
    if bounds.contains(&clamped) {
        match r.get_tx_events_before_cursor(cur) {
            None => sym::check(clamped == 0, "no command before the beginning"),
            Some((id, es)) => {
                let start = bounds[k as usize - 1];
                sym::check(id as usize == start + 1 && es.len() == clamped - start, "exactly the previous command's events");
            }
        }
    }
    sym::cover("checked");
}

/// Where HEAD, the main branch and other branches were at any time.
pub fn refs_at<const N: usize>() {
    const C: usize = 2;
    Graph::chain(C).install();
    refs(0, None);
    let repo = repo();
    let mut r: EventReplayer = testing::new_event_replayer(MAIN.into());
    let names = ["HEAD", MAIN, "refs/heads/foo", "refs/remotes/origin/foo", "refs/branchless/x", "ORIG_HEAD"];
    // oracle: positions of HEAD, main, foo after each event the replayer keeps
    let mut cur: [Option<usize>; 3] = [None; 3];
    let mut hist = vec![cur];
    let mut last_del: Option<usize> = None;
    for _ in 0..N {
        let tx = testing::new_event_transaction_id(1);
        match sym::any_index(3) {
            0 => {
                let n = sym::any_index(names.len());
                let target = sym::any_index(if n >= 2 { C + 1 } else { C });
                r.process_event(&Event::RefUpdateEvent {
                    timestamp: 1.0,
                    event_tx_id: tx,
                    ref_name: names[n].into(),
                    old_oid: MaybeZeroOid::Zero,
                    new_oid: if target == C { MaybeZeroOid::Zero } else { c(target).mz() },
                    message: None,
                });
                if n >= 4 {
                    continue;
                }
                if target == C && last_del == Some(n) {
                    continue; // reported twice by git
                }
                last_del = if target == C { Some(n) } else { None };
                if n < 3 {
                    cur[n] = if target == C { None } else { Some(target) };
                }
            }
            1 => {
                let i = sym::any_index(C);
                r.process_event(&commit_event(tx, i));
                cur[0] = Some(i);
                last_del = None;
            }
            _ => {
                let i = sym::any_index(C);
                r.process_event(&Event::WorkingCopySnapshot { timestamp: 1.0, event_tx_id: tx, head_oid: c(i).mz(), commit_oid: nz(i), ref_name: None });
                cur[0] = Some(i);
                last_del = None;
            }
        }
        hist.push(cur);
    }
    let len = testing::get_event_replayer_events(&r).len();
    sym::check(len == hist.len() - 1, "updates of internal references and repeated deletions are not shown");
    let at = sym::any_index(len + 1);
    let s = r.get_references_snapshot(&repo, r.make_cursor(at as isize)).unwrap();
    let want = hist[at];
    sym::check(s.head_oid.map(ix) == want[0], "where HEAD was");
    let main = want[1].unwrap_or(0);
    sym::check(ix(s.main_branch_oid) == main, "where the main branch was");
    for i in 0..C {
        let names = s.branch_oid_to_names.get(&nz(i));
        let has = |n: &str| names.map_or(false, |x| x.contains(&ReferenceName::from(n)));
        sym::check(has(MAIN) == (main == i), "branches: main");
        sym::check(has("refs/heads/foo") == (want[2] == Some(i)), "branches: foo");
        let count = names.map_or(0, |x| x.len());
        sym::check(count == (main == i) as usize + (want[2] == Some(i)) as usize, "branches: no other");
    }
    sym::cover("checked");
}
