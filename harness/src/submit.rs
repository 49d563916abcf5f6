//! `git submit`: branches of the chosen commits are put onto the servers.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions, SubmitArgs};
use lib::core::eventlog::EventLogDb;

/// What the server has of a branch.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
    /// Nothing.
    Local,
    /// Some version of it.
    Tracked,
    /// It was deleted there.
    Gone,
    /// Somebody else made a branch of that name.
    Theirs,
    /// Another server than the default one has it.
    Elsewhere,
}
pub const ALL: &[Where] = &[Where::Local, Where::Tracked, Where::Gone, Where::Theirs, Where::Elsewhere];

struct B {
    name: &'static str,
    at: usize,
    place: Where,
    remote: &'static str,
    /// Version on the server.
    there: Option<usize>,
}
fn server(b: &B, remote: &str) -> Option<usize> {
    w().servers.iter().find(|s| s.0 == remote.as_bytes() && s.1 == b.name.as_bytes()).map(|s| s.2.index())
}
fn place(name: &'static str, n: usize, places: &[Where], exact: bool) -> B {
    let at = 1 + sym::any_index(n - 1);
    let place = places[sym::any_index(places.len())];
    let remote = if place == Where::Elsewhere { "other" } else { "origin" };
    let there = match place {
        Where::Local | Where::Gone => None,
        Where::Theirs if exact => Some([0, n - 1][sym::any_index(2)]),
        _ if exact => Some(0),
        _ => Some(sym::any_index(n)),
    };
    branch(name, at);
    if let Some(s) = there {
        w().servers.push((remote.as_bytes().to_vec(), name.as_bytes().to_vec(), c(s)));
    }
    if matches!(place, Where::Tracked | Where::Gone | Where::Elsewhere) {
        w().config_set(&format!("branch.{name}.remote"), remote);
        w().config_set(&format!("branch.{name}.merge"), &format!("refs/heads/{name}"));
        // what was last seen of it may be outdated
        let seen = match there {
            Some(s) if !exact && sym::any_index(2) == 1 => s,
            _ => at,
        };
        w().set_ref(&cs(&format!("refs/remotes/{remote}/{name}")), RefVal::Direct(c(seen)));
    }
    B { name, at, place, remote, there }
}

/// A tree of `n` commits with the first one public; `foo` and perhaps `bar` on any others.
/// Options: 1 all, 2 any chosen commits with or without creating, 3 where the default server comes from.
pub fn run(n: usize, foo: &[Where], bar: &[Where], what: usize) {
    let g = if what == 1 { Graph::any_tree(n) } else { Graph { parents: (0..n).map(|i| if i == 0 { vec![] } else { vec![i - 1] }).collect() } };
    g.install();
    refs(0, Some(1));
    w().remotes = vec![cs("origin"), cs("other")];
    let mut branches = vec![place("foo", n, foo, what != 1)];
    if !bar.is_empty() {
        branches.push(place("bar", n, bar, what != 1));
    }
    // where new branches go
    let default = if what == 3 { sym::any_index(4) } else { 0 };
    let target = match default {
        0 => {
            w().config_set("remote.pushDefault", "origin");
            Some("origin")
        }
        1 => {
            w().config_set("branch.master.remote", "origin");
            w().config_set("remote.pushDefault", "other");
            Some("origin")
        }
        2 => {
            w().config_set("branch.master.pushRemote", "other");
            w().config_set("branch.master.remote", "origin");
            Some("other")
        }
        _ => None,
    };
    // somebody else may be faster
    let race = match branches[0].place {
        Where::Tracked if what == 1 => Some(sym::any_index(n + 1)).filter(|x| *x < n),
        _ => None,
    };
    if let Some(to) = race {
        w().race.push((0, c(to)));
    }
    let create = sym::any_index(2) == 1;
    let dry = what != 2 && sym::any_index(2) == 1;
    let chosen: u32 = match what {
        2 => (1 + sym::any_index(3) as u32) << 1,
        // the one with the main branch as well
        3 => 2 << sym::any_index(n - 1) | 1,
        _ => 2 << sym::any_index(n - 1),
    };
    crate::fake::proc::install_hooks();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..n).map(|i| commit_event(t0, i)).collect()).unwrap();

    let own = |r: &&(Vec<u8>, RefVal)| r.0.starts_with(b"refs/heads/") || r.0.starts_with(b"HEAD");
    let (refs0, servers0, config0, commits0) = (w().refs.clone(), w().servers.clone(), w().config.clone(), w().commits.len());
    let args = SubmitArgs {
        revsets: (0..n).filter(|i| chosen >> i & 1 == 1).map(rev).collect(),
        resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false },
        forge_kind: None,
        create,
        draft: false,
        message: None,
        num_jobs: None,
        execution_strategy: None,
        dry_run: dry,
    };
    let res = command(Command::Submit(args));
    sym::log(&format!(
        "parents {:?} {:?} race {race:?} default {default} create {create} dry {dry} chosen {chosen:b}; ok {} servers {:?} ran {:?}",
        g.parents,
        branches.iter().map(|b| (b.name, b.at, b.place, b.there)).collect::<Vec<_>>(),
        res.is_ok(),
        w().servers.iter().map(|s| (String::from_utf8_lossy(&s.0).into_owned(), String::from_utf8_lossy(&s.1).into_owned(), s.2.index())).collect::<Vec<_>>(),
        commands()
    ));
    sym::check(w().servers.iter().all(|s| branches.iter().any(|b| b.name.as_bytes() == s.1)), "the main branch is not submitted");
    sym::check(w().refs.iter().filter(own).eq(refs0.iter().filter(own)) && w().commits.len() == commits0, "nothing changes here");
    let is_chosen = |b: &B| chosen >> b.at & 1 == 1;
    let alone = |b: &B| branches.iter().filter(|x| x.at == b.at).count() == 1;
    if branches.iter().any(|b| is_chosen(b) && b.place == Where::Gone) {
        sym::cover("gone");
        sym::check(res.is_err() && w().servers == servers0, "when a branch was deleted on the server, nothing is submitted");
        return;
    }
    let raced = race.filter(|_| is_chosen(&branches[0]));
    if let Some(to) = raced {
        sym::cover("race");
        let untouched = branches[0].there == Some(branches[0].at) || dry;
        let fails = !untouched && race != branches[0].there;
        sym::check(res.is_ok() == !fails && server(&branches[0], "origin") == Some(if fails || untouched { to } else { branches[0].at }), "what somebody else has just put there is not overwritten");
        return;
    }
    if dry {
        sym::cover("dry");
        sym::check(res.is_ok() && w().servers == servers0 && w().config == config0, "a dry run submits nothing");
        return;
    }
    // new branches come first; if that fails, nothing is updated
    let new = |b: &B| create && is_chosen(b) && alone(b) && matches!(b.place, Where::Local | Where::Theirs);
    let some_new = branches.iter().any(|b| new(b));
    let clash = |b: &B| new(b) && target == Some("origin") && b.place == Where::Theirs && !g.anc(b.there.unwrap(), b.at);
    let fails = (some_new && target.is_none()) || branches.iter().any(|b| clash(b));
    sym::check(res.is_ok() == !fails, "submitting fails only if there is no server for new branches or somebody else's branch is in the way");
    if fails {
        sym::cover("failed");
    }
    for b in &branches {
        let (origin, other) = (server(b, "origin"), server(b, "other"));
        let before = |r: &str| if b.remote == r { b.there } else { None };
        let (mut o, mut x) = (before("origin"), before("other"));
        if new(b) && target.is_some() && !clash(b) {
            sym::cover("created");
            *if target == Some("origin") { &mut o } else { &mut x } = Some(b.at);
            let key = cs(&format!("branch.{}.remote", b.name));
            sym::check(w().config.iter().any(|k| k.0 == key && k.1 == cs(target.unwrap())), "the new branch is known to be there");
        } else if is_chosen(b) && alone(b) && matches!(b.place, Where::Tracked | Where::Elsewhere) && !fails {
            sym::cover(if b.there == Some(b.at) { "up to date" } else { "updated" });
            *if b.remote == "origin" { &mut o } else { &mut x } = Some(b.at);
        } else {
            sym::cover("left alone");
        }
        sym::check((origin, other) == (o, x), "exactly the chosen branches are put onto their servers");
    }
}
