//! Restacking: the whole command.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::EventLogDb;

/// Any tree of `n` commits; `r` times a draft commit is replaced by a new one, placed anywhere; then `restack`.
pub fn run(n: usize, r: usize, refusals: bool) {
    let mut g = Graph::any_tree(n);
    let mut replaced: Vec<Option<usize>> = vec![None; n + r];
    for j in n..n + r {
        let k = 1 + sym::any_index(j - 1);
        sym::assume(replaced[k].is_none());
        replaced[k] = Some(j);
        g.parents.push(vec![sym::any_index(j)]);
    }
    let n = n + r;
    let foo = sym::any_index(n);
    let attached = sym::any_index(2) == 1;
    let s = Scene { g, main: 0, foo, head: if attached { Head::OnFoo } else { Head::Detached(foo) } };
    s.install();
    let g = &s.g;
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    for j in n - r..n {
        let t = tx(&db, "rewrite");
        let k = replaced.iter().position(|x| *x == Some(j)).unwrap();
        db.add_events(vec![rewrite_event(t, k, Some(j))]).unwrap();
    }
    let mut want = Want::same(g);
    want.replaced = replaced.clone();
    let mut moves = false;
    for i in 1..n {
        if replaced[i].is_none() {
            let p = g.parents[i][0];
            if replaced[p].is_some() {
                want.parent[i] = Some(want.home(p));
                moves = true;
            }
        }
    }
    // the places of replaced commits do not matter
    let mut live = Want::same(g);
    live.parent = (0..n).map(|i| if replaced[i].is_some() { None } else { want.parent[i] }).collect();
    let ok = !live.cyclic();
    sym::assume(ok || refusals);
    // a replaced commit which is still shown moves along with what it sits on
    for k in 0..n {
        let shown = (0..n).any(|d| g.anc(k, d) && (d == foo || replaced[d].is_none()));
        sym::assume(replaced[k].is_none() || !shown || !g.sits_on_moved(k, &want.parent));
    }
    let res = command(Command::Restack { revsets: vec![], resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false }, move_options: move_options() });
    let a = after(n, &eff, &repo, &db);
    sym::log(&format!(
        "parents {:?} replaced {replaced:?} foo {foo} attached {attached}: ok {} want {ok} parents {:?} now {:?} {:?} foo {:?} HEAD {:?}",
        g.parents,
        res.is_ok(),
        want.parent,
        a.version,
        w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        at("refs/heads/foo"),
        at("HEAD")
    ));
    sym::check(res.is_ok() == ok, "restacking fails only when a commit was replaced by something on top of itself");
    if !ok {
        sym::cover("refused");
        for i in 1..n {
            let now = if replaced[i].is_some() { vec![] } else { vec![i] };
            sym::check(a.version[i] == now, "a refused restack changes no commit");
        }
        sym::check(at("refs/heads/foo") == Some(foo) && at("HEAD") == Some(foo), "a refused restack moves nothing");
        sym::check(at(MAIN) == Some(0), "the main branch stays");
        return;
    }
    {
        for i in 0..n {
            want.keep[i] = !want.chain(i).iter().any(|k| want.parent[*k] != g.parents[*k].first().copied());
        }
    }
    let v = want.verify(g, &|i| s.public(i), &a);
    sym::check(at(MAIN) == Some(0), "the main branch stays");
    sym::check(at("refs/heads/foo") == Some(v[foo]), "branches end up at the current version of their commit");
    if !attached {
        let h = if replaced[foo].is_some() { foo } else { v[foo] };
        sym::check(at("HEAD") == Some(h) || at("HEAD") == Some(v[foo]), "HEAD stays at its commit or its current version");
    }
    sym::cover(if moves { "restacked" } else { "nothing to restack" });
}

/// Any tree of `n` commits; one draft commit is dropped, possibly after having been replaced first; then `restack`.
pub fn dropped(n: usize) {
    let mut g = Graph::any_tree(n);
    let k = 1 + sym::any_index(n - 1);
    let first_replaced = sym::any_index(2) == 1;
    if first_replaced {
        let p = sym::any_index(n);
        sym::assume(!g.anc(k, p));
        g.parents.push(vec![p]);
    }
    let n = g.n();
    let foo = sym::any_index(n);
    let s = Scene { g, main: 0, foo, head: Head::Detached(0) };
    s.install();
    let g = &s.g;
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let mut gone = vec![k];
    if first_replaced {
        db.add_events(vec![rewrite_event(tx(&db, "amend"), k, Some(n - 1))]).unwrap();
        gone.push(n - 1);
    }
    db.add_events(vec![rewrite_event(tx(&db, "drop"), *gone.last().unwrap(), None)]).unwrap();
    let res = command(Command::Restack { revsets: vec![], resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false }, move_options: move_options() });
    let a = after(n, &eff, &repo, &db);
    sym::log(&format!("parents {:?} gone {gone:?} foo {foo}: now {:?} {:?} foo {:?}", g.parents, a.version, w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(), at("refs/heads/foo")));
    sym::check(res.is_ok(), "restacking succeeds");
    sym::check(at(MAIN) == Some(0) && at("HEAD") == Some(0), "the main branch and the checkout stay");
    let mut v = vec![0; n];
    for i in 1..n {
        if gone.contains(&i) {
            sym::check(a.version[i].is_empty(), "a dropped commit stays dropped");
            v[i] = i;
        } else {
            sym::check(a.version[i].len() == 1, "every other commit has one current version");
            v[i] = a.version[i][0];
            // what a dropped commit leaves behind has nowhere to go
            let p = w().commits[v[i]].parents.clone();
            sym::check(p.len() == 1 && p[0].index() == v[g.parents[i][0]], "every other commit stays on what it was based on");
            sym::check(w().commits[v[i]].message == w().commits[i].message && w().commits[v[i]].tree == w().commits[i].tree, "and keeps its message and contents");
        }
    }
    if gone.contains(&foo) {
        sym::check(at("refs/heads/foo").is_none(), "a branch on a dropped commit goes away");
        sym::cover("branch removed");
    } else {
        sym::check(at("refs/heads/foo") == Some(v[foo]), "branches stay with their commits");
    }
    sym::cover(if first_replaced { "replaced, then dropped" } else { "dropped" });
}

impl Graph {
    /// Whether a commit below `k` is to be moved.
    fn sits_on_moved(&self, k: usize, parent: &[Option<usize>]) -> bool {
        (0..self.n()).any(|i| i != k && self.anc(i, k) && parent[i] != self.parents[i].first().copied())
    }
}
