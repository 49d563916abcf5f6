//! The picture of the commit graph.
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use crate::visible::set;
use git_branchless_opts::{ResolveRevsetOptions, SmartlogArgs};
use git_branchless_smartlog::{make_smartlog_graph, render_graph};
use lib::core::dag::Dag;
use lib::core::effects::Effects;
use lib::core::eventlog::{testing, EventLogDb};
use lib::core::formatting::Glyphs;
use lib::core::node_descriptors::CommitOidDescriptor;
use lib::core::repo_ext::RepoExt;
use std::sync::{Arc, Mutex};

struct Shown<'a> {
    g: &'a Graph,
    main: usize,
    head: usize,
    obsolete: u32,
    /// Commits which must be there.
    must: u32,
    /// Commits which may be there.
    may: u32,
}
/// Every commit has one line, below its ancestors, with the right mark.
fn verify(s: &Shown, lines: &[String]) {
    let n = s.g.n();
    let mut place = vec![None; n];
    for (k, l) in lines.iter().enumerate() {
        if l.contains("(merge)") || l.starts_with("hint:") || l.contains("omitted") {
            continue;
        }
        for i in 0..n {
            let id = nz(i).to_string();
            // commits are told apart by their first digits
            if let Some(at) = l.find(&id[..7]) {
                sym::check(place[i].is_none(), "no commit is shown twice");
                place[i] = Some(k);
                let public = s.g.anc(i, s.main);
                let mark = match (public, s.obsolete >> i & 1 == 1, i == s.head) {
                    (_, false, true) => '@',
                    (_, true, true) => '%',
                    (true, false, false) => 'O',
                    (true, true, false) => 'X',
                    (false, false, false) => 'o',
                    (false, true, false) => 'x',
                };
                sym::check(l[..at].trim_end().ends_with(mark), "the mark says whether the commit is public, hidden and checked out");
            }
        }
    }
    for i in 0..n {
        sym::check(s.must >> i & 1 == 0 || place[i].is_some(), "every commit asked for is shown");
        sym::check(s.may >> i & 1 == 1 || place[i].is_none(), "nothing else is shown");
        for j in 0..n {
            if let (Some(a), Some(b)) = (place[i], place[j]) {
                sym::check(!on_top(s.g, i, j) || a < b, "commits are below the ones they are based on");
            }
        }
    }
}
/// Is `j` on top of `i`, apart from what was merged?
fn on_top(g: &Graph, i: usize, mut j: usize) -> bool {
    while let Some(p) = g.parents[j].first() {
        if *p == i {
            return true;
        }
        j = *p;
    }
    false
}
/// Commits need not be dated in order.
fn any_dates(n: usize) {
    if sym::any_index(2) == 1 {
        for i in 0..n {
            w().commits[i].committer = Sig::new("committer", 200 - i as i64);
        }
    }
}
/// Common ancestors of all of `s` which no other such commit is on top of.
fn bases(g: &Graph, s: u32) -> u32 {
    let common = (0..g.n()).filter(|i| s & !g.descendants(1 << i) == 0).fold(0, |m, i| m | 1 << i);
    g.heads(common)
}

/// Any commits of any graph.
pub fn graph(g: Graph, exact: bool, hide: bool) {
    let n = g.n();
    g.install();
    any_dates(n);
    let main = sym::any_index(n);
    let head = sym::any_index(n);
    refs(main, Some(head));
    let x = sym::any_index((1 << n) - 1) as u32 + 1;
    let obsolete = if hide { 1 << sym::any_index(n) } else { 0 };
    let repo = repo();
    let eff = effects();
    let mut r = testing::new_event_replayer(MAIN.into());
    let tx = testing::new_event_transaction_id(1);
    for i in 0..n {
        r.process_event(&if obsolete >> i & 1 == 1 { hide_event(tx, i) } else { commit_event(tx, i) });
    }
    let snap = repo.get_references_snapshot().unwrap();
    let dag = Dag::open_and_sync(&eff, &repo, &r, r.make_default_cursor(), &snap).unwrap();
    let sg = make_smartlog_graph(&eff, &repo, &dag, &r, r.make_default_cursor(), &set(x), exact).unwrap();
    let lines = render_graph(&eff, &repo, &dag, &sg, snap.head_oid, &mut [&mut CommitOidDescriptor::new(true).unwrap()]).unwrap();
    let lines: Vec<String> = lines.into_iter().map(|l| eff.get_glyphs().render(l).unwrap()).collect();
    let must = if exact { x } else { x | 1 << main | 1 << head };
    let mut may = must;
    if must >> main & 1 == 1 {
        for i in 0..n {
            if must >> i & 1 == 1 {
                may |= bases(&g, 1 << main | 1 << i);
            }
        }
    } else {
        may |= bases(&g, must);
    }
    sym::log(&format!("parents {:?} main {main} head {head} shown {x:b} hidden {obsolete:b}: {lines:?}", g.parents));
    verify(&Shown { g: &g, main, head, obsolete, must, may }, &lines);
    sym::cover("shown");
}

/// The command without arguments.
pub fn command(n: usize, dag: bool) {
    let g = if dag { Graph::any_dag(n) } else { Graph::any_tree(n) };
    g.install();
    any_dates(n);
    let main = sym::any_index(n);
    let head = sym::any_index(n);
    let foo = sym::any_index(n);
    refs(main, Some(head));
    branch("foo", foo);
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t = tx(&db, "setup");
    db.add_events((0..n).map(|i| commit_event(t, i)).collect()).unwrap();
    let hide = sym::any_index(n + 1);
    let obsolete = if hide < n { 1u32 << hide } else { 0 };
    if hide < n {
        db.add_events(vec![hide_event(tx(&db, "hide"), hide)]).unwrap();
    }
    let (out, err) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let ctx = git_branchless_invoke::CommandContext { effects: Effects::new_from_buffer_for_test(Glyphs::text(), &out, &err), git_run_info: git_run_info() };
    let args = SmartlogArgs { event_id: None, revset: None, reverse: false, exact: false, resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false } };
    git_branchless_smartlog::command_main(ctx, args).unwrap().unwrap();
    let text = String::from_utf8(out.lock().unwrap().clone()).unwrap();
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    sym::log(&format!("parents {:?} main {main} head {head} foo {foo} hidden {obsolete:b}: {lines:?}", g.parents));
    let all = (1u32 << n) - 1;
    let public = g.ancestors(1 << main);
    let visible = g.ancestors(all & !obsolete | 1 << main | 1 << head | 1 << foo);
    let must = visible & !public | 1 << main | 1 << head | 1 << foo;
    let mut may = must;
    for i in 0..n {
        if must >> i & 1 == 1 {
            may |= bases(&g, 1 << main | 1 << i);
        }
    }
    verify(&Shown { g: &g, main, head, obsolete, must, may }, &lines);
    for (name, k) in [("(foo", foo), ("master", main)] {
        let with: Vec<&String> = lines.iter().filter(|l| l.contains(name) && !l.contains("(merge)")).collect();
        let _ = k;
        sym::check(with.len() <= 1, "a branch is named once");
    }
    sym::cover("shown");
}
