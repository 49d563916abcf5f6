//! Which commits are shown: visible, draft, public, obsolete, stacks.
use crate::scene::*;
use crate::sym;
use lib::core::dag::{CommitSet, Dag};
use lib::core::eventlog::testing;
use lib::core::repo_ext::RepoExt;

pub fn mask(dag: &Dag, s: &CommitSet) -> u32 {
    dag.commit_set_to_vec(s).unwrap().into_iter().fold(0, |m, o| m | 1 << ix(o))
}
pub fn set(m: u32) -> CommitSet {
    (0..32).filter(|i| m >> i & 1 == 1).map(nz).collect()
}

fn sets(g: &Graph, branch_too: bool) {
    let n = g.n();
    g.install();
    let main = sym::any_index(n);
    let head = sym::any_index(n);
    let br = if branch_too { sym::any_index(n + 1) } else { n };
    refs(main, Some(head));
    if br < n {
        branch("foo", br);
    }
    let repo = repo();
    let effects = effects();
    let mut r = testing::new_event_replayer(MAIN.into());
    let tx = testing::new_event_transaction_id(1);
    let (mut active, mut obsolete) = (0u32, 0u32);
    for i in 0..n {
        match sym::any_index(3) {
            0 => {}
            1 => {
                r.process_event(&commit_event(tx, i));
                active |= 1 << i;
            }
            _ => {
                r.process_event(&hide_event(tx, i));
                obsolete |= 1 << i;
            }
        }
    }
    let snap = repo.get_references_snapshot().unwrap();
    let dag = Dag::open_and_sync(&effects, &repo, &r, r.make_default_cursor(), &snap).unwrap();

    let pinned = 1 << main | 1 << head | if br < n { 1 << br } else { 0 };
    let visible = g.ancestors(active | pinned);
    let public = g.ancestors(1 << main);
    let draft = visible & !public;
    sym::check(mask(&dag, &dag.query_obsolete_commits()) == obsolete, "hidden commits");
    sym::check(mask(&dag, dag.query_public_commits_slow().unwrap()) == public, "public commits are the main branch's history");
    sym::check(mask(&dag, dag.query_visible_commits_slow().unwrap()) == visible, "visible commits: active ones, HEAD, branches, and everything below");
    sym::check(mask(&dag, dag.query_draft_commits().unwrap()) == draft, "draft commits: visible and not public");
    let known = g.ancestors(active | obsolete | pinned);
    for i in (0..n).filter(|i| known >> i & 1 == 1) {
        sym::check(dag.is_public_commit(nz(i)).unwrap() == (public >> i & 1 == 1), "public test for one commit");
    }
    for q in (0..n).map(|i| 1 << i & known).chain([known]) {
        sym::check(mask(&dag, &dag.filter_visible_commits(set(q)).unwrap()) == q & visible, "filtering keeps exactly the visible commits");
    }
    sym::cover("checked");
}
pub fn sets_tree<const N: usize>() {
    sets(&Graph::any_tree(N), true)
}
pub fn sets_dag<const N: usize>() {
    sets(&Graph::any_dag(N), false)
}
