//! Moving commits with merges on top of them.
use crate::fake::git::*;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::ResolveRevsetOptions;
use lib::core::eventlog::EventLogDb;

/// Any tree of `n` commits, a merge of any two of them, and `above` commits on top of that.
pub fn run(n: usize, above: usize, any_spot: bool) {
    let mut g = Graph::any_tree(n);
    let (p, q) = (sym::any_index(n), sym::any_index(n));
    sym::assume(!g.anc(p, q) && !g.anc(q, p));
    g.parents.push(vec![p, q]);
    for i in 0..above {
        g.parents.push(vec![n + i]);
    }
    let total = g.n();
    for (i, ps) in g.parents.iter().enumerate() {
        // merges bring nothing of their own
        let mut own = g.ancestors(1 << i);
        own &= !(1 << n);
        let mut files = vec![];
        for k in (0..total).filter(|k| own >> k & 1 == 1) {
            let blob = w().add_blob(format!("content {k}\n").as_bytes());
            files.push((format!("f{k}").into_bytes(), 0o100644, blob));
        }
        let tree = w().tree_from_files(&files);
        w().add_commit(Commit {
            parents: ps.iter().map(|p| c(*p)).collect(),
            tree,
            message: cs(&format!("commit {i}\n")),
            author: Sig::new("author", 100 + i as i64),
            committer: Sig::new("committer", 200 + i as i64),
        });
    }
    let spot = if any_spot { sym::any_index(total) } else { n };
    let attached = sym::any_index(2) == 1;
    branch("foo", spot);
    refs(0, Some(spot));
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    w().config_set("branchless.undo.createSnapshots", "false");
    crate::fake::proc::install_hooks();
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..total).map(|i| commit_event(t0, i)).collect()).unwrap();
    let (src, dst) = (sym::any_index(n), sym::any_index(total));
    sym::assume(src != 0 && !g.anc(src, dst));
    let mut want = Graph { parents: g.parents.clone() };
    want.parents[src] = vec![dst];
    // afterwards the merge must still be one of two lines
    sym::assume(!reaches(&want, p, q) && !reaches(&want, q, p));
    let res = git_branchless_move::r#move(
        &effects,
        &git_run_info(),
        vec![rev(src)],
        Some(rev(dst)),
        vec![],
        vec![],
        &ResolveRevsetOptions { show_hidden_commits: false },
        &move_options(),
        false,
        false,
    )
    .unwrap();
    let a = after(total, &effects, &repo, &db);
    sym::log(&format!(
        "parents {:?} spot {spot} attached {attached} src {src} dst {dst}; ok {} now {:?} {:?} HEAD {:?} foo {:?} ran {:?}",
        g.parents,
        res.is_ok(),
        a.version,
        w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        at("HEAD"),
        at("refs/heads/foo"),
        commands()
    ));
    sym::check(!crate::fake::rebase::underway(), "nothing is left to do");
    sym::check(res.is_ok(), "commits with merges on top are moved");
    let mut v = vec![0];
    for i in 1..total {
        sym::check(a.version[i].len() == 1, "every commit has exactly one current version");
        v.push(a.version[i][0]);
    }
    for i in 1..total {
        let com = &w().commits[v[i]];
        let parents: Vec<usize> = com.parents.iter().map(|p| p.index()).collect();
        sym::check(parents == want.parents[i].iter().map(|p| v[*p]).collect::<Vec<_>>(), "the commit has the right parents, in order");
        sym::check(com.author == w().commits[i].author, "the author is kept");
        let mut below = vec![];
        for k in 0..total {
            if k != n && reaches(&want, k, i) {
                below.push(k);
            }
        }
        let files: Vec<Vec<u8>> = w().files(com.tree).into_iter().map(|f| f.0).collect();
        sym::check(files == own_files(&below), "the contents are those of the commits below");
        if !g.anc(src, i) {
            sym::check(v[i] == i, "commits that were not moved keep their identity");
        }
    }
    sym::check(at(MAIN) == Some(0), "the main branch stays");
    sym::check(at("refs/heads/foo") == Some(v[spot]) && at("HEAD") == Some(v[spot]), "the branch and HEAD follow their commit");
    if attached {
        sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "HEAD stays on its branch");
    }
    sym::cover(if g.anc(src, n) { "merge moved" } else { "moved" });
}
/// Reachability when parents may come later than their children.
fn reaches(g: &Graph, a: usize, b: usize) -> bool {
    a == b || g.parents[b].iter().any(|p| reaches(g, a, *p))
}
