//! Moving commits that edit the same file: merge conflicts and commits that become empty.
use crate::fake::git::*;
use crate::fake::rebase;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::ResolveRevsetOptions;
use lib::core::eventlog::EventLogDb;

pub type Files = Vec<(Vec<u8>, usize)>;
fn get(f: &Files, name: &[u8]) -> Option<usize> {
    f.iter().find(|x| x.0 == name).map(|x| x.1)
}
/// File-level three-way merge; `resolved` is the user's way out of a conflict, if there is any.
pub fn merge3(base: &Files, ours: &Files, theirs: &Files, resolved: &dyn Fn(Option<usize>) -> Option<usize>) -> Option<Files> {
    let mut names: Vec<&Vec<u8>> = base.iter().chain(ours).chain(theirs).map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    let mut out = vec![];
    for n in names {
        let (b, o, t) = (get(base, n), get(ours, n), get(theirs, n));
        let r = if b == o {
            t
        } else if b == t || o == t {
            o
        } else {
            Some(resolved(t)?)
        };
        if let Some(r) = r {
            out.push((n.clone(), r));
        }
    }
    Some(out)
}
pub fn files_of(k: usize) -> Files {
    w().files(w().commits[k].tree).into_iter().map(|f| (f.0, f.2.index())).collect()
}

/// Commit `i` sets the shared file to one of `values` contents and may add a file of its own.
pub fn install(g: &Graph, shared: &[usize], second: &[usize], own: &[bool]) {
    let wd = w();
    for (i, ps) in g.parents.iter().enumerate() {
        let mut files = match ps.first() {
            Some(p) => wd.files(wd.commits[*p].tree),
            None => vec![],
        };
        let blob = wd.add_blob(format!("shared {}\n", shared[i]).as_bytes());
        files.retain(|f| f.0 != b"s");
        files.push((b"s".to_vec(), 0o100644, blob));
        if !second.is_empty() {
            let blob = wd.add_blob(format!("second {}\n", second[i]).as_bytes());
            files.retain(|f| f.0 != b"t");
            files.push((b"t".to_vec(), 0o100644, blob));
        }
        if own[i] {
            let blob = wd.add_blob(format!("content {i}\n").as_bytes());
            files.push((format!("f{i}").into_bytes(), 0o100644, blob));
        }
        files.sort_by(|a, b| a.0.cmp(&b.0));
        let tree = wd.tree_from_files(&files);
        wd.add_commit(Commit {
            parents: ps.iter().map(|p| c(*p)).collect(),
            tree,
            message: cs(&format!("commit {i}\n")),
            author: Sig::new("author", 100 + i as i64),
            committer: Sig::new("committer", 200 + i as i64),
        });
    }
}

pub fn run(n: usize, values: usize, any_own: bool) {
    let g = Graph::any_tree(n);
    let mut shared = vec![0];
    let mut own = vec![true];
    for i in 1..n {
        shared.push(sym::any_index(values));
        own.push(any_own && sym::any_index(2) == 1);
        // the commits change something
        sym::assume(own[i] || shared[i] != shared[g.parents[i][0]]);
    }
    install(&g, &shared, &[], &own);
    check(g, None, &format!("shared {shared:?} own {own:?}"))
}
/// Does the user resolve conflicts, rather than giving up?
static mut RESOLVE: bool = false;
pub fn resolving(f: fn()) {
    unsafe { RESOLVE = true }
    on_disk(f)
}
/// Two commits in a row moved onto a third, all editing the same two files.
pub fn pair() {
    let g = Graph { parents: vec![vec![], vec![0], vec![1], vec![0]] };
    let (mut s, mut t) = (vec![0], vec![0]);
    for i in 1..4 {
        s.push(sym::any_index(2));
        t.push(sym::any_index(2));
        let p = g.parents[i][0];
        sym::assume(s[i] != s[p] || t[i] != t[p]);
    }
    install(&g, &s, &t, &[true, false, false, false]);
    check(g, Some((1, 3)), &format!("s {s:?} t {t:?}"))
}
fn check(g: Graph, fixed: Option<(usize, usize)>, about: &str) {
    let n = g.n();
    let spot = sym::any_index(n);
    let attached = sym::any_index(2) == 1;
    branch("foo", spot);
    refs(0, Some(spot));
    if attached {
        w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    }
    w().config_set("branchless.undo.createSnapshots", "false");
    crate::fake::proc::install_hooks();
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events((1..n).map(|i| commit_event(t0, i)).collect()).unwrap();
    let (src, dst) = fixed.unwrap_or_else(|| (sym::any_index(n), sym::any_index(n)));
    sym::assume(src != 0 && !g.anc(src, dst));
    let refs0 = w().refs.clone();
    // ---- what must happen
    let mut conflict = false;
    let mut resolved = false;
    // conflicts are resolved to the moved commit's side or to something new
    let take_theirs = unsafe { RESOLVE } && sym::any_index(2) == 1;
    let fresh: Vec<O> = (0..n).map(|i| w().add_blob(format!("resolved {i}\n").as_bytes())).collect();
    let resolution = |i: usize, theirs: Option<usize>| match theirs {
        Some(t) if take_theirs => t,
        _ => fresh[i].index(),
    };
    // new place and contents of every commit; None when it was dropped
    let mut place: Vec<Option<(usize, Files)>> = vec![None; n]; // (parent in terms of originals, files)
    let mut stand: Vec<usize> = (0..n).collect(); // the commit that stands where `i` stood
    let mut now: Vec<Files> = (0..n).map(files_of).collect();
    for i in 1..n {
        if !g.anc(src, i) {
            place[i] = Some((g.parents[i][0], now[i].clone()));
            continue;
        }
        let p = stand[if i == src { dst } else { g.parents[i][0] }];
        let way_out = |t| match unsafe { RESOLVE } {
            true => Some(resolution(i, t)),
            false => None,
        };
        let old = files_of(g.parents[i][0]);
        let conflicts = merge3(&old, &now[p], &files_of(i), &|_| None).is_none();
        resolved |= conflicts && unsafe { RESOLVE };
        match merge3(&old, &now[p], &files_of(i), &way_out) {
            None => conflict = true,
            Some(f) if f == now[p] => stand[i] = p,
            Some(f) => {
                now[i] = f.clone();
                place[i] = Some((p, f));
            }
        }
        if conflict {
            break;
        }
    }
    sym::assume(resolved || !unsafe { RESOLVE });
    let res = git_branchless_move::r#move(
        &effects,
        &git_run_info(),
        vec![rev(src)],
        Some(rev(dst)),
        vec![],
        vec![],
        &ResolveRevsetOptions { show_hidden_commits: false },
        &move_options(),
        false,
        false,
    )
    .unwrap();
    if res.is_err() && unsafe { ON_DISK || EITHER } {
        sym::check(rebase::underway(), "the conflict is left for the user to resolve");
        if unsafe { RESOLVE } {
            while rebase::underway() {
                rebase::resolve(&[], |i, theirs| oid(BLOB, resolution(i.index(), theirs.map(|t| t.index()))));
                rebase::go_on(&[]);
            }
        } else {
            rebase::abort(&[]);
        }
    }
    let a = after(n, &effects, &repo, &db);
    sym::log(&format!(
        "parents {:?} {about} spot {spot} attached {attached} src {src} dst {dst}; ok {} conflict {conflict} place {place:?} now {:?} HEAD {:?} foo {:?} ran {:?}",
        g.parents,
        res.is_ok(),
        a.version,
        at("HEAD"),
        at("refs/heads/foo"),
        commands()
    ));
    sym::check(res.is_ok() == !(conflict || resolved), "the move fails exactly when two sides changed the same file differently");
    sym::check(at(MAIN) == Some(0), "the main branch stays");
    if conflict {
        sym::cover("conflict");
        let live = |r: &&(Vec<u8>, RefVal)| !r.0.starts_with(b"refs/branchless/") && r.0 != b"ORIG_HEAD\0";
        sym::check(w().refs.iter().filter(live).eq(refs0.iter().filter(live)), "after a conflict every reference is where it was");
        for i in 1..n {
            sym::check(a.version[i] == [i], "after a conflict every commit is still current");
        }
        return;
    }
    let mut v = vec![0usize];
    for i in 1..n {
        match &place[i] {
            None => {
                sym::cover("emptied");
                sym::check(a.version[i].is_empty(), "a commit that became empty is dropped");
                v.push(usize::MAX);
            }
            Some(_) => {
                sym::check(a.version[i].len() == 1, "every other commit has exactly one current version");
                v.push(a.version[i][0]);
            }
        }
    }
    for i in 1..n {
        if let Some((p, f)) = &place[i] {
            let com = &w().commits[v[i]];
            sym::check(com.parents.len() == 1 && com.parents[0].index() == v[*p], "the commit sits on the right parent");
            sym::check(files_of(v[i]) == *f, "the contents are the merge of the commit's change with its new parent");
        }
    }
    if place[spot].is_some() || spot == 0 {
        sym::check(at("refs/heads/foo") == Some(v[spot]), "the branch follows its commit");
    } else {
        sym::check(at("refs/heads/foo").is_none(), "the branch of a dropped commit is deleted");
    }
    sym::check(at("HEAD") == Some(v[stand[spot]]), "HEAD is at the current version of its commit, or below it when it was dropped");
    if attached && (place[spot].is_some() || spot == 0) {
        sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "HEAD stays on its branch");
    }
    sym::cover(if resolved { "resolved" } else { "moved" });
}
