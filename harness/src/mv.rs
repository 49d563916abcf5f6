//! Moving commits: the whole command, in memory.
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{MoveOptions, ResolveRevsetOptions, Revset};
use lib::core::effects::Effects;
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};
use lib::git::Repo;

/// Are commits rewritten in the working copy rather than in memory?
pub static mut ON_DISK: bool = false;
pub fn on_disk(f: fn()) {
    unsafe { ON_DISK = true }
    f()
}
/// In memory if possible.
pub static mut EITHER: bool = false;
pub fn either(f: fn()) {
    unsafe { EITHER = true }
    f()
}
pub fn move_options() -> MoveOptions {
    let disk = unsafe { ON_DISK };
    MoveOptions {
        force_rewrite_public_commits: false,
        force_in_memory: !disk && !unsafe { EITHER },
        force_on_disk: disk,
        detect_duplicate_commits_via_patch_id: false,
        resolve_merge_conflicts: unsafe { EITHER },
        dump_rebase_constraints: false,
        dump_rebase_plan: false,
    }
}
pub fn rev(i: usize) -> Revset {
    Revset(nz(i).to_string())
}
pub fn commands() -> Vec<String> {
    crate::fake::proc::ran().iter().map(|r| r.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join(" ")).collect()
}

/// The scene after a command.
pub struct After {
    /// The active commits that carry the message of original commit `i`.
    pub version: Vec<Vec<usize>>,
}
pub fn after(n: usize, effects: &Effects, repo: &Repo, db: &EventLogDb) -> After {
    let r = replayer(effects, repo, db);
    let cur = r.make_default_cursor();
    let mut version = vec![vec![]; n];
    for (k, com) in w().commits.iter().enumerate() {
        let active = matches!(r.get_cursor_commit_activity_status(cur, nz(k)), CommitActivityStatus::Active);
        for i in 0..n {
            if active && com.message == w().commits[i].message {
                version[i].push(k);
            }
        }
    }
    After { version }
}

/// Each commit adds its own file: the files that must be there after a chain of commits.
pub fn own_files(path: &[usize]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = path.iter().map(|i| format!("f{i}").into_bytes()).collect();
    v.sort();
    v
}
pub fn at(name: &str) -> Option<usize> {
    w().ref_oid(name).map(|o| o.index())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Head {
    Detached(usize),
    OnFoo,
}
pub struct Scene {
    pub g: Graph,
    pub main: usize,
    pub foo: usize,
    pub head: Head,
}
impl Scene {
    pub fn public(&self, i: usize) -> bool {
        self.g.anc(i, self.main)
    }
    pub fn install(&self) {
        self.g.install();
        branch("foo", self.foo);
        match self.head {
            Head::Detached(h) => refs(self.main, Some(h)),
            Head::OnFoo => {
                refs(self.main, None);
                w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
            }
        }
        w().config_set("branchless.undo.createSnapshots", "false");
        crate::fake::proc::install_hooks();
    }
    /// Record every commit that is not public.
    pub fn record(&self, db: &EventLogDb) {
        let t0 = tx(db, "setup");
        db.add_events((0..self.g.n()).filter(|i| !self.public(*i)).map(|i| commit_event(t0, i)).collect()).unwrap();
    }
}

/// The graph that a rewrite must produce: parents, and commits folded into others.
pub struct Want {
    /// New parent of every commit (in terms of the original commits).
    pub parent: Vec<Option<usize>>,
    /// `folded[i] = Some(j)`: commit `i` disappears and its change is added to `j`.
    pub folded: Vec<Option<usize>>,
    /// `replaced[i] = Some(j)`: commit `i` was already replaced by `j`.
    pub replaced: Vec<Option<usize>>,
    /// Commits whose identity must not change.
    pub keep: Vec<bool>,
    /// Commits which were hidden before.
    pub hidden: u32,
    /// Commits which are neither shown nor touched.
    pub unseen: u32,
}
impl Want {
    pub fn same(g: &Graph) -> Want {
        let n = g.n();
        Want { parent: (0..n).map(|i| g.parents[i].first().copied()).collect(), folded: vec![None; n], replaced: vec![None; n], keep: vec![true; n], hidden: 0, unseen: 0 }
    }
    pub fn cyclic(&self) -> bool {
        let n = self.parent.len();
        for i in 0..n {
            let (mut k, mut steps) = (Some(i), 0);
            while let Some(x) = k {
                steps += 1;
                if steps > n {
                    return true;
                }
                k = self.parent[x];
            }
        }
        false
    }
    /// Where does a reference to commit `i` end up?
    pub fn home(&self, i: usize) -> usize {
        match self.folded[i].or(self.replaced[i]) {
            Some(j) => self.home(j),
            None => i,
        }
    }
    /// `i` and what lies below it afterwards.
    pub fn chain(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = i;
        while let Some(p) = self.parent[k] {
            v.push(p);
            k = p;
        }
        v
    }
    /// Compare with the repository. Only commits in `draft` have recorded versions.
    pub fn verify(&self, g: &Graph, public: &dyn Fn(usize) -> bool, a: &After) -> Vec<usize> {
        let n = g.n();
        let mut v = vec![usize::MAX; n];
        for i in 0..n {
            if public(i) || self.unseen >> i & 1 == 1 {
                v[i] = i;
            } else if self.folded[i].is_some() || self.replaced[i].is_some() {
                sym::check(a.version[i].is_empty(), "a folded commit is gone");
            } else if self.hidden >> i & 1 == 1 {
                // its latest version, if there is any
                v[i] = (0..w().commits.len()).filter(|k| w().commits[*k].message == w().commits[i].message).last().unwrap();
            } else {
                sym::check(a.version[i].len() == 1, "every commit has exactly one current version");
                v[i] = a.version[i][0];
            }
        }
        for i in 0..n {
            if v[i] == usize::MAX {
                v[i] = v[self.home(i)];
                continue;
            }
            if self.unseen >> i & 1 == 1 {
                continue;
            }
            if self.keep[i] {
                sym::check(v[i] == i, "commits that were not moved keep their identity");
            }
            let com = &w().commits[v[i]];
            match self.parent[i] {
                None => sym::check(com.parents.is_empty(), "the commit has no parents"),
                Some(p) => sym::check(com.parents.len() == 1 && com.parents[0].index() == v[p], "the commit sits on the right parent"),
            }
            sym::check(com.author == w().commits[i].author, "the author is kept");
            let mut chain = self.chain(i);
            for f in 0..n {
                if let Some(j) = self.folded[f] {
                    if chain.contains(&j) {
                        chain.push(f);
                    }
                }
            }
            let files: Vec<Vec<u8>> = w().files(com.tree).into_iter().map(|f| f.0).collect();
            sym::check(files == own_files(&chain), "the contents are the parent's plus the commit's own change");
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Source,
    Base,
    Exact,
}

/// Run the command over every scene with `n` commits and compare with the graph that the options ask for.
pub fn run(s: Scene, what: What, insert: bool, fixup: bool) {
    run_hidden(s, what, insert, fixup, 0)
}
pub fn run_hidden(s: Scene, what: What, insert: bool, fixup: bool, hidden: u32) {
    s.install();
    let (g, n) = (&s.g, s.g.n());
    let repo = repo();
    let effects = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let head = match s.head {
        Head::Detached(h) => h,
        Head::OnFoo => s.foo,
    };
    let visible = g.ancestors(((1u32 << n) - 1) & !hidden | 1 << s.main | 1 << s.foo | 1 << head);
    if hidden != 0 {
        let t = tx(&db, "hide");
        db.add_events((0..n).filter(|i| hidden >> i & 1 == 1).map(|i| hide_event(t, i)).collect()).unwrap();
    }
    let dst = sym::any_index(n);
    sym::assume(visible >> dst & 1 == 1);
    let mut x = 0u32;
    let mut src = 0;
    let (mut sources, mut bases, mut exacts) = (vec![], vec![], vec![]);
    match what {
        What::Source => {
            src = sym::any_index(n);
            sources.push(rev(src));
        }
        What::Base => {
            src = sym::any_index(n);
            bases.push(rev(src));
        }
        What::Exact => {
            x = sym::any_index((1 << n) - 1) as u32 + 1;
            for i in 0..n {
                if x >> i & 1 == 1 {
                    exacts.push(rev(i));
                }
            }
        }
    }
    sym::assume(x & !visible == 0 && visible >> src & 1 == 1);
    // ---- what must happen
    let same = || {
        let mut w = Want::same(g);
        w.hidden = hidden;
        w.unseen = !visible;
        w
    };
    let mut want = same();
    let mut ok = true;
    let kids = |set: u32| g.children(set) & visible;
    let public = |i: usize| s.public(i);
    let mut moved = 0u32; // commits the user asked to move
    if what == What::Base {
        // the child, on the way to src, of the point where src and dst meet
        let mut b = src;
        while !g.anc(b, dst) && !g.anc(g.parents[b][0], dst) {
            b = g.parents[b][0];
        }
        src = b;
    }
    if what == What::Exact {
        let root_of = |i: usize| {
            let mut r = i;
            while r != 0 && x >> g.parents[r][0] & 1 == 1 {
                r = g.parents[r][0];
            }
            r
        };
        moved = x;
        for i in 0..n {
            let inx = x >> i & 1 == 1;
            if i == 0 {
                ok &= !inx; // no parent to leave its children on
                continue;
            }
            let p = g.parents[i][0];
            let pinx = x >> p & 1 == 1;
            if inx && !pinx && !fixup {
                // the nearest moved commit below, or the destination
                let mut a = p;
                while a != 0 && x >> a & 1 == 0 {
                    a = g.parents[a][0];
                }
                want.parent[i] = Some(if x >> a & 1 == 1 { a } else { dst });
            }
            if !inx && pinx && visible >> i & 1 == 1 {
                let r = root_of(p);
                want.parent[i] = g.parents[r].first().copied();
            }
        }
    } else if fixup {
        moved = g.descendants(1 << src) & visible;
    } else {
        moved |= 1 << src;
        want.parent[src] = Some(dst);
    }
    if fixup {
        for i in 0..n {
            if moved >> i & 1 == 1 {
                want.folded[i] = Some(dst);
            }
        }
        ok &= !public(dst);
        // folding a commit into itself is left open
        sym::assume(moved >> dst & 1 == 0);
    }
    ok &= (0..n).all(|i| moved >> i & 1 == 0 || !public(i));
    if insert {
        ok &= (0..n).all(|i| kids(1 << dst) >> i & 1 == 0 || !public(i));
        let top = match what {
            What::Exact => {
                // one lineage only
                let one = (0..n).all(|a| (0..n).all(|b| x >> a & 1 == 0 || x >> b & 1 == 0 || g.anc(a, b) || g.anc(b, a)));
                ok &= one;
                g.heads(x)
            }
            _ => g.heads(g.descendants(1 << src) & visible),
        };
        ok &= top.count_ones() == 1;
        let top = top.trailing_zeros() as usize;
        for i in 0..n {
            if kids(1 << dst) >> i & 1 == 1 && moved >> i & 1 == 0 {
                want.parent[i] = Some(top);
            }
        }
    }
    ok &= !want.cyclic();
    let res = git_branchless_move::r#move(
        &effects,
        &git_run_info(),
        sources,
        Some(rev(dst)),
        bases,
        exacts,
        &ResolveRevsetOptions { show_hidden_commits: false },
        &move_options(),
        fixup,
        insert,
    )
    .unwrap();
    let a = after(n, &effects, &repo, &db);
    sym::log(&format!(
        "parents {:?} hidden {hidden:b} main {} foo {} attached {} src {src} exact {x:b} dst {dst}; result ok {} want ok {ok} parents {:?}; now {:?} {:?} HEAD {:?} foo {:?}; ran {:?}",
        g.parents,
        s.main,
        s.foo,
        s.head == Head::OnFoo,
        res.is_ok(),
        want.parent,
        a.version,
        w().commits.iter().map(|c| c.parents.iter().map(|p| p.index()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        at("HEAD"),
        at("refs/heads/foo"),
        commands()
    ));
    sym::check(res.is_ok() == ok, "refused exactly when a public commit would be rewritten or the result would be no tree");
    if !ok {
        want = same();
    } else {
        for i in 0..n {
            want.keep[i] = !want.chain(i).iter().any(|k| want.parent[*k] != g.parents[*k].first().copied() || moved >> *k & 1 == 1 || (fixup && *k == dst));
        }
    }
    let v = want.verify(g, &public, &a);
    sym::check(at(MAIN) == Some(s.main), "the main branch stays");
    sym::check(at("refs/heads/foo") == Some(v[s.foo]), "the branch follows its commit");
    match s.head {
        // a branch at the commit that is checked out may be checked out with it
        Head::Detached(h) => sym::check(at("HEAD") == Some(v[h]), "HEAD follows its commit"),
        Head::OnFoo => sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "HEAD stays on its branch"),
    }
    sym::cover(if ok { "moved" } else { "refused" });
}

/// Independent positions for everything.
pub fn scene_full(n: usize) -> Scene {
    let g = Graph::any_tree(n);
    let main = sym::any_index(n);
    let foo = sym::any_index(n);
    let head = if sym::any_index(2) == 1 { Head::OnFoo } else { Head::Detached(sym::any_index(n)) };
    Scene { g, main, foo, head }
}
/// Only the root is public; the branch and HEAD are at the same place, attached or not.
pub fn scene_lite(n: usize) -> Scene {
    let g = Graph::any_tree(n);
    let foo = sym::any_index(n);
    let head = if sym::any_index(2) == 1 { Head::OnFoo } else { Head::Detached(foo) };
    Scene { g, main: 0, foo, head }
}
/// Nothing but commits, one of which is hidden.
pub fn hidden(n: usize, what: What, insert: bool, fixup: bool) {
    let g = Graph::any_tree(n);
    let s = Scene { g, main: 0, foo: 0, head: Head::Detached(0) };
    run_hidden(s, what, insert, fixup, 2 << sym::any_index(n - 1))
}
