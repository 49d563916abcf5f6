//! Building blocks shared by the harnesses: symbolic commit graphs and the objects commands need.
use crate::fake::git::*;
use crate::sym;
use lib::core::check_out::CheckOutCommitOptions;
use lib::core::effects::Effects;
use lib::core::eventlog::{Event, EventLogDb, EventReplayer, EventTransactionId};
use lib::core::formatting::Glyphs;
use lib::git::{GitRunInfo, NonZeroOid, Repo};

pub fn c(i: usize) -> O {
    oid(COMMIT, i)
}
pub fn nz(i: usize) -> NonZeroOid {
    c(i).nz()
}
/// Index of a commit of the scene.
pub fn ix(o: NonZeroOid) -> usize {
    of(o).index()
}

/// A small commit graph: `parents[i]` lists the parents of commit `i`, all smaller than `i`.
#[derive(Clone)]
pub struct Graph {
    pub parents: Vec<Vec<usize>>,
}
impl Graph {
    /// Every forest-free history: commit 0 is the root, each later commit has one earlier parent.
    pub fn any_tree(n: usize) -> Graph {
        let mut parents = vec![vec![]];
        for i in 1..n {
            parents.push(vec![sym::any_index(i)]);
        }
        Graph { parents }
    }
    /// Every history where each later commit has one or two distinct earlier parents.
    pub fn any_dag(n: usize) -> Graph {
        let mut g = Graph::any_tree(n);
        for i in 2..n {
            let q = sym::any_index(i);
            if q != g.parents[i][0] {
                g.parents[i].push(q);
            }
        }
        g
    }
    pub fn chain(n: usize) -> Graph {
        Graph { parents: (0..n).map(|i| if i == 0 { vec![] } else { vec![i - 1] }).collect() }
    }
    pub fn n(&self) -> usize {
        self.parents.len()
    }
    /// Is `a` an ancestor of (or the same as) `b`?
    pub fn anc(&self, a: usize, b: usize) -> bool {
        a == b || self.parents[b].iter().any(|p| self.anc(a, *p))
    }
    pub fn ancestors(&self, s: u32) -> u32 {
        (0..self.n()).filter(|a| (0..self.n()).any(|b| s >> b & 1 == 1 && self.anc(*a, b))).fold(0, |m, i| m | 1 << i)
    }
    pub fn descendants(&self, s: u32) -> u32 {
        (0..self.n()).filter(|b| (0..self.n()).any(|a| s >> a & 1 == 1 && self.anc(a, *b))).fold(0, |m, i| m | 1 << i)
    }
    pub fn children(&self, s: u32) -> u32 {
        (0..self.n()).filter(|b| self.parents[*b].iter().any(|a| s >> a & 1 == 1)).fold(0, |m, i| m | 1 << i)
    }
    pub fn parents_of(&self, s: u32) -> u32 {
        (0..self.n()).filter(|b| s >> b & 1 == 1).flat_map(|b| self.parents[b].iter()).fold(0, |m, i| m | 1 << i)
    }
    pub fn heads(&self, s: u32) -> u32 {
        (0..self.n()).filter(|a| s >> a & 1 == 1 && !(0..self.n()).any(|b| b != *a && s >> b & 1 == 1 && self.anc(*a, b))).fold(0, |m, i| m | 1 << i)
    }
    pub fn roots(&self, s: u32) -> u32 {
        (0..self.n()).filter(|a| s >> a & 1 == 1 && !(0..self.n()).any(|b| b != *a && s >> b & 1 == 1 && self.anc(b, *a))).fold(0, |m, i| m | 1 << i)
    }
    /// Put the commits in the fake repository; each adds a file `f<i>` to its first parent's tree.
    pub fn install(&self) {
        let wd = w();
        for (i, ps) in self.parents.iter().enumerate() {
            let blob = wd.add_blob(format!("content {i}\n").as_bytes());
            let mut files = match ps.first() {
                Some(p) => wd.files(wd.commits[*p].tree),
                None => vec![],
            };
            files.push((format!("f{i}").into_bytes(), 0o100644, blob));
            let tree = wd.tree_from_files(&files);
            wd.add_commit(Commit {
                parents: ps.iter().map(|p| c(*p)).collect(),
                tree,
                message: cs(&format!("commit {i}\n")),
                author: Sig::new("author", 100 + i as i64),
                committer: Sig::new("committer", 200 + i as i64),
            });
        }
    }
}

pub const MAIN: &str = "refs/heads/master";

/// Main branch `master` at `main`, HEAD detached at `head` (or on `master`).
pub fn refs(main: usize, head: Option<usize>) {
    let wd = w();
    wd.set_ref(b"refs/heads/master\0", RefVal::Direct(c(main)));
    match head {
        Some(h) => wd.set_ref(b"HEAD\0", RefVal::Direct(c(h))),
        None => wd.set_ref(b"HEAD\0", RefVal::Symbolic(cs(MAIN))),
    };
    wd.config_set("branchless.core.mainBranch", "master");
}
pub fn branch(name: &str, at: usize) {
    w().set_ref(&cs(&format!("refs/heads/{name}")), RefVal::Direct(c(at)));
}
pub fn repo() -> Repo {
    Repo::from_dir(std::path::Path::new("/r")).unwrap()
}
pub fn effects() -> Effects {
    Effects::new_suppress_for_test(Glyphs::text())
}
pub fn git_run_info() -> GitRunInfo {
    GitRunInfo {
        path_to_git: "/usr/bin/git".into(),
        working_directory: "/r".into(),
        env: [("A".into(), "B".into())].into_iter().collect(),
    }
}
pub fn tx(db: &EventLogDb, msg: &str) -> EventTransactionId {
    db.make_transaction_id(std::time::UNIX_EPOCH, msg).unwrap()
}
pub fn commit_event(tx: EventTransactionId, i: usize) -> Event {
    Event::CommitEvent { timestamp: 1.0, event_tx_id: tx, commit_oid: nz(i) }
}
pub fn hide_event(tx: EventTransactionId, i: usize) -> Event {
    Event::ObsoleteEvent { timestamp: 1.0, event_tx_id: tx, commit_oid: nz(i) }
}
pub fn unhide_event(tx: EventTransactionId, i: usize) -> Event {
    Event::UnobsoleteEvent { timestamp: 1.0, event_tx_id: tx, commit_oid: nz(i) }
}
pub fn rewrite_event(tx: EventTransactionId, old: usize, new: Option<usize>) -> Event {
    Event::RewriteEvent {
        timestamp: 1.0,
        event_tx_id: tx,
        old_commit_oid: c(old).mz(),
        new_commit_oid: match new {
            Some(i) => c(i).mz(),
            None => lib::git::MaybeZeroOid::Zero,
        },
    }
}
pub fn replayer(effects: &Effects, repo: &Repo, db: &EventLogDb) -> EventReplayer {
    EventReplayer::from_event_log_db(effects, repo, db).unwrap()
}
pub fn checkout_options() -> CheckOutCommitOptions {
    CheckOutCommitOptions { render_smartlog: false, ..Default::default() }
}
