use crate::fake::git::*;
use crate::sym;
use lib::core::dag::{CommitSet, Dag};
use lib::core::effects::Effects;
use lib::core::eventlog::{testing, Event, EventLogDb, EventReplayer};
use lib::core::formatting::Glyphs;
use lib::core::repo_ext::RepoExt;
use lib::git::Repo;

pub fn repo() {
    let wd = w();
    let t = wd.add_tree(vec![]);
    let mut prev: Vec<O> = vec![];
    for i in 0..4 {
        let c = wd.add_commit(Commit {
            parents: prev.clone(),
            tree: t,
            message: cs("msg"),
            author: Sig::new("a", 100 + i),
            committer: Sig::new("a", 100 + i),
        });
        prev = vec![c];
    }
    wd.set_ref(b"refs/heads/master\0", RefVal::Direct(oid(COMMIT, 1)));
    wd.set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/master")));
    wd.config_set("branchless.core.mainBranch", "master");
    let repo = Repo::from_dir(std::path::Path::new("/r")).unwrap();
    sym::log("opened");
    let effects = Effects::new_suppress_for_test(Glyphs::text());
    let refs = repo.get_references_snapshot().unwrap();
    sym::log("snapshot");
    let conn = repo.get_db_conn().unwrap();
    sym::log("conn");
    let db = EventLogDb::new(&conn).unwrap();
    sym::log("eventlog");
    let tx = db.make_transaction_id(std::time::UNIX_EPOCH, "x").unwrap();
    db.add_events(vec![Event::CommitEvent { timestamp: 1.0, event_tx_id: tx, commit_oid: oid(COMMIT, 3).nz() }]).unwrap();
    sym::log("added");
    let rep = EventReplayer::from_event_log_db(&effects, &repo, &db).unwrap();
    sym::log("replayed");
    let dag = Dag::open_and_sync(&effects, &repo, &rep, rep.make_default_cursor(), &refs).unwrap();
    sym::log("dag");
    let v = dag.query_visible_commits_slow().unwrap();
    let n = dag.set_count(v).unwrap();
    sym::check(n == 4, "count");
    let _ = (testing::new_event_cursor(1), CommitSet::empty());
}
pub fn spawn() {
    repo();
    let info = lib::git::GitRunInfo {
        path_to_git: "/usr/bin/git".into(),
        working_directory: "/r".into(),
        env: [("A".into(), "B".into())].into_iter().collect(),
    };
    let repo = Repo::from_dir(std::path::Path::new("/r")).unwrap();
    let r = info.run_silent(&repo, None, &["version"], Default::default()).unwrap();
    sym::log(&format!("{:?} {:?}", r, crate::fake::proc::ran()));
    sym::check(r.stdout == b"git version 2.40.0\n", "output");
    sym::log("silent");
    let effects = Effects::new_suppress_for_test(Glyphs::text());
    info.run(&effects, None, &["checkout", "--detach", "c002"]).unwrap().unwrap();
    sym::check(w().ref_oid("HEAD") == Some(oid(COMMIT, 2)), "head");
}
