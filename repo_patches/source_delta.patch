From 6d6ad4630c653fe8d316f191ba9f7a71e905bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:29 +0000
Subject: [PATCH 01/22] Add in-memory commit graph behind the verif cfg

---
 git-branchless-lib/src/core/dag.rs       | 13 ++--
 git-branchless-lib/src/core/mod.rs       |  2 +
 git-branchless-lib/src/core/verif_dag.rs | 87 ++++++++++++++++++++++++
 3 files changed, 98 insertions(+), 4 deletions(-)
 create mode 100644 git-branchless-lib/src/core/verif_dag.rs

diff --git a/git-branchless-lib/src/core/dag.rs b/git-branchless-lib/src/core/dag.rs
index 8178054..c18340a 100644
--- a/git-branchless-lib/src/core/dag.rs
+++ b/git-branchless-lib/src/core/dag.rs
@@ -24,6 +24,11 @@ use crate::git::{Commit, MaybeZeroOid, NonZeroOid, Repo, Time};
 
 use super::repo_ext::RepoReferencesSnapshot;
 
+#[cfg(verif)]
+use super::verif_dag::MemDag as InnerDag;
+#[cfg(not(verif))]
+use eden_dag::Dag as InnerDag;
+
 impl From<NonZeroOid> for eden_dag::VertexName {
     fn from(oid: NonZeroOid) -> Self {
         eden_dag::VertexName::copy_from(oid.as_bytes())
@@ -131,7 +136,7 @@ impl Parents for GitParentsBlocking {
 /// Interface to access the directed acyclic graph (DAG) representing Git's
 /// commit graph. Based on the Eden SCM DAG.
 pub struct Dag {
-    inner: eden_dag::Dag,
+    inner: InnerDag,
 
     /// A set containing the commit which `HEAD` points to. If `HEAD` is unborn,
     /// this is an empty set.
@@ -253,10 +258,10 @@ impl Dag {
     }
 
     #[instrument]
-    fn open_inner_dag(repo: &Repo) -> eyre::Result<eden_dag::Dag> {
+    fn open_inner_dag(repo: &Repo) -> eyre::Result<InnerDag> {
         let dag_dir = repo.get_dag_dir()?;
         std::fs::create_dir_all(&dag_dir).wrap_err("Creating .git/branchless/dag dir")?;
-        let dag = eden_dag::Dag::open(&dag_dir)
+        let dag = InnerDag::open(&dag_dir)
             .wrap_err_with(|| format!("Opening DAG directory at: {:?}", &dag_dir))?;
         Ok(dag)
     }
@@ -395,7 +400,7 @@ impl Dag {
     }
 
     /// Conduct an arbitrary query against the DAG.
-    pub fn query(&self) -> &eden_dag::Dag {
+    pub fn query(&self) -> &InnerDag {
         &self.inner
     }
 
diff --git a/git-branchless-lib/src/core/mod.rs b/git-branchless-lib/src/core/mod.rs
index a4469f6..e7d6533 100644
--- a/git-branchless-lib/src/core/mod.rs
+++ b/git-branchless-lib/src/core/mod.rs
@@ -11,3 +11,5 @@ pub mod node_descriptors;
 pub mod repo_ext;
 pub mod rewrite;
 pub mod task;
+#[cfg(verif)]
+pub mod verif_dag;
diff --git a/git-branchless-lib/src/core/verif_dag.rs b/git-branchless-lib/src/core/verif_dag.rs
new file mode 100644
index 0000000..0cbcfeb
--- /dev/null
+++ b/git-branchless-lib/src/core/verif_dag.rs
@@ -0,0 +1,87 @@
+//! Verification hook: keeps the commit graph in memory instead of in the
+//! on-disk index, so that it can be analyzed without a file system. The
+//! process-wide list of recorded commits stands in for the index files.
+
+use std::cell::RefCell;
+use std::collections::HashMap;
+use std::ops::Deref;
+use std::path::Path;
+
+use eden_dag::namedag::MemNameDag;
+use eden_dag::ops::{DagAddHeads, Parents};
+use eden_dag::{Group, VertexListWithOptions, VertexName, VertexOptions};
+
+#[derive(Default)]
+struct Persisted {
+    parents: HashMap<VertexName, Vec<VertexName>>,
+    heads: Vec<(VertexName, VertexOptions)>,
+}
+
+thread_local! {
+    static PERSISTED: RefCell<Persisted> = RefCell::new(Persisted::default());
+}
+
+/// In-memory stand-in for `eden_dag::Dag`.
+pub struct MemDag(MemNameDag);
+
+impl MemDag {
+    /// Reopen the graph with everything recorded so far.
+    pub fn open(_path: &Path) -> eden_dag::Result<Self> {
+        futures::executor::block_on(Self::load())
+    }
+
+    async fn load() -> eden_dag::Result<Self> {
+        let mut dag = MemNameDag::new();
+        let (parents, heads) = PERSISTED.with(|persisted| {
+            let persisted = persisted.borrow();
+            (persisted.parents.clone(), persisted.heads.clone())
+        });
+        dag.add_heads(&parents, &VertexListWithOptions::from(heads))
+            .await?;
+        Ok(Self(dag))
+    }
+
+    /// Record the given heads and all of their ancestors.
+    pub async fn add_heads_and_flush(
+        &mut self,
+        parents: &dyn Parents,
+        heads: &VertexListWithOptions,
+    ) -> eden_dag::Result<()> {
+        let mut new_parents = HashMap::new();
+        let mut to_visit = heads.vertexes();
+        while let Some(vertex) = to_visit.pop() {
+            if !new_parents.contains_key(&vertex) {
+                let parent_names = parents.parent_names(vertex.clone()).await?;
+                to_visit.extend(parent_names.iter().cloned());
+                new_parents.insert(vertex, parent_names);
+            }
+        }
+        PERSISTED.with(|persisted| {
+            let mut persisted = persisted.borrow_mut();
+            persisted.parents.extend(new_parents);
+            for (vertex, options) in heads.vertex_options() {
+                match persisted.heads.iter_mut().find(|(v, _)| *v == vertex) {
+                    Some((_, existing)) => {
+                        if options.highest_group == Group::MASTER {
+                            *existing = options;
+                        }
+                    }
+                    None => persisted.heads.push((vertex, options)),
+                }
+            }
+            persisted
+                .heads
+                .sort_by_key(|(_, options)| options.highest_group != Group::MASTER);
+        });
+        *self = Self::load().await?;
+        Ok(())
+    }
+}
+
+impl Deref for MemDag {
+    type Target = MemNameDag;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
-- 
2.43.0


From 3c5e35deaba13083ac3016105ed3ab4e4f38ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:36 +0000
Subject: [PATCH 02/22] fix: refuse to fold commits into a public commit
 without --force-rewrite

`git move --fixup` rewrites the destination commit, but only the source
commits and the children of the destination were checked for being public.
Folding into a public commit silently rewrote it and moved the main branch.
---
 git-branchless-move/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 86b081d..9b77ba2 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -278,7 +278,10 @@ pub fn r#move(
             let commits_to_move = commits_to_move.union(&union_all(
                 &exact_components.values().cloned().collect::<Vec<_>>(),
             ));
-            let commits_to_move = if insert || fixup {
+            let commits_to_move = if fixup {
+                // The destination commit itself is rewritten.
+                commits_to_move.union(&CommitSet::from(dest_oid))
+            } else if insert {
                 commits_to_move.union(&dag.query_children(CommitSet::from(dest_oid))?)
             } else {
                 commits_to_move
-- 
2.43.0


From 0d1fbf04de68db09307c4e3e16ca44ca26984cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:46 +0000
Subject: [PATCH 03/22] Expose the command dispatcher behind the verif cfg

---
 git-branchless/src/commands/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/git-branchless/src/commands/mod.rs b/git-branchless/src/commands/mod.rs
index d0ff79e..6a5c8b4 100644
--- a/git-branchless/src/commands/mod.rs
+++ b/git-branchless/src/commands/mod.rs
@@ -225,6 +225,12 @@ fn command_main(ctx: CommandContext, opts: Opts) -> EyreExitOr<()> {
     Ok(exit_code)
 }
 
+/// Run a subcommand in the current process.
+#[cfg(verif)]
+pub fn verif_command_main(ctx: CommandContext, opts: Opts) -> EyreExitOr<()> {
+    command_main(ctx, opts)
+}
+
 /// Execute the main process and exit with the appropriate exit code.
 pub fn main() {
     // Install panic handler.
-- 
2.43.0


From 091c47ee00305e9e97c240f7d54e63f4278ef4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:39 +0000
Subject: [PATCH 04/22] fix: let --hidden resolve commits which are not in the
 commit graph yet

With --hidden, commits named on the command line were added only to a
temporary copy of the commit graph. The caller then looked them up in the
original graph and failed with an internal error, for example for
'git hide --hidden <commit made without hooks>'.
---
 git-branchless-revset/src/resolve.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/git-branchless-revset/src/resolve.rs b/git-branchless-revset/src/resolve.rs
index f48d03c..a8c123b 100644
--- a/git-branchless-revset/src/resolve.rs
+++ b/git-branchless-revset/src/resolve.rs
@@ -86,7 +86,7 @@ pub fn resolve_commits(
     } else {
         None
     };
-    let dag = dag_with_obsolete.as_mut().unwrap_or(dag);
+    let resolve_dag = dag_with_obsolete.as_mut().unwrap_or(&mut *dag);
 
     let mut commit_sets = Vec::new();
     for Revset(revset) in revsets {
@@ -96,7 +96,8 @@ pub fn resolve_commits(
         // implemented in the revset language.
         if let Ok(Some(commit)) = repo.revparse_single_commit(revset) {
             let commit_set = CommitSet::from(commit.get_oid());
-            dag.sync_from_oids(effects, repo, CommitSet::empty(), commit_set.clone())
+            resolve_dag
+                .sync_from_oids(effects, repo, CommitSet::empty(), commit_set.clone())
                 .map_err(|err| ResolveError::OtherError { source: err })?;
             commit_sets.push(commit_set);
             continue;
@@ -106,13 +107,27 @@ pub fn resolve_commits(
             expr: revset.clone(),
             source: err,
         })?;
-        let commits = eval(effects, repo, dag, &expr).map_err(|err| ResolveError::EvalError {
-            expr: revset.clone(),
-            source: err,
-        })?;
+        let commits =
+            eval(effects, repo, resolve_dag, &expr).map_err(|err| ResolveError::EvalError {
+                expr: revset.clone(),
+                source: err,
+            })?;
 
         commit_sets.push(commits);
     }
+
+    // Commits which weren't in the DAG yet were only added to our temporary
+    // copy, but the caller will use the original one.
+    if let Some(dag_with_obsolete) = &dag_with_obsolete {
+        let commits = commit_sets
+            .iter()
+            .fold(CommitSet::empty(), |acc, commits| acc.union(commits));
+        let heads = dag_with_obsolete
+            .query_heads(commits)
+            .map_err(|err| ResolveError::OtherError { source: err.into() })?;
+        dag.sync_from_oids(effects, repo, CommitSet::empty(), heads)
+            .map_err(|err| ResolveError::OtherError { source: err })?;
+    }
     Ok(commit_sets)
 }
 
-- 
2.43.0


From 12d75481cffe156705b5799a6cff6b1ed93e68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:01 +0000
Subject: [PATCH 05/22] fix: let quotes be escaped in revset string literals

The lexer stopped at the first quote, even one after a backslash, so a
quoted name containing its own quote could not be written.
---
 git-branchless-revset/src/grammar.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/git-branchless-revset/src/grammar.lalrpop b/git-branchless-revset/src/grammar.lalrpop
index 1803d48..b23c1fd 100644
--- a/git-branchless-revset/src/grammar.lalrpop
+++ b/git-branchless-revset/src/grammar.lalrpop
@@ -63,7 +63,7 @@ Name: Cow<'input, str> = {
     // \x22 = double-quote.
     // \x27 = single-quote.
     // \x5c = backslash
-    <s:r"\x22([^\x22]|\x5c.)*\x22|\x27([^\x27]|\x5c.)*\x27"> => {
+    <s:r"\x22([^\x22\x5c]|\x5c.)*\x22|\x27([^\x27\x5c]|\x5c.)*\x27"> => {
         assert!(s.len() >= 2, "There should be at least 2 quote characters in the string literal, got: {}", s);
 
         let mut result = String::new();
-- 
2.43.0


From e1d56213447865b7f91a8aba0b22faccd90fec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:21 +0000
Subject: [PATCH 06/22] fix: skip header lines in the output of git status

A header line (such as the one for status.showStash) was looked at but
not consumed, so reading the status never ended.
---
 git-branchless-lib/src/git/repo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 387f5a2..558dbdf 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1032,7 +1032,13 @@ impl Repo {
                     line
                 }
                 // Skip header lines
-                b'#' => continue,
+                b'#' => {
+                    status_bytes
+                        .by_ref()
+                        .take_while(not_null_terminator)
+                        .for_each(drop);
+                    continue;
+                }
                 _ => {
                     return Err(Error::UnknownStatusLinePrefix {
                         prefix: *line_prefix,
-- 
2.43.0


From a76fe7f73a9daa14b5e6031ce4a3012d7fea8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:21 +0000
Subject: [PATCH 07/22] fix: keep deletions when folding a commit into another

A file deleted by the folded commit stayed in the resulting commit.
---
 git-branchless-lib/src/git/repo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 558dbdf..9110723 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1611,7 +1611,8 @@ impl Repo {
                         Ok(Some(entry)) => {
                             Some((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
                         }
-                        Ok(None) | Err(_) => None,
+                        Ok(None) => Some((path.clone(), None)),
+                        Err(_) => None,
                     })
                     .collect::<HashMap<_, _>>()
             }
-- 
2.43.0


From f8ed63eebf86c135441e8aad94606efdf492bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:39 +0000
Subject: [PATCH 08/22] fix: restore conflicted index entries from snapshots

The entries of a conflict which are the same as in HEAD were not put
back in the index, and a side which deleted the file removed the entries
of the other sides.
---
 git-branchless-lib/src/core/check_out.rs | 38 ++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index 546a098..17453f2 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -1,5 +1,6 @@
 //! Handle checking out commits on disk.
 
+use std::collections::HashSet;
 use std::ffi::{OsStr, OsString};
 use std::fmt::Write;
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -290,29 +291,42 @@ pub fn restore_snapshot(
     // Check out the staged changes.
     let update_index_script = {
         let mut commands = Vec::new();
+
+        // A path in conflict is different from `HEAD` in at least one of the
+        // higher stages, but its entries in the other stages might be the same
+        // as in `HEAD`.
+        let mut unmerged_paths = HashSet::new();
+        for commit in [
+            &snapshot.commit_stage1,
+            &snapshot.commit_stage2,
+            &snapshot.commit_stage3,
+        ] {
+            unmerged_paths.extend(repo.get_paths_touched_by_commit(commit)?);
+        }
+
         for (stage, commit) in [
             (Stage::Stage0, &snapshot.commit_stage0),
             (Stage::Stage1, &snapshot.commit_stage1),
             (Stage::Stage2, &snapshot.commit_stage2),
             (Stage::Stage3, &snapshot.commit_stage3),
         ] {
-            let changed_paths = repo.get_paths_touched_by_commit(commit)?;
+            let changed_paths = match stage {
+                Stage::Stage0 => repo.get_paths_touched_by_commit(commit)?,
+                Stage::Stage1 | Stage::Stage2 | Stage::Stage3 => unmerged_paths.clone(),
+            };
+            let tree = commit.get_tree()?;
             for path in changed_paths {
-                let tree = commit.get_tree()?;
-                let tree_entry = tree.get_path(&path)?;
-
-                let is_deleted = tree_entry.is_none();
-                if is_deleted {
-                    commands.push(UpdateIndexCommand::Delete { path: path.clone() })
-                }
-
-                if let Some(tree_entry) = tree_entry {
-                    commands.push(UpdateIndexCommand::Update {
+                match (tree.get_path(&path)?, stage) {
+                    (Some(tree_entry), _) => commands.push(UpdateIndexCommand::Update {
                         path,
                         stage,
                         mode: tree_entry.get_filemode(),
                         oid: tree_entry.get_oid(),
-                    })
+                    }),
+                    (None, Stage::Stage0) => commands.push(UpdateIndexCommand::Delete { path }),
+                    (None, Stage::Stage1 | Stage::Stage2 | Stage::Stage3) => {
+                        // Deleting the path would delete it from every stage.
+                    }
                 }
             }
         }
-- 
2.43.0


From d4d681e0b38fa06fffbbf4be126a7ef28971b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:39 +0000
Subject: [PATCH 09/22] fix: parse file names which look like other status
 fields

A name such as 'add notes.txt' or 'R1 x.txt' lost its first word, so that
changes to the file were left out of amended commits and snapshots.
---
 git-branchless-lib/src/git/status.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 72ba336..976dc4c 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -201,9 +201,10 @@ impl TryFrom<&[u8]> for StatusEntry {
                 r#"[\w.]+ "#,                                                // Submodule state.
                 r#"(\d{6} ){2,3}(?P<working_copy_filemode>\d{6}) "#,         // HEAD, Index, and Working Copy file modes;
                                                                              // or stage1, stage2, stage3, and working copy file modes.
-                r#"([a-f\d]+ ){2,3}([CR]\d{1,3} )?"#,                        // HEAD and Index object IDs, and optionally the rename/copy score;
+                r#"([a-f0-9]{40,64} ){2,3}"#,                                // HEAD and Index object IDs;
                                                                              // or stage1, stage2, and stage3 object IDs.
-                r#"(?P<path>[^\x00]+)(\x00(?P<orig_path>[^\x00]+))?$"#       // Path and original path (for renames/copies).
+                r#"([CR]\d{1,3} (?P<new_path>[^\x00]+)\x00(?P<orig_path>[^\x00]+)"#, // Rename/copy score, path and original path;
+                r#"|(?P<path>[^\x00]+))$"#,                                  // or path.
             ))
             .expect("porcelain v2 status line regex");
         }
@@ -236,7 +237,8 @@ impl TryFrom<&[u8]> for StatusEntry {
                     .and_then(|working_copy_file_mode| working_copy_file_mode.parse::<FileMode>())
             })?;
         let path = status_line_parts
-            .name("path")
+            .name("new_path")
+            .or_else(|| status_line_parts.name("path"))
             .ok_or_else(|| eyre::eyre!("no path in status line"))?
             .as_bytes();
         let orig_path = status_line_parts
-- 
2.43.0


From aa7ef90a83cc0592c3f0b1df622857a4ecd584ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:28 +0000
Subject: [PATCH 10/22] fix: accept file names in git status which are not
 UTF-8

---
 git-branchless-lib/src/git/status.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 976dc4c..7d1b44d 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -203,8 +203,8 @@ impl TryFrom<&[u8]> for StatusEntry {
                                                                              // or stage1, stage2, stage3, and working copy file modes.
                 r#"([a-f0-9]{40,64} ){2,3}"#,                                // HEAD and Index object IDs;
                                                                              // or stage1, stage2, and stage3 object IDs.
-                r#"([CR]\d{1,3} (?P<new_path>[^\x00]+)\x00(?P<orig_path>[^\x00]+)"#, // Rename/copy score, path and original path;
-                r#"|(?P<path>[^\x00]+))$"#,                                  // or path.
+                r#"([CR]\d{1,3} (?P<new_path>(?-u:[^\x00])+)\x00(?P<orig_path>(?-u:[^\x00])+)"#, // Rename/copy score, path and original path;
+                r#"|(?P<path>(?-u:[^\x00])+))$"#,                            // or path.
             ))
             .expect("porcelain v2 status line regex");
         }
-- 
2.43.0


From 6ca0c78da3501b22e0354643a802570964c0f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:19 +0000
Subject: [PATCH 11/22] fix: do not panic on output of git which is not UTF-8

---
 git-branchless-lib/src/git/run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/run.rs b/git-branchless-lib/src/git/run.rs
index b484690..073d029 100644
--- a/git-branchless-lib/src/git/run.rs
+++ b/git-branchless-lib/src/git/run.rs
@@ -100,8 +100,11 @@ impl GitRunInfo {
                 None => return,
             };
             let reader = BufReader::new(stream);
-            for line in reader.lines() {
+            for line in reader.split(b'\n') {
+                // The output might not be UTF-8, such as when it mentions a file name.
                 let line = line.expect("Reading line from subprocess");
+                let line = String::from_utf8_lossy(&line);
+                let line = line.strip_suffix('\r').unwrap_or(&line);
                 writeln!(output, "{line}").expect("Writing line from subprocess");
             }
         })
-- 
2.43.0


From 812bf7e031e88d60cf81c21e03451c0fbb359e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:47 +0000
Subject: [PATCH 12/22] fix: do not fold hidden descendants with --fixup

The hidden descendants of the source are not moved by any other mode
either.
---
 git-branchless-move/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 9b77ba2..172aec1 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -302,6 +302,9 @@ pub fn r#move(
         for source_root in dag.commit_set_to_vec(&source_roots)? {
             if fixup {
                 let commits = dag.query_descendants(CommitSet::from(source_root))?;
+                let commits = dag
+                    .filter_visible_commits(commits)?
+                    .union(&CommitSet::from(source_root));
                 let commits = dag.commit_set_to_vec(&commits)?;
                 for commit in commits.iter() {
                     builder.fixup_commit(*commit, dest_oid)?;
-- 
2.43.0


From 571c6bd6acc60351b885d2d7fdbb29be07760791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:47 +0000
Subject: [PATCH 13/22] fix: ignore hidden descendants of the source with
 --insert

The children of the destination were moved onto a hidden commit, which
is not moved along with the source.
---
 git-branchless-move/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 172aec1..5cf9280 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -445,9 +445,11 @@ pub fn r#move(
                         .clone();
                     dag.query_heads(head_component)?
                 };
-                let source_heads: CommitSet = dag
-                    .query_heads(dag.query_descendants(source_oids.clone())?)?
-                    .union(&exact_head);
+                let source_commits = dag.query_descendants(source_oids.clone())?;
+                let source_commits = dag
+                    .filter_visible_commits(source_commits)?
+                    .union(&source_oids);
+                let source_heads: CommitSet = dag.query_heads(source_commits)?.union(&exact_head);
                 match dag.commit_set_to_vec(&source_heads)?.as_slice() {
                     [oid] => *oid,
                     _ => {
-- 
2.43.0


From aa256235b0eed785a30da1893fbcf5036fc47768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:26 +0000
Subject: [PATCH 14/22] Expose message preparation of reword behind the verif
 cfg

---
 git-branchless-reword/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/git-branchless-reword/src/lib.rs b/git-branchless-reword/src/lib.rs
index ef53ad4..3354b1c 100644
--- a/git-branchless-reword/src/lib.rs
+++ b/git-branchless-reword/src/lib.rs
@@ -557,6 +557,20 @@ fn prepare_messages(
     })
 }
 
+/// Check hook: edit the messages of several commits with the given editor.
+#[cfg(verif)]
+pub fn verif_prepare_messages(
+    repo: &Repo,
+    commits: &[Commit],
+    edit_message_fn: impl Fn(&str) -> eyre::Result<String>,
+) -> Option<Vec<(NonZeroOid, String)>> {
+    let messages = InitialCommitMessages::Messages(Default::default());
+    match prepare_messages(repo, messages, commits, edit_message_fn).unwrap() {
+        PrepareMessagesResult::Succeeded { messages } => Some(messages.into_iter().collect()),
+        _ => None,
+    }
+}
+
 #[must_use]
 #[derive(Debug)]
 struct ParseMessageResult {
-- 
2.43.0


From b4796133f416cf4302427af804ab3af1ed681c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:03 +0000
Subject: [PATCH 15/22] fix: show each commit once in the smartlog

---
 git-branchless-smartlog/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/git-branchless-smartlog/src/lib.rs b/git-branchless-smartlog/src/lib.rs
index e3b3bdc..e6745c6 100644
--- a/git-branchless-smartlog/src/lib.rs
+++ b/git-branchless-smartlog/src/lib.rs
@@ -44,7 +44,7 @@ pub use render::{render_graph, SmartlogOptions};
 use git_branchless_revset::resolve_commits;
 
 mod graph {
-    use std::collections::HashMap;
+    use std::collections::{HashMap, HashSet};
 
     use lib::core::gc::mark_commit_reachable;
     use tracing::instrument;
@@ -258,6 +258,22 @@ mod graph {
             }
         }
 
+        // Each commit is rendered below exactly one of the commits that it's linked
+        // to, and its other links are rendered as merges.
+        let mut rendered_oids: HashSet<NonZeroOid> = immediate_links
+            .iter()
+            .filter(|(_, _, is_merge_link)| !is_merge_link)
+            .map(|(child_oid, _, _)| *child_oid)
+            .collect();
+        for (_, descendant_oid, is_merge_link) in non_immediate_links.iter_mut() {
+            *is_merge_link = !rendered_oids.insert(*descendant_oid);
+        }
+        for (child_oid, _, is_merge_link) in immediate_links.iter_mut() {
+            if rendered_oids.insert(*child_oid) {
+                *is_merge_link = false;
+            }
+        }
+
         for (child_oid, parent_oid, is_merge_link) in immediate_links.iter() {
             graph.get_mut(child_oid).unwrap().parents.push(*parent_oid);
             graph.get_mut(parent_oid).unwrap().children.push(ChildInfo {
-- 
2.43.0


From f089c22d6ba129b3487b9639f4f80753893d223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:03 +0000
Subject: [PATCH 16/22] fix: notice staged changes before rebasing on disk

Only unstaged changes were looked for. A rebase on disk then started with
staged changes, which git refuses halfway.
---
 git-branchless-lib/src/git/repo.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 9110723..d865e20 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -34,7 +34,7 @@ use crate::git::config::{Config, ConfigRead};
 use crate::git::object::Blob;
 use crate::git::oid::{make_non_zero_oid, MaybeZeroOid, NonZeroOid};
 use crate::git::reference::ReferenceNameError;
-use crate::git::run::GitRunInfo;
+use crate::git::run::{GitRunInfo, GitRunOpts, GitRunResult};
 use crate::git::tree::{dehydrate_tree, get_changed_paths_between_trees, hydrate_tree, Tree};
 use crate::git::{Branch, BranchType, Commit, Reference, ReferenceName};
 
@@ -975,9 +975,24 @@ impl Repo {
             )
             .map_err(Error::ExecGit)?
         {
-            Ok(()) => Ok(false),
-            Err(_exit_code) => Ok(true),
+            Ok(()) => {}
+            Err(_exit_code) => return Ok(true),
         }
+
+        // The above only compares the working copy with the index, so staged
+        // changes have to be looked for separately.
+        let GitRunResult { exit_code, .. } = git_run_info
+            .run_silent(
+                self,
+                None,
+                &["diff", "--quiet", "--cached"],
+                GitRunOpts {
+                    treat_git_failure_as_error: false,
+                    ..Default::default()
+                },
+            )
+            .map_err(Error::ExecGit)?;
+        Ok(!exit_code.is_success())
     }
 
     /// Returns the current status of the repo index and working copy.
-- 
2.43.0


From 24e4830e8f9b039b580892b68c70c0c442f8d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:03 +0000
Subject: [PATCH 17/22] fix: don't rewrite local main commits that are already
 on top of upstream

'git sync --pull' gave the local commits on the main branch new hashes on
every run.
---
 git-branchless/src/commands/sync.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/git-branchless/src/commands/sync.rs b/git-branchless/src/commands/sync.rs
index 5106c18..b7af772 100644
--- a/git-branchless/src/commands/sync.rs
+++ b/git-branchless/src/commands/sync.rs
@@ -271,6 +271,20 @@ fn execute_main_branch_sync_plan(
         Ok(root_oid) => root_oid,
         Err(_) => return Ok(Ok(())),
     };
+    let root_commit = repo.find_commit_or_fail(root_commit_oid)?;
+    if root_commit.get_only_parent().map(|parent| parent.get_oid())
+        == Some(upstream_main_branch_oid)
+    {
+        // The local commits are already on top of the upstream branch, so don't rewrite them.
+        return execute_plans(
+            effects,
+            git_run_info,
+            repo,
+            event_log_db,
+            execute_options,
+            vec![(root_commit_oid, None)],
+        );
+    }
     builder.move_subtree(root_commit_oid, vec![upstream_main_branch_oid])?;
     let rebase_plan = match builder.build(effects, thread_pool, repo_pool)? {
         Ok(rebase_plan) => rebase_plan,
-- 
2.43.0


From 7883f58ff653033fefb657aab6ca217dc374c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:03 +0000
Subject: [PATCH 18/22] fix: offer mode changes of binary files when recording
 interactively

A change to the mode of a binary file could not be selected, so it was left
out of the recorded commit.
---
 git-branchless-lib/src/git/diff.rs | 45 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/git-branchless-lib/src/git/diff.rs b/git-branchless-lib/src/git/diff.rs
index c4d4a2d..f74def0 100644
--- a/git-branchless-lib/src/git/diff.rs
+++ b/git-branchless-lib/src/git/diff.rs
@@ -131,6 +131,16 @@ pub fn process_diff_for_record(repo: &Repo, diff: &Diff) -> eyre::Result<Vec<Fil
             continue;
         }
 
+        let file_mode_section = if old_file_mode != new_file_mode {
+            vec![Section::FileMode {
+                is_checked: false,
+                before: old_file_mode,
+                after: new_file_mode,
+            }]
+        } else {
+            vec![]
+        };
+
         let hunks = match content {
             DeltaFileContent::Binary {
                 old_num_bytes,
@@ -140,17 +150,21 @@ pub fn process_diff_for_record(repo: &Repo, diff: &Diff) -> eyre::Result<Vec<Fil
                     old_path: None,
                     path: Cow::Owned(path),
                     file_mode: Some(old_file_mode),
-                    sections: vec![Section::Binary {
-                        is_checked: false,
-                        old_description: Some(Cow::Owned(make_binary_description(
-                            &old_oid.to_string(),
-                            old_num_bytes,
-                        ))),
-                        new_description: Some(Cow::Owned(make_binary_description(
-                            &new_oid.to_string(),
-                            new_num_bytes,
-                        ))),
-                    }],
+                    sections: [
+                        file_mode_section,
+                        vec![Section::Binary {
+                            is_checked: false,
+                            old_description: Some(Cow::Owned(make_binary_description(
+                                &old_oid.to_string(),
+                                old_num_bytes,
+                            ))),
+                            new_description: Some(Cow::Owned(make_binary_description(
+                                &new_oid.to_string(),
+                                new_num_bytes,
+                            ))),
+                        }],
+                    ]
+                    .concat(),
                 });
                 continue;
             }
@@ -363,15 +377,6 @@ pub fn process_diff_for_record(repo: &Repo, diff: &Diff) -> eyre::Result<Vec<Fil
             }
         }
 
-        let file_mode_section = if old_file_mode != new_file_mode {
-            vec![Section::FileMode {
-                is_checked: false,
-                before: old_file_mode,
-                after: new_file_mode,
-            }]
-        } else {
-            vec![]
-        };
         result.push(File {
             old_path: None,
             path: Cow::Owned(path),
-- 
2.43.0


From 081b8f7c9a015b16bccae7706c04b9debe393848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:03 +0000
Subject: [PATCH 19/22] fix: record --stash with a detached HEAD or with
 --insert

With a detached HEAD, the new commit stayed checked out instead of the
previous one. With --insert, the commits on top of the previous commit's
parent were moved, since the previous commit was checked out by then.
---
 git-branchless-record/src/lib.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 166f653..8da8014 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -168,6 +168,15 @@ fn record(
         try_exit_code!(git_run_info.run_direct_no_wrapping(Some(event_tx_id), &args)?);
     }
 
+    if insert {
+        try_exit_code!(insert_before_siblings(
+            effects,
+            git_run_info,
+            now,
+            event_tx_id
+        )?);
+    }
+
     if detach || stash {
         let head_info = repo.get_head_info()?;
         if let ResolvedReferenceInfo {
@@ -214,7 +223,10 @@ fn record(
             ResolvedReferenceInfo {
                 oid: Some(oid),
                 reference_name: _,
-            } => Some(CheckoutTarget::Oid(oid)),
+            } => repo
+                .find_commit_or_fail(oid)?
+                .get_only_parent()
+                .map(|parent_commit| CheckoutTarget::Oid(parent_commit.get_oid())),
             _ => None,
         };
         if stash && checkout_target.is_some() {
@@ -234,15 +246,6 @@ fn record(
         }
     }
 
-    if insert {
-        try_exit_code!(insert_before_siblings(
-            effects,
-            git_run_info,
-            now,
-            event_tx_id
-        )?);
-    }
-
     Ok(Ok(()))
 }
 
-- 
2.43.0


From fd46822a778e4bc3b76e5e23a2f96a7da448be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:12 +0000
Subject: [PATCH 20/22] fix: record only what was selected of deleted and
 emptied files

A deleted file was recorded as deleted even if that was not selected. A
file was recorded as deleted if all of its lines were, and an empty file if
only its mode changed.
---
 git-branchless-record/src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 8da8014..6afa039 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -40,7 +40,8 @@ use lib::util::{ExitCode, EyreExitOr};
 use rayon::ThreadPoolBuilder;
 use scm_record::helpers::CrosstermInput;
 use scm_record::{
-    Commit, Event, RecordError, RecordInput, RecordState, Recorder, SelectedContents, TerminalKind,
+    Commit, Event, RecordError, RecordInput, RecordState, Recorder, Section, SelectedContents,
+    TerminalKind,
 };
 use tracing::{instrument, warn};
 
@@ -373,8 +374,21 @@ fn record_interactive(
 
             let (selected, _unselected) = file.get_selected_contents();
             let oid = match selected {
-                SelectedContents::Absent => MaybeZeroOid::Zero,
-                SelectedContents::Unchanged => {
+                SelectedContents::Absent
+                    if file.get_file_mode() == Some(scm_record::FileMode::absent()) =>
+                {
+                    MaybeZeroOid::Zero
+                }
+                SelectedContents::Absent
+                    if file
+                        .sections
+                        .iter()
+                        .any(|section| matches!(section, Section::Changed { .. })) =>
+                {
+                    // No lines are left, but the file was not deleted.
+                    MaybeZeroOid::NonZero(repo.create_blob_from_contents(b"")?)
+                }
+                SelectedContents::Absent | SelectedContents::Unchanged => {
                     old_tree.get_oid_for_path(&file.path)?.unwrap_or_default()
                 }
                 SelectedContents::Binary {
-- 
2.43.0


From 68ebf4d71db70676c90a00610097d41c60211ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:12 +0000
Subject: [PATCH 21/22] Let a function stand in for the interactive selection
 behind the verif cfg

---
 git-branchless-record/src/lib.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 6afa039..f430c96 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -250,6 +250,25 @@ fn record(
     Ok(Ok(()))
 }
 
+/// Stands in for the user's selection in the terminal.
+#[cfg(verif)]
+pub mod verif_hooks {
+    pub use scm_record;
+    use scm_record::{RecordError, RecordState};
+
+    /// What to select among the changes.
+    pub static SELECT: std::sync::Mutex<Option<fn(RecordState) -> RecordState>> =
+        std::sync::Mutex::new(None);
+
+    pub(crate) struct Selection(pub RecordState<'static>);
+    impl Selection {
+        pub fn run(self) -> Result<RecordState<'static>, RecordError> {
+            let select = SELECT.lock().unwrap().expect("no selection");
+            Ok(select(self.0))
+        }
+    }
+}
+
 #[instrument]
 fn record_interactive(
     effects: &Effects,
@@ -311,7 +330,14 @@ fn record_interactive(
         }
     }
     let mut input = Input { git_run_info, repo };
+    #[cfg(verif)]
+    let verif_record_state = record_state.clone();
     let recorder = Recorder::new(record_state, &mut input);
+    #[cfg(verif)]
+    let recorder = {
+        let _ = recorder;
+        verif_hooks::Selection(verif_record_state)
+    };
     let result = recorder.run();
     let RecordState {
         is_read_only: _,
-- 
2.43.0


From 0963d6ac1f289234c7deb93d24e2a71f40674da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:09 +0000
Subject: [PATCH 22/22] fix: don't require a push remote when there is nothing
 to create

Submitting with --create looked for the default push remote before checking
whether any branch needed to be created. It failed when no such remote was
configured, even though there was nothing to push to it. Return early when
there are no branches to create.
---
 git-branchless-submit/src/branch_forge.rs | 59 +++++++++++------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/git-branchless-submit/src/branch_forge.rs b/git-branchless-submit/src/branch_forge.rs
index 5484de5..b0c53c8 100644
--- a/git-branchless-submit/src/branch_forge.rs
+++ b/git-branchless-submit/src/branch_forge.rs
@@ -205,6 +205,9 @@ impl Forge for BranchForge<'_> {
             })
             .sorted()
             .collect_vec();
+        if unsubmitted_branch_names.is_empty() {
+            return Ok(Ok(Default::default()));
+        }
 
         // FIXME: in principle, it's possible for a branch to have been assigned
         // a remote without having been pushed and having created a
@@ -231,37 +234,33 @@ These remotes are available: {}",
             }
         };
 
-        if unsubmitted_branch_names.is_empty() {
-            Ok(Ok(Default::default()))
-        } else {
-            // This will fail if somebody else created the branch on the remote and we don't
-            // know about it.
-            let mut args = vec!["push", "--set-upstream", &push_remote];
-            args.extend(unsubmitted_branch_names.iter().map(|s| s.as_str()));
-            let event_tx_id = self
-                .event_log_db
-                .make_transaction_id(SystemTime::now(), "submit unsubmitted commits")?;
-            let (effects, progress) = self.effects.start_operation(OperationType::PushCommits);
-            let _effects = effects;
-            progress.notify_progress(0, unsubmitted_branch_names.len());
-            try_exit_code!(self
-                .git_run_info
-                .run(self.effects, Some(event_tx_id), &args)?);
-            Ok(Ok(commits
-                .into_iter()
-                .filter_map(|(commit_oid, commit_status)| {
-                    commit_status.local_commit_name.map(|local_commit_name| {
-                        (
-                            commit_oid,
-                            CreateStatus {
-                                final_commit_oid: commit_oid,
-                                local_commit_name,
-                            },
-                        )
-                    })
+        // This will fail if somebody else created the branch on the remote and we don't
+        // know about it.
+        let mut args = vec!["push", "--set-upstream", &push_remote];
+        args.extend(unsubmitted_branch_names.iter().map(|s| s.as_str()));
+        let event_tx_id = self
+            .event_log_db
+            .make_transaction_id(SystemTime::now(), "submit unsubmitted commits")?;
+        let (effects, progress) = self.effects.start_operation(OperationType::PushCommits);
+        let _effects = effects;
+        progress.notify_progress(0, unsubmitted_branch_names.len());
+        try_exit_code!(self
+            .git_run_info
+            .run(self.effects, Some(event_tx_id), &args)?);
+        Ok(Ok(commits
+            .into_iter()
+            .filter_map(|(commit_oid, commit_status)| {
+                commit_status.local_commit_name.map(|local_commit_name| {
+                    (
+                        commit_oid,
+                        CreateStatus {
+                            final_commit_oid: commit_oid,
+                            local_commit_name,
+                        },
+                    )
                 })
-                .collect()))
-        }
+            })
+            .collect()))
     }
 
     #[instrument]
-- 
2.43.0

