//! Choosing interactively what to record.
use crate::fake::git::*;
use crate::fake::wt::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use crate::wc::{install, state};
use git_branchless_opts::{Command, RecordArgs};
use git_branchless_record::verif_hooks::scm_record::{ChangeType, RecordState, Section};
use git_branchless_record::verif_hooks::SELECT;
use lib::core::eventlog::EventLogDb;

const KEEP: usize = 0;
const DEL: usize = 1;
const ADD: usize = 2;

type Ops = Vec<(usize, String)>;
/// How a file changes, and what of that was selected.
struct Change {
    path: &'static str,
    old: (u32, O),
    new: Option<(u32, O)>,
    /// Line by line, unless the file is not text or is deleted.
    ops: Option<Ops>,
    /// Changed lines, by position.
    lines: Vec<bool>,
    /// The content of a file which is not text.
    whole: bool,
    mode: bool,
    /// How many changed lines, contents and modes there were to choose from.
    offered: [usize; 3],
}
static mut CHANGES: Vec<Change> = vec![];
#[allow(static_mut_refs)]
fn changes() -> &'static mut Vec<Change> {
    unsafe { &mut CHANGES }
}

fn select(mut state: RecordState) -> RecordState {
    for f in &mut state.files {
        let c = changes().iter_mut().find(|c| f.path.to_str() == Some(c.path));
        sym::check(c.is_some(), "only changed files are offered");
        let c = c.unwrap();
        for s in &mut f.sections {
            match s {
                Section::Unchanged { .. } => {}
                Section::Changed { lines } => {
                    for l in lines {
                        let kind = if l.change_type == ChangeType::Added { ADD } else { DEL };
                        let ops = c.ops.as_ref().unwrap();
                        let at = ops.iter().position(|o| o.0 == kind && *o.1 == *l.line);
                        sym::check(at.is_some(), "only changed lines are offered");
                        l.is_checked = sym::any_index(2) == 1;
                        c.offered[0] += 1;
                        c.lines[at.unwrap()] = l.is_checked;
                    }
                }
                Section::FileMode { is_checked, .. } => {
                    *is_checked = sym::any_index(2) == 1;
                    c.offered[2] += 1;
                    c.mode = *is_checked;
                }
                Section::Binary { is_checked, .. } => {
                    *is_checked = sym::any_index(2) == 1;
                    c.offered[1] += 1;
                    c.whole = *is_checked;
                }
            }
        }
    }
    state
}
impl Change {
    fn any(path: &'static str, kinds: &[usize], len: usize) -> Change {
        let exec = |b| if b { EXEC } else { FILE };
        let kind = kinds[sym::any_index(kinds.len())];
        let old_exec = kind != 0 && sym::any_index(2) == 1;
        let new_exec = if kind == 1 { old_exec } else { sym::any_index(2) == 1 };
        let mut ops = vec![];
        if kind != 2 {
            let n = sym::any_index(len + 1);
            for k in 0..n {
                let op = if kind == 1 { KEEP } else { sym::any_index(3) };
                // in one place, what is taken away comes before what is added
                sym::assume(op != DEL || ops.last().map_or(true, |o: &(usize, String)| o.0 != ADD));
                ops.push((op, format!("{path}{k}\n")));
            }
            // possibly without a newline at the end
            if n > 0 && sym::any_index(2) == 1 {
                ops.last_mut().unwrap().1.pop();
            }
        }
        let text = |but: usize| -> String { ops.iter().filter(|o| o.0 != but).map(|o| o.1.clone()).collect() };
        let (old, new) = match kind {
            2 => ("\0old".to_string(), "\0new".to_string()),
            _ => (text(ADD), text(DEL)),
        };
        let blob = |s: &str| w().add_blob(s.as_bytes());
        let lines = ops.iter().map(|_| false).collect();
        Change {
            path,
            old: (exec(old_exec), blob(&old)),
            new: if kind == 1 { None } else { Some((exec(new_exec), blob(&new))) },
            ops: if kind == 0 { Some(ops) } else { None },
            lines,
            whole: false,
            mode: false,
            offered: [0; 3],
        }
    }
    /// What the file must be with only the selected changes.
    fn want(&self) -> Option<(u32, O)> {
        let Some(new) = self.new else {
            return if self.mode { None } else { Some(self.old) };
        };
        let mode = if self.mode { new.0 } else { self.old.0 };
        let content = match &self.ops {
            Some(ops) => {
                let mut s = String::new();
                for (k, (op, line)) in ops.iter().enumerate() {
                    if *op == KEEP || self.lines[k] == (*op == ADD) {
                        s.push_str(line);
                    }
                }
                w().add_blob(s.as_bytes())
            }
            None if self.whole => new.1,
            None => self.old.1,
        };
        Some((mode, content))
    }
    /// Can every part of the change be selected, once?
    fn complete(&self) -> bool {
        let lines = self.ops.as_ref().map_or(0, |o| o.iter().filter(|o| o.0 != KEEP).count());
        let content = self.ops.is_none() && self.new.map_or(false, |n| n.1 != self.old.1);
        let mode = self.new.map(|n| n.0) != Some(self.old.0);
        self.offered == [lines, content as usize, mode as usize]
    }
    fn selected(&self) -> bool {
        self.want() != Some(self.old)
    }
}
fn show(f: Option<(u32, O)>) -> String {
    f.map_or("-".into(), |f| format!("{:?}{}", String::from_utf8_lossy(&w().blobs[f.1.index()]), if f.0 == EXEC { "*" } else { "" }))
}
/// Record with any selection of the changes to files.
pub fn select_changes(paths: &[(&'static str, &[usize], usize)]) {
    for (p, kinds, len) in paths {
        changes().push(Change::any(p, kinds, *len));
    }
    let names: Vec<&str> = paths.iter().map(|p| p.0).collect();
    let old: Vec<_> = changes().iter().map(|c| Some(c.old)).collect();
    install(&names, &old);
    for c in changes() {
        set_staged(c.path.as_bytes(), 0, Some(c.old));
        set_disk(c.path.as_bytes(), c.new);
    }
    let changed = changes().iter().any(|c| c.new != Some(c.old));
    branch("foo", 1);
    w().set_ref(b"HEAD\0", RefVal::Symbolic(cs("refs/heads/foo")));
    crate::fake::proc::install_hooks();
    let repo = crate::scene::repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t0 = tx(&db, "setup");
    db.add_events(vec![commit_event(t0, 1)]).unwrap();
    let before = state(&names);
    *SELECT.lock().unwrap() = Some(select);
    let args = RecordArgs { messages: vec!["new".into()], interactive: true, create: None, detach: false, insert: false, stash: false };
    let res = command(Command::Record(args));
    let after = state(&names);
    let head = w().ref_oid("HEAD").unwrap();
    for c in changes() {
        sym::log(&format!("{} {} -> {} lines {:?} {:?} whole {} mode {} want {} got {}", c.path, show(Some(c.old)), show(c.new), c.ops, c.lines, c.whole, c.mode, show(c.want()), show(in_commit(head, c.path.as_bytes()))));
    }
    sym::log(&format!("{res:?} {:?}", commands()));
    sym::check(after.disk == before.disk, "no file changes on disk");
    sym::check(after.head == before.head, "the branch stays checked out");
    if !changed {
        sym::check(res.is_ok() && head == c(1), "without changes, nothing happens");
        return;
    }
    sym::check(changes().iter().all(|c| c.complete()), "every change can be selected");
    if !changes().iter().any(|c| c.selected()) {
        sym::cover("nothing selected");
        sym::check(head == c(1), "without any selected change, nothing is recorded");
        sym::check(after.index == before.index, "without any selected change, nothing is staged");
        return;
    }
    sym::cover("recorded");
    sym::check(res.is_ok(), "recording succeeds");
    sym::check(w().commits[head.index()].parents == vec![c(1)], "the new commit is on top of what was checked out");
    for ch in changes() {
        sym::check(in_commit(head, ch.path.as_bytes()) == ch.want(), "the new commit contains exactly the selected changes");
    }
    sym::check(in_commit(head, b"keep") == in_commit(c(1), b"keep") && w().files(w().commits[head.index()].tree).len() == 1 + changes().iter().filter(|c| c.want().is_some()).count(), "no other file is recorded");
    sym::check(crate::fake::wt::index_is(head), "nothing is staged");
}
