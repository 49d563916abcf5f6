//! Going to other commits: next, prev, switch.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, Revset, SwitchOptions, TraverseCommitsOptions};
use lib::core::eventlog::EventLogDb;

struct Place {
    s: Scene,
    head: usize,
    visible: u32,
    hidden: usize,
}
fn place(n: usize, mains: usize, heads: usize, hide: bool) -> Place {
    let g = Graph::any_tree(n);
    let main = sym::any_index(mains);
    let foo = sym::any_index(n);
    let head = sym::any_index(heads);
    // attached when the branch is there
    let attached = head == foo && sym::any_index(2) == 1;
    let hidden = if hide { sym::any_index(n) } else { 0 };
    let s = Scene { g, main, foo, head: if attached { Head::OnFoo } else { Head::Detached(head) } };
    sym::assume(hidden == 0 || !s.public(hidden));
    s.install();
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let mut obsolete = 0;
    if hidden > 0 {
        db.add_events(vec![hide_event(tx(&db, "hide"), hidden)]).unwrap();
        obsolete = 1 << hidden;
    }
    let all = (1u32 << n) - 1;
    let visible = s.g.ancestors((all & !obsolete) | 1 << main | 1 << head | 1 << foo);
    Place { s, head, visible, hidden }
}
impl Place {
    fn branches(&self) -> u32 {
        1 << self.s.main | 1 << self.s.foo
    }
    /// The commits one step away.
    fn step(&self, from: usize, next: bool, by_branch: bool, all: bool) -> u32 {
        let g = &self.s.g;
        let near = if next {
            let kids = g.children(1 << from) & self.visible;
            if by_branch { g.roots(self.branches() & g.descendants(kids)) } else { kids }
        } else {
            let ps = g.parents_of(1 << from);
            if by_branch { g.heads(self.branches() & g.ancestors(ps)) } else { ps }
        };
        if all && !next { near & !g.ancestors(1 << self.s.main) } else { near }
    }
    fn describe(&self) -> String {
        format!("parents {:?} main {} foo {} head {} attached {} hidden {}", self.s.g.parents, self.s.main, self.s.foo, self.head, self.s.head == Head::OnFoo, self.hidden)
    }
    fn unmoved(&self) {
        sym::check(at(MAIN) == Some(self.s.main) && at("refs/heads/foo") == Some(self.s.foo), "no branch moves");
    }
    /// Being on a commit: on its branch when there is exactly one, otherwise detached.
    fn arrived(&self, to: usize) {
        sym::check(at("HEAD") == Some(to), "the right commit is checked out");
        if to != self.head {
            let (m, f) = (to == self.s.main, to == self.s.foo);
            let want = match (m, f) {
                (true, false) => RefVal::Symbolic(cs(MAIN)),
                (false, true) => RefVal::Symbolic(cs("refs/heads/foo")),
                _ => RefVal::Direct(c(to)),
            };
            sym::check(w().get_ref(b"HEAD\0") == Some(&want), "the branch of the commit, if there is exactly one, is checked out");
        }
    }
}

pub fn traverse(n: usize) {
    let p = place(n, 2, n, true);
    let next = sym::any_index(2) == 1;
    let by_branch = sym::any_index(2) == 1;
    let dist = sym::any_index(3);
    let towards = if next { sym::any_index(3) } else { 0 };
    // the order of creation need not follow the order of dates
    let reversed = towards > 0 && sym::any_index(2) == 1;
    if reversed {
        for i in 0..n {
            w().commits[i].committer.time = 900 - i as i64;
        }
    }
    let all = dist == 2;
    let opts = TraverseCommitsOptions {
        num_commits: if dist == 1 { Some(2) } else { None },
        all_the_way: all,
        move_by_branches: by_branch,
        oldest: towards == 1,
        newest: towards == 2,
        interactive: false,
        merge: false,
        force: false,
    };
    let mut want = Some(p.head);
    let mut i = 0;
    while let Some(cur) = want {
        if i == [1, 2, 99][dist] {
            break;
        }
        let near = p.step(cur, next, by_branch, all);
        let mut c: Vec<usize> = (0..n).filter(|x| near >> x & 1 == 1).collect();
        if reversed {
            c.reverse();
        }
        want = match (c.as_slice(), towards) {
            ([], _) if all || i > 0 => break,
            ([], _) => None,
            ([x], _) => Some(*x),
            ([x, ..], 1) => Some(*x),
            ([.., x], 2) => Some(*x),
            _ => None,
        };
        i += 1;
    }
    let res = command(if next { Command::Next { traverse_commits_options: opts } } else { Command::Prev { traverse_commits_options: opts } });
    sym::log(&format!("{} reversed {reversed} next {next} by branch {by_branch} distance {dist} towards {towards}: want {want:?} res {:?} HEAD {:?}", p.describe(), res.is_ok(), w().get_ref(b"HEAD\0")));
    p.unmoved();
    match want {
        None => {
            sym::check(res.is_err(), "the command says when it cannot choose");
            sym::check(at("HEAD") == Some(p.head), "the checked out commit stays");
            sym::cover("refused");
        }
        Some(to) => {
            sym::check(res.is_ok(), "the command succeeds");
            p.arrived(to);
            sym::cover(if to == p.head { "stayed" } else { "went" });
        }
    }
}

pub fn switch(n: usize) {
    let kind = sym::any_index(5);
    let create = kind == 0 && sym::any_index(2) == 1;
    let detach = kind == 2 && sym::any_index(2) == 1;
    let p = place(n, 2, 1, kind == 0 || kind == 4);
    let g = &p.s.g;
    let a = if kind == 2 { 0 } else { sym::any_index(n) };
    let b = if kind == 1 { sym::any_index(n) } else { 0 };
    // what is asked for, and the commits it stands for
    let (target, set) = match kind {
        0 => (nz(a).to_string(), 1 << a),
        1 => (format!("{} | {}", nz(a), nz(b)), 1 << a | 1 << b),
        2 => ("foo".to_string(), 1 << p.s.foo),
        3 => (format!("parents({})", nz(a)), g.parents_of(1 << a)),
        _ => (format!("descendants({})", nz(a)), g.descendants(1 << a) & p.visible),
    };
    sym::assume(kind == 0 || (1 << a | 1 << b) & !p.visible == 0);
    // heads: without children among them
    let heads = set & !g.parents_of(set);
    let want = if heads.count_ones() == 1 { Some(heads.trailing_zeros() as usize) } else { None };
    let res = command(Command::Switch {
        switch_options: SwitchOptions {
            interactive: false,
            branch_name: if create { Some("new".into()) } else { None },
            force: false,
            merge: false,
            detach,
            target: Some(Revset(target.clone())),
        },
    });
    sym::log(&format!("{} {target} create {create} detach {detach}: want {want:?} res {:?} HEAD {:?}", p.describe(), res.is_ok(), w().get_ref(b"HEAD\0")));
    p.unmoved();
    match want {
        None => {
            sym::check(res.is_err(), "the command refuses what is not one commit");
            sym::check(at("HEAD") == Some(p.head), "the checked out commit stays");
            sym::cover("refused");
        }
        Some(to) => {
            sym::check(res.is_ok(), "the command succeeds");
            sym::check(at("HEAD") == Some(to), "the right commit is checked out");
            if create {
                sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/new"))), "the new branch is checked out");
                sym::cover("created");
            } else if kind == 2 && detach {
                sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Direct(c(to))), "the commit is checked out without its branch");
            } else if kind == 2 {
                sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "the named branch is checked out");
            }
            sym::cover("went");
        }
    }
}
