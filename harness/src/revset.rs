//! The revset language: evaluation against any small history.
use crate::fake::git::*;
use crate::scene::*;
use crate::sym;
use git_branchless_revset::{eval, Expr};
use lib::core::dag::Dag;
use lib::core::eventlog::EventLogDb;
use lib::core::repo_ext::RepoExt;
use std::borrow::Cow;

fn call(name: &'static str, args: Vec<Expr<'static>>) -> Expr<'static> {
    Expr::FunctionCall(Cow::Borrowed(name), args)
}
fn name(i: usize) -> Expr<'static> {
    Expr::Name(nz(i).to_string().into())
}
fn number(i: usize) -> Expr<'static> {
    Expr::Name(i.to_string().into())
}

struct World {
    g: Graph,
    main: usize,
    head: usize,
    foo: usize,
    obsolete: u32,
    visible: u32,
}
impl World {
    fn draft(&self) -> u32 {
        self.visible & !self.g.ancestors(1 << self.main)
    }
    /// An expression for a set of commits, and what it stands for.
    fn set(&self, s: u32) -> (Expr<'static>, u32) {
        let mut items = (0..self.g.n()).filter(|i| s >> i & 1 == 1);
        match items.next() {
            None => (call("none", vec![]), 0),
            Some(i) => {
                let mut e = name(i);
                let mut v = 1 << i;
                for j in items {
                    e = call("union", vec![e, name(j)]);
                    v = (v | 1 << j) & self.visible;
                }
                (e, v)
            }
        }
    }
    fn nth_parent(&self, s: u32, n: usize) -> u32 {
        (0..self.g.n()).filter(|i| s >> i & 1 == 1).filter_map(|i| n.checked_sub(1).and_then(|n| self.g.parents[i].get(n))).fold(0, |m, p| m | 1 << p)
    }
    fn nth_ancestor(&self, s: u32, n: usize) -> u32 {
        (0..n).fold(s, |s, _| self.nth_parent(s, 1))
    }
    fn stack(&self, s: u32) -> u32 {
        // the connected components of drafts above the lowest drafts below `s`
        let d = self.draft();
        let below = (0..self.g.n()).filter(|i| d >> i & 1 == 1 && self.g.descendants(1 << i) & s != 0).fold(0, |m, i| m | 1 << i);
        self.g.descendants(below) & d
    }
}

fn any_world(n: usize, merges: bool, mains: usize) -> World {
    let g = if merges { Graph::any_dag(n) } else { Graph::any_tree(n) };
    let main = sym::any_index(mains);
    let head = main;
    // a branch on the hidden commit keeps it visible
    let hidden = sym::any_index(n);
    let foo = if mains == n {
        sym::any_index(n)
    } else if hidden > 0 && sym::any_index(2) == 1 {
        hidden
    } else {
        main
    };
    g.install();
    refs(main, Some(head));
    branch("foo", foo);
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t = tx(&db, "made");
    db.add_events((1..n).map(|i| commit_event(t, i)).collect()).unwrap();
    let mut obsolete = 0;
    if hidden > 0 {
        db.add_events(vec![hide_event(tx(&db, "hide"), hidden)]).unwrap();
        obsolete = 1 << hidden;
    }
    let all = (1u32 << n) - 2;
    let visible = g.ancestors((all & !obsolete) | 1 << main | 1 << head | 1 << foo);
    World { g, main, head, foo, obsolete, visible }
}

fn evaluate(e: &Expr) -> Result<Vec<usize>, String> {
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let r = replayer(&eff, &repo, &db);
    let mut dag = Dag::open_and_sync(&eff, &repo, &r, r.make_default_cursor(), &repo.get_references_snapshot().unwrap()).unwrap();
    match eval(&eff, &repo, &mut dag, e) {
        Ok(s) => Ok(dag.commit_set_to_vec(&s).unwrap().into_iter().map(ix).collect()),
        Err(err) => Err(err.to_string()),
    }
}

fn same(e: &Expr, want: u32, x: &World) {
    let got = evaluate(e);
    sym::log(&format!("{e}: parents {:?} main {} foo {} obsolete {:b}: got {got:?} want {want:b}", x.g.parents, x.main, x.foo, x.obsolete));
    let got = match got {
        Ok(g) => g,
        Err(_) => {
            sym::check(false, "a well-formed expression evaluates");
            return;
        }
    };
    let mask = got.iter().fold(0u32, |m, i| m | 1 << i);
    sym::check(mask == want, "the expression denotes exactly the commits its definition says");
    sym::check(got.len() == mask.count_ones() as usize, "no commit is listed twice");
}

/// Functions of one set.
pub fn unary(n: usize) {
    let x = any_world(n, true, 2);
    let s = 1 + sym::any_index((1 << n) - 1) as u32;
    let (e, v) = x.set(s);
    let g = &x.g;
    let (e, v) = match sym::any_index(12) {
        0 => (call("ancestors", vec![e]), g.ancestors(v)),
        1 => (call("descendants", vec![e]), g.descendants(v)),
        2 => (call("parents", vec![e]), g.parents_of(v)),
        3 => (call("children", vec![e]), g.children(v)),
        4 => (call("siblings", vec![e]), g.children(g.parents_of(v)) & !v),
        5 => (call("roots", vec![e]), v & !g.children(v)),
        6 => (call("heads", vec![e]), v & !g.parents_of(v)),
        7 => (call("not", vec![e]), x.visible & !v),
        8 => (call("stack", vec![e]), x.stack(v)),
        9 => {
            let k = sym::any_index(3);
            (call("parents.nth", vec![e, number(k)]), x.nth_parent(v, k))
        }
        10 => {
            let k = sym::any_index(3);
            (call("ancestors.nth", vec![e, number(k)]), x.nth_ancestor(v, k))
        }
        _ => {
            let k = sym::any_index(n + 1);
            let e = call("exactly", vec![e, number(k)]);
            if k != v.count_ones() as usize {
                sym::check(evaluate(&e).is_err(), "a wrong number of commits is an error");
                sym::cover("wrong count");
                return;
            }
            (e, v)
        }
    };
    same(&e, v & x.visible, &x);
    sym::cover("evaluated");
}

/// Functions of no argument.
pub fn nullary(n: usize) {
    let x = any_world(n, true, n);
    let merges = (0..n).filter(|i| x.g.parents[*i].len() > 1).fold(0, |m, i| m | 1 << i);
    let (e, v) = match sym::any_index(9) {
        0 => (call("all", vec![]), x.visible),
        1 => (call("none", vec![]), 0),
        2 => (call("draft", vec![]), x.draft()),
        3 => (call("public", vec![]), x.g.ancestors(1 << x.main)),
        4 => (call("main", vec![]), 1 << x.main),
        5 => (call("branches", vec![]), 1 << x.main | 1 << x.foo),
        6 => (call("merges", vec![]), merges),
        7 => (call("stack", vec![]), x.stack(1 << x.head)),
        _ => (Expr::Name(".".into()), 1 << x.head),
    };
    same(&e, v & x.visible, &x);
    sym::cover("evaluated");
}

/// Functions of two sets.
pub fn binary(n: usize, merges: bool) {
    let x = any_world(n, merges, 1);
    let (a, va) = x.set(sym::any_index(1 << n) as u32);
    let (b, vb) = x.set(sym::any_index(1 << n) as u32);
    let g = &x.g;
    let (e, v) = match sym::any_index(5) {
        0 => (call("union", vec![a, b]), va | vb),
        1 => (call("intersection", vec![a, b]), va & vb),
        2 => (call("difference", vec![a, b]), va & !vb),
        3 => (call("only", vec![a, b]), g.ancestors(va) & !g.ancestors(vb)),
        _ => (call("range", vec![a, b]), g.descendants(va) & g.ancestors(vb)),
    };
    same(&e, v & x.visible, &x);
    sym::cover("evaluated");
}

/// Searching by text: message, author and branch names against every kind of pattern.
pub fn text() {
    let g = Graph::chain(2);
    g.install();
    refs(0, Some(0));
    // a two-letter word over a small alphabet
    let word: Vec<u8> = (0..2).map(|_| [b'a', b'b', b'.'][sym::any_index(3)]).collect();
    let field = sym::any_index(5);
    let t = String::from_utf8(word.clone()).unwrap();
    let c1 = &mut w().commits[1];
    match field {
        0 => c1.message = cs(&format!("{t}\n")),
        1 => c1.author.name = cs(&t),
        2 => c1.author.email = cs(&t),
        3 => c1.committer.name = cs(&t),
        _ => c1.committer.email = cs(&t),
    }
    let f = ["message", "author.name", "author.email", "committer.name", "committer.email"][field];
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    db.add_events(vec![commit_event(tx(&db, "made"), 1)]).unwrap();
    let p: Vec<u8> = (0..sym::any_index(2) + 1).map(|_| [b'a', b'.'][sym::any_index(2)]).collect();
    let sub = |p: &[u8]| word.windows(p.len()).any(|x| x == p);
    let kind = sym::any_index(6);
    let q = String::from_utf8(p.clone()).unwrap();
    let any = |x: u8| x == b'.';
    let (pattern, want) = match kind {
        0 => (format!("exact:{q}"), p == word),
        1 => (format!("substring:{q}"), sub(&p)),
        2 => (format!("substr:{q}"), sub(&p)),
        // wildcards: `?` any character
        3 => (format!("glob:{}", q.replace('.', "?")), p.len() == 2 && (0..2).all(|i| any(p[i]) || p[i] == word[i])),
        4 => (format!("regex:^{q}"), (0..p.len()).all(|i| any(p[i]) || p[i] == word[i])),
        _ => (q.clone(), sub(&p)),
    };
    let e = call(f, vec![Expr::Name(pattern.into())]);
    let got = evaluate(&e);
    sym::log(&format!("{e} on {t}: got {got:?} want {want}"));
    let got = got.unwrap_or(vec![99]);
    sym::check(got.contains(&1) == want && !got.contains(&99), "text patterns match exactly the fitting texts");
    sym::cover(if want { "matches" } else { "does not match" });
}

/// `current(x)` is the latest version of each commit.
pub fn current(n: usize, r: usize) {
    let g = Graph::any_tree(n);
    g.install();
    refs(0, Some(0));
    let repo = repo();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    let t = tx(&db, "made");
    db.add_events((1..n).map(|i| commit_event(t, i)).collect()).unwrap();
    // rewrites never lead back (a commit is replaced by a newer or no commit)
    let mut now: Vec<Option<usize>> = (0..n).map(Some).collect();
    for _ in 0..r {
        let a = 1 + sym::any_index(n - 1);
        let b = a + 1 + sym::any_index(n - a);
        sym::assume(now[a] == Some(a));
        let to = if b < n { Some(b) } else { None };
        sym::assume(to.map_or(true, |b| now[b] == Some(b)));
        db.add_events(vec![rewrite_event(tx(&db, "rewrite"), a, to)]).unwrap();
        for x in now.iter_mut() {
            if *x == Some(a) {
                *x = to;
            }
        }
    }
    let s = 1 + sym::any_index(n - 1);
    let e = call("current", vec![name(s)]);
    let got = evaluate(&e);
    sym::log(&format!("{e}: now {now:?} got {got:?}"));
    let want: Vec<usize> = now[s].into_iter().collect();
    sym::check(got == Ok(want), "the current version of a commit is its latest rewrite");
    sym::cover(if now[s] == Some(s) { "unchanged" } else if now[s].is_some() { "rewritten" } else { "gone" });
}
