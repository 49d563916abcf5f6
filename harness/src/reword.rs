//! Rewording commits: the whole command, and the text that is edited.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::*;
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, ResolveRevsetOptions};
use lib::core::eventlog::{CommitActivityStatus, EventLogDb};

/// A short text over the characters that matter.
fn any_text(n: usize) -> String {
    (0..n).map(|_| [b'a', b' ', b'\n', b'#'][sym::any_index(4)] as char).collect()
}
/// No blanks at the ends, one empty line between paragraphs.
fn tidy(s: &str, comments: bool) -> String {
    let mut out: Vec<&str> = vec![];
    for l in s.split('\n').map(|l| l.trim_end()) {
        if comments && l.starts_with('#') {
            continue;
        }
        if !(l.is_empty() && out.last().map_or(true, |l: &&str| l.is_empty())) {
            out.push(l);
        }
    }
    while out.last().map_or(false, |l| l.is_empty()) {
        out.pop();
    }
    out.iter().map(|l| format!("{l}\n")).collect()
}

/// Give a new message to any commits of any tree.
pub fn run(n: usize, chars: usize) {
    let s = if chars > 0 { Scene { g: Graph::any_tree(n), main: 0, foo: 0, head: Head::Detached(0) } } else { scene_full(n) };
    s.install();
    let (g, n) = (&s.g, s.g.n());
    let repo = repo();
    let eff = effects();
    let conn = repo.get_db_conn().unwrap();
    let db = EventLogDb::new(&conn).unwrap();
    s.record(&db);
    let x = sym::any_index((1 << n) - 1) as u32 + 1;
    let fixup = chars == 0 && sym::any_index(2) == 1;
    let (text, to_fix) = if fixup { (String::new(), sym::any_index(n)) } else if chars > 0 { (any_text(chars), 0) } else { ("new".into(), 0) };
    sym::assume(fixup || !text.trim().is_empty());
    let public = |i: usize| s.public(i);
    let mut ok = (0..n).all(|i| x >> i & 1 == 0 || !public(i));
    let mut want = tidy(text.trim(), false);
    if fixup {
        want = format!("fixup! commit {to_fix}\n");
        ok &= (0..n).all(|i| x >> i & 1 == 0 || g.anc(to_fix, i));
    }
    let res = command(Command::Reword {
        revsets: (0..n).filter(|i| x >> i & 1 == 1).map(rev).collect(),
        resolve_revset_options: ResolveRevsetOptions { show_hidden_commits: false },
        force_rewrite_public_commits: false,
        messages: if fixup { vec![] } else { vec![text.clone()] },
        discard: false,
        commit_to_fixup: if fixup { Some(rev(to_fix)) } else { None },
    });
    // the current version of every commit; authors are kept
    let r = replayer(&eff, &repo, &db);
    let cur = r.make_default_cursor();
    let mut v = vec![usize::MAX; n];
    for i in 0..n {
        if public(i) {
            v[i] = i;
            continue;
        }
        let now: Vec<usize> = (0..w().commits.len())
            .filter(|k| w().commits[*k].author == w().commits[i].author && matches!(r.get_cursor_commit_activity_status(cur, nz(*k)), CommitActivityStatus::Active))
            .collect();
        sym::log(&format!("parents {:?} main {} foo {} attached {} reword {x:b} fixup {fixup} {to_fix} {text:?} ok {} commit {i} now {now:?}", g.parents, s.main, s.foo, s.head == Head::OnFoo, res.is_ok()));
        sym::check(now.len() == 1, "every commit has exactly one current version");
        v[i] = now[0];
    }
    sym::check(res.is_ok() == ok, "refused exactly when a public commit would be reworded or the commit to fix is not below");
    for i in 0..n {
        let (old, new) = (&w().commits[i], &w().commits[v[i]]);
        let named = ok && x >> i & 1 == 1;
        let above = ok && (0..n).any(|k| x >> k & 1 == 1 && g.anc(k, i));
        if !above {
            sym::check(v[i] == i, "commits not on top of a reworded one keep their identity");
        }
        sym::check(new.message == if named { cs(&want)[..want.len() + 1].to_vec() } else { old.message.clone() }, "exactly the named commits get the new message");
        sym::check(new.tree == old.tree, "contents are kept");
        let ps: Vec<O> = g.parents[i].iter().map(|p| c(v[*p])).collect();
        sym::check(new.parents == ps, "the shape is kept");
    }
    sym::check(at(MAIN) == Some(s.main) && at("refs/heads/foo") == Some(v[s.foo]), "branches follow");
    match s.head {
        Head::Detached(h) => sym::check(at("HEAD") == Some(v[h]), "the checkout follows"),
        Head::OnFoo => sym::check(w().get_ref(b"HEAD\0") == Some(&RefVal::Symbolic(cs("refs/heads/foo"))), "the checkout stays on its branch"),
    }
    sym::cover(if ok { "reworded" } else { "refused" });
}

/// Edit the messages of some commits at once.
pub fn bulk(n: usize, chars: usize) {
    let g = Graph::any_tree(1);
    g.install();
    refs(0, Some(0));
    let olds: Vec<String> = (0..n).map(|i| format!("m{i} {}\n", any_text(1))).collect();
    for i in 0..n {
        let tree = w().commits[0].tree;
        w().add_commit(Commit {
            parents: vec![c(i)],
            tree,
            message: cs(&olds[i]),
            author: Sig::new("author", 100),
            committer: Sig::new("committer", 200),
        });
    }
    let repo = repo();
    let commits: Vec<_> = (1..n + 1).map(|i| repo.find_commit_or_fail(nz(i)).unwrap()).collect();
    let k = sym::any_index(n + 1); // n: nothing
    let text = any_text(chars);
    let short: Vec<String> = commits.iter().map(|x| x.get_short_oid().unwrap()).collect();
    let mut want: Vec<String> = olds.iter().map(|m| tidy(m, true)).collect();
    let edit = |msg: &str| -> Option<String> {
        if k == n {
            return None;
        }
        // the user replaces what is below the k-th heading
        let mut out = String::new();
        let mut skip = n == 1;
        let mut done = false;
        if n == 1 {
            out.push_str(&text);
            out.push('\n');
            done = true;
        }
        for l in msg.split_inclusive('\n') {
            if l.starts_with("++ ") || l.starts_with("# Rewording") {
                skip = false;
            }
            if !skip {
                out.push_str(l);
            }
            if l.starts_with("++ ") && l.trim_end().ends_with(&short[k]) {
                out.push_str(&text);
                out.push('\n');
                skip = true;
                done = true;
            }
        }
        sym::check(done, "every commit has its heading");
        Some(out)
    };
    let unedited = std::cell::Cell::new(false);
    let res = git_branchless_reword::verif_prepare_messages(&repo, &commits, |m| {
        let e = edit(m).unwrap_or_else(|| m.to_string());
        unedited.set(e == m);
        Ok(e)
    });
    if k < n {
        want[k] = tidy(&text, true);
    }
    let unedited = unedited.get();
    sym::log(&format!("commits {olds:?} edit {k} to {text:?}: {res:?}"));
    match res {
        None => {
            sym::check(unedited || want.iter().any(|m| m.is_empty()), "messages are taken over unless one is empty");
            sym::cover("nothing to do");
        }
        Some(msgs) => {
            sym::check(!unedited, "without an edit there is nothing to do");
            for i in 0..n {
                sym::check(msgs.iter().find(|m| m.0 == nz(i + 1)).map(|m| m.1.clone()) == Some(want[i].clone()), "exactly the edited message changes");
            }
            sym::cover("edited");
        }
    }
}
