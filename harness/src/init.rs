//! Installing and uninstalling: the user's own hooks and configuration.
use crate::fake::git::*;
use crate::hiding::command;
use crate::mv::{Head, Scene};
use crate::scene::*;
use crate::sym;
use git_branchless_opts::{Command, InitArgs};

const START: &str = "## START BRANCHLESS CONFIG";
const END: &str = "## END BRANCHLESS CONFIG";
const HOOKS: [&str; 7] = ["post-applypatch", "post-checkout", "post-commit", "post-merge", "post-rewrite", "pre-auto-gc", "reference-transaction"];

/// The user's lines, the lines between the markers, and the number of marked blocks.
fn parse(s: &str) -> (Vec<&str>, Vec<&str>, usize) {
    let (mut user, mut ours, mut blocks, mut inside) = (vec![], vec![], 0, false);
    for l in s.lines() {
        if l == START {
            inside = true;
            blocks += 1;
        } else if l == END {
            inside = false;
        } else if inside {
            ours.push(l);
        } else {
            user.push(l);
        }
    }
    (user, ours, blocks)
}

/// Any hook file of `lines` lines; then install or uninstall, `steps` times.
pub fn hooks(lines: usize, steps: usize) {
    let s = Scene { g: Graph::any_tree(1), main: 0, foo: 0, head: Head::Detached(0) };
    s.install();
    for h in HOOKS {
        let _ = std::fs::remove_file(git_dir().join("hooks").join(h));
    }
    let layout = sym::any_index(3);
    let dir = git_dir().join(if layout == 1 { "mine" } else { "hooks" });
    std::fs::create_dir_all(&dir).unwrap();
    if layout == 1 {
        w().config_set("core.hooksPath", dir.to_str().unwrap());
    }
    if layout == 2 {
        std::fs::create_dir_all(git_dir().join("hooks_multi")).unwrap();
    }
    let hook = HOOKS[[2, 6][sym::any_index(2)]];
    let n = sym::any_index(lines + 2);
    let mut text = String::new();
    for _ in 1..n {
        text.push_str(["a", "b # x", "", START, END][sym::any_index(5)]);
        text.push('\n');
    }
    if n > 1 && sym::any_index(2) == 1 {
        text.pop();
    }
    // markers are in pairs
    let mut open = false;
    for l in text.lines() {
        if l == START || l == END {
            sym::assume((l == START) != open);
            open = !open;
        }
    }
    sym::assume(!open);
    let (user, _, blocks) = parse(&text);
    sym::assume(blocks <= 1);
    if n > 0 {
        std::fs::write(dir.join(hook), &text).unwrap();
    }
    let user: Vec<&str> = if n > 0 { user } else { vec!["#!/bin/sh"] };
    for _ in 0..steps {
        let uninstall = sym::any_index(2) == 1;
        let res = command(Command::Init(InitArgs { uninstall, main_branch_name: None }));
        sym::check(res.is_ok(), "the command succeeds");
        for h in HOOKS {
            let path = if layout == 2 { git_dir().join("hooks_multi").join(format!("{h}.d")).join("00_local_branchless") } else { dir.join(h) };
            let now = std::fs::read_to_string(&path).unwrap_or_default();
            sym::log(&format!("layout {layout} {h}: {text:?} uninstall {uninstall} {now:?}"));
            let (mine, ours, blocks) = parse(&now);
            let ours = if layout == 2 { mine.clone() } else { ours };
            let calls = ours.iter().filter(|l| l.starts_with(&format!("git branchless hook {h} ")) || l.starts_with(&format!("git branchless-hook {h} "))).count();
            sym::check(calls == !uninstall as usize, "a hook calls the program if and only if it is installed");
            sym::check(!uninstall || ours.iter().all(|l| l.is_empty() || l.starts_with('#')), "nothing is left to run");
            if layout != 2 {
                sym::check(blocks == 1, "there is one block");
                sym::check(if h == hook { mine == user } else { mine == ["#!/bin/sh"] }, "the user's lines are kept");
                #[cfg(unix)]
                {
                    use std::os::unix::fs::PermissionsExt;
                    sym::check(std::fs::metadata(&path).unwrap().permissions().mode() & 0o111 == 0o111, "the hook can be run");
                }
            }
        }
        if layout == 2 {
            sym::check(std::fs::read_to_string(dir.join(hook)).ok() == if n > 0 { Some(text.clone()) } else { None }, "the user's lines are kept");
        }
        sym::cover(if uninstall { "uninstalled" } else { "installed" });
    }
}

/// Any settings; install or uninstall, `steps` times.
pub fn config(steps: usize) {
    let s = Scene { g: Graph::any_tree(1), main: 0, foo: 0, head: Head::Detached(0) };
    s.install();
    let inc = sym::any_index(4);
    let mut includes: Vec<&str> = vec![];
    for (b, v) in [(1, "mine"), (2, "my/branchless/config")] {
        if inc & b != 0 {
            w().config_set("include.path", v);
            includes.push(v);
        }
    }
    w().config_set("user.name", "me");
    let old = sym::any_index(2) == 1;
    if old {
        w().config_set("include.path", "branchless/config");
    }
    let alias = sym::any_index(3);
    if alias > 0 {
        w().user_config.push((cs(["", "alias.sl", "alias.test"][alias]), cs("mine")));
    }
    let default = sym::any_index(3);
    if default > 0 {
        w().user_config.push((cs("init.defaultBranch"), cs(["", "foo", "gone"][default])));
    }
    let names = sym::any_index(4);
    w().del_ref(b"refs/heads/master\0");
    for (b, v) in [(1, "master"), (2, "trunk")] {
        if names & b != 0 {
            w().set_ref(&cs(&format!("refs/heads/{v}")), RefVal::Direct(oid(COMMIT, 0)));
        }
    }
    let given = sym::any_index(2) == 1;
    sym::assume(given || names > 0 || default == 1);
    let main = if given {
        "given"
    } else if default == 1 {
        "foo"
    } else {
        ["", "master", "trunk", "master"][names]
    };
    let file = git_dir().join("branchless").join("config");
    let user_before = w().user_config.clone();
    for _ in 0..steps {
        let uninstall = sym::any_index(2) == 1;
        let res = command(Command::Init(InitArgs { uninstall, main_branch_name: if given && !uninstall { Some("given".into()) } else { None } }));
        sym::log(&format!("includes {inc} {old} alias {alias} default {default} names {names} given {given} uninstall {uninstall} repo {:?} file {:?}", w().config.len(), w().file_config.1.len()));
        sym::check(res.is_ok(), "the command succeeds");
        let all = |k: &str| -> Vec<String> { w().config.iter().filter(|x| x.0 == cs(k)).map(|x| String::from_utf8(x.1[..x.1.len() - 1].to_vec()).unwrap()).collect() };
        let (ours, mine): (Vec<String>, Vec<String>) = all("include.path").into_iter().partition(|v| v == "branchless/config");
        sym::check(mine == includes, "other included files stay included");
        sym::check(ours.len() == !uninstall as usize, "the settings are included if and only if installed");
        sym::check(all("user.name") == ["me"] && w().user_config == user_before, "the user's own settings are kept");
        sym::check(file.exists() == !uninstall, "the settings file exists if and only if installed");
        if !uninstall {
            let get = |k: &str| -> Option<String> {
                let v: Vec<_> = w().file_config.1.iter().filter(|x| x.0 == cs(k)).collect();
                sym::check(v.len() <= 1, "every setting is there once");
                v.first().map(|x| String::from_utf8(x.1[..x.1.len() - 1].to_vec()).unwrap())
            };
            sym::check(get("branchless.core.mainBranch").as_deref() == Some(main), "the main branch is the one given or found");
            for (from, to) in [("sl", "smartlog"), ("test", "test"), ("sw", "switch"), ("undo", "undo")] {
                let theirs = alias > 0 && from == ["", "sl", "test"][alias];
                let got = get(&format!("alias.{from}"));
                let is_ours = got.as_deref() == Some(&format!("branchless {to}")) || got.as_deref() == Some(&format!("branchless-{to}"));
                sym::check(if theirs { got.is_none() } else { is_ours }, "an alias is made unless the user has their own");
            }
        }
        sym::cover(if uninstall { "uninstalled" } else { "installed" });
    }
}
