//! Child processes: every spawned program is run by `GIT`, a function over the fake repository,
//! on a thread of its own. Used by the executor and by native replays alike.
use super::git::*;
use std::ffi::{c_char, c_int, c_short, c_void, CStr};

pub struct Child {
    pub args: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    pub stdin: Vec<u8>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
/// What programs do; returns the exit code.
pub static mut GIT: fn(&mut Child) -> c_int = git;
/// Everything that was run.
pub static mut RAN: Vec<Vec<Vec<u8>>> = vec![];
#[allow(static_mut_refs)]
pub fn ran() -> &'static mut Vec<Vec<Vec<u8>>> {
    unsafe { &mut RAN }
}

#[derive(Default)]
struct Actions {
    dup: Vec<(c_int, c_int)>,
}
struct Proc {
    thread: Option<std::thread::JoinHandle<c_int>>,
}
static mut PROCS: Vec<Proc> = vec![];
#[allow(static_mut_refs)]
fn procs() -> &'static mut Vec<Proc> {
    unsafe { &mut PROCS }
}
const PID0: c_int = 1 << 20;

extern "C" {
    fn dup(fd: c_int) -> c_int;
    fn dup2(fd: c_int, to: c_int) -> c_int;
    fn pipe(p: *mut c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn read(fd: c_int, p: *mut u8, n: usize) -> isize;
    fn write(fd: c_int, p: *const u8, n: usize) -> isize;
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(p: *mut *mut c_void) -> c_int {
    *p = Box::into_raw(Box::<Actions>::default()) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(p: *mut *mut c_void) -> c_int {
    drop(Box::from_raw(*p as *mut Actions));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(p: *mut *mut c_void, fd: c_int, to: c_int) -> c_int {
    (*(*p as *mut Actions)).dup.push((fd, to));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(_: *mut *mut c_void, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_init(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_destroy(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setflags(_: *mut c_void, _: c_short) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setpgroup(_: *mut c_void, _: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_: *mut c_void, _: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigmask(_: *mut c_void, _: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut c_int,
    _file: *const c_char,
    actions: *const *mut c_void,
    _attr: *const c_void,
    argv: *const *const c_char,
    envp: *const *const c_char,
) -> c_int {
    let args = strings(argv);
    let env = strings(envp);
    let mut fds = [-1; 3];
    if !actions.is_null() {
        for (fd, to) in &(*(*actions as *const Actions)).dup {
            if (0..3).contains(to) && *fd > 2 {
                fds[*to as usize] = dup(*fd);
            }
        }
    }
    ran().push(args.clone());
    let thread = std::thread::spawn(move || unsafe {
        let mut child = Child { args, env, stdin: vec![], out: vec![], err: vec![] };
        if fds[0] >= 0 {
            let mut buf = [0u8; 256];
            loop {
                let n = read(fds[0], buf.as_mut_ptr(), 256);
                if n <= 0 {
                    break;
                }
                child.stdin.extend_from_slice(&buf[..n as usize]);
            }
            close(fds[0]);
        }
        let code = GIT(&mut child);
        for (fd, data) in [(fds[1], &child.out), (fds[2], &child.err)] {
            if fd >= 0 {
                if !data.is_empty() {
                    write(fd, data.as_ptr(), data.len());
                }
                close(fd);
            }
        }
        code
    });
    procs().push(Proc { thread: Some(thread) });
    *pid = PID0 + procs().len() as c_int - 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, status: *mut c_int, _opts: c_int) -> c_int {
    let p = match procs().get_mut((pid - PID0) as usize) {
        Some(p) => p,
        None => return -1,
    };
    if let Some(t) = p.thread.take() {
        *status = (t.join().unwrap() & 0xff) << 8;
    }
    pid
}

unsafe fn strings(p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while !p.is_null() && !(*p.add(i)).is_null() {
        v.push(CStr::from_ptr(*p.add(i)).to_bytes().to_vec());
        i += 1;
    }
    v
}

/// Should git and the code under test find the hooks that `git branchless init` installs?
pub fn install_hooks() {
    let dir = git_dir().join("hooks");
    std::fs::create_dir_all(&dir).unwrap();
    for h in ["post-checkout", "post-commit", "post-rewrite", "reference-transaction"] {
        std::fs::write(dir.join(h), b"#!/bin/sh\n").unwrap();
    }
    super::env::fs().put("/bin/sh", b"", 0o755);
    unsafe { HOOKS = true }
}
pub static mut HOOKS: bool = false;

/// Run the implementation of a hook as git would.
pub fn hook(env: &[Vec<u8>], args: &[&[u8]], stdin: &[u8]) -> c_int {
    use git_branchless_opts::{HookArgs, HookSubcommand};
    unsafe {
        if !HOOKS {
            return 0;
        }
    }
    let s = |i: usize| String::from_utf8(args[i].to_vec()).unwrap();
    let subcommand = match args[0] {
        b"post-checkout" => HookSubcommand::PostCheckout {
            previous_commit: s(1),
            current_commit: s(2),
            is_branch_checkout: if args[3] == b"1" { 1 } else { 0 },
        },
        b"post-commit" => HookSubcommand::PostCommit,
        b"post-merge" => HookSubcommand::PostMerge { is_squash_merge: 0 },
        b"post-applypatch" => HookSubcommand::PostApplypatch,
        b"register-extra-post-rewrite-hook" => HookSubcommand::RegisterExtraPostRewriteHook,
        b"detect-empty-commit" => HookSubcommand::DetectEmptyCommit { old_commit_oid: s(1) },
        b"skip-upstream-applied-commit" => HookSubcommand::SkipUpstreamAppliedCommit { commit_oid: s(1) },
        b"pre-auto-gc" => HookSubcommand::PreAutoGc,
        b"post-rewrite" => HookSubcommand::PostRewrite { rewrite_type: s(1) },
        b"reference-transaction" => HookSubcommand::ReferenceTransaction { transaction_state: s(1) },
        _ => return 1,
    };
    let id = env.iter().find_map(|e| e.strip_prefix(b"BRANCHLESS_TRANSACTION_ID="));
    let native = std::env::var_os("VERIF_SCRATCH").is_some();
    let mut saved = -1;
    if native {
        match id {
            Some(id) => std::env::set_var("BRANCHLESS_TRANSACTION_ID", String::from_utf8(id.to_vec()).unwrap()),
            None => std::env::remove_var("BRANCHLESS_TRANSACTION_ID"),
        }
        unsafe {
            let mut p = [0; 2];
            pipe(p.as_mut_ptr());
            write(p[1], stdin.as_ptr(), stdin.len());
            close(p[1]);
            saved = dup(0);
            dup2(p[0], 0);
            close(p[0]);
        }
    } else {
        super::env::fs().stdin = stdin.to_vec();
        super::env::set_tx(id);
    }
    let ctx = git_branchless_invoke::CommandContext { effects: crate::scene::effects(), git_run_info: crate::scene::git_run_info() };
    let res = git_branchless_hook::command_main(ctx, HookArgs { subcommand });
    if native {
        std::env::remove_var("BRANCHLESS_TRANSACTION_ID");
        unsafe {
            dup2(saved, 0);
            close(saved);
        }
    } else {
        super::env::set_tx(None);
    }
    match res {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => e.0 as c_int,
        Err(e) => {
            crate::sym::log(&format!("hook {:?}: {e:?}", args[0]));
            1
        }
    }
}
fn head() -> Option<O> {
    w().ref_oid("HEAD")
}
/// What git tells the hooks after it moved HEAD.
fn after_checkout(env: &[Vec<u8>], old: Option<O>) {
    let (old, new) = match (old, head()) {
        (Some(a), Some(b)) => (a.nz().to_string(), b.nz().to_string()),
        _ => return,
    };
    hook(env, &[b"post-checkout", old.as_bytes(), new.as_bytes(), b"1"], b"");
}

/// The commands that the code under test delegates to git.
pub fn git(c: &mut Child) -> c_int {
    if c.args.len() > 3 && c.args[0].ends_with(b"sh") && c.args[1] == b"-c" {
        let a: Vec<&[u8]> = c.args[3..].iter().map(|x| &x[..]).collect();
        return hook(&c.env, &a, &c.stdin);
    }
    let old_head = head();
    let mut a: Vec<&[u8]> = c.args[1..].iter().map(|x| &x[..]).collect();
    while a.len() > 1 && (a[0] == b"-C" || a[0] == b"-c") {
        a.drain(..2);
    }
    let pos: Vec<&[u8]> = a[1..].iter().copied().filter(|x| !x.starts_with(b"-")).collect();
    let flag = |f: &[u8]| a.iter().any(|x| *x == f);
    match a[0] {
        b"checkout" if w().wt => {
            let at = |f: &[u8]| a.iter().position(|x| *x == f).map(|k| a[k + 1]);
            let (new, old) = (at(b"-b"), at(b"-B"));
            let name = new.or(old);
            let target = pos.iter().copied().find(|x| Some(*x) != name).unwrap_or(b"HEAD");
            let full = |n: &[u8]| [b"refs/heads/", n, b"\0"].concat();
            let Some(to) = w().revparse(target) else {
                c.err.extend_from_slice(b"error: pathspec did not match\n");
                return 1;
            };
            if new.map_or(false, |n| w().get_ref(&full(n)).is_some()) {
                return 128;
            }
            if !super::wt::switch_files(to, flag(b"--force")) {
                c.err.extend_from_slice(b"error: Your local changes would be overwritten by checkout\n");
                return 1;
            }
            if let Some(n) = name {
                super::wt::update_ref(&c.env, &full(n)[..n.len() + 11], to);
                w().set_ref(b"HEAD\0", RefVal::Symbolic(full(n)));
            } else if !flag(b"--detach") && w().get_ref(&full(target)).is_some() {
                w().set_ref(b"HEAD\0", RefVal::Symbolic(full(target)));
            } else {
                w().set_ref(b"HEAD\0", RefVal::Direct(to));
            }
            after_checkout(&c.env, old_head);
            0
        }
        b"reset" if w().wt => match w().revparse(pos.first().copied().unwrap_or(b"HEAD")) {
            Some(to) => {
                super::wt::reset(&c.env, to, flag(b"--hard"));
                0
            }
            None => 1,
        },
        b"status" if w().wt => {
            c.out = super::wt::status();
            0
        }
        b"update-index" if w().wt => super::wt::update_index(&c.stdin),
        b"update-ref" => match w().revparse(pos[1]) {
            Some(to) => {
                super::wt::update_ref(&c.env, pos[0], to);
                0
            }
            None => 1,
        },
        b"symbolic-ref" => {
            w().set_ref(b"HEAD\0", RefVal::Symbolic([pos[1], b"\0"].concat()));
            0
        }
        b"checkout" => {
            let target = match pos.first() {
                Some(t) => t,
                None => return 1,
            };
            let mut name = b"refs/heads/".to_vec();
            name.extend_from_slice(target);
            name.push(0);
            if let Some(k) = a.iter().position(|x| *x == b"-b") {
                // start a new branch at the target
                let target = pos.iter().copied().find(|x| *x != a[k + 1]).unwrap_or(b"HEAD");
                let mut new = b"refs/heads/".to_vec();
                new.extend_from_slice(a[k + 1]);
                new.push(0);
                return match w().revparse(target) {
                    Some(o) if w().get_ref(&new).is_none() => {
                        w().set_ref(&new, RefVal::Direct(o));
                        w().set_ref(b"HEAD\0", RefVal::Symbolic(new));
                        after_checkout(&c.env, old_head);
                        0
                    }
                    _ => 128,
                };
            }
            if !flag(b"--detach") && w().get_ref(&name).is_some() {
                w().set_ref(b"HEAD\0", RefVal::Symbolic(name));
                after_checkout(&c.env, old_head);
                return 0;
            }
            match w().revparse(target) {
                Some(o) => {
                    w().set_ref(b"HEAD\0", RefVal::Direct(o));
                    after_checkout(&c.env, old_head);
                    0
                }
                None => {
                    c.err.extend_from_slice(b"error: pathspec did not match\n");
                    1
                }
            }
        }
        b"reset" => {
            let target = match pos.first().and_then(|t| w().revparse(t)) {
                Some(t) => t,
                None => return 1,
            };
            match w().get_ref(b"HEAD\0").cloned() {
                Some(RefVal::Symbolic(n)) => w().set_ref(&n, RefVal::Direct(target)),
                _ => w().set_ref(b"HEAD\0", RefVal::Direct(target)),
            }
            0
        }
        b"status" => {
            c.out.extend_from_slice(&w().status.clone());
            0
        }
        b"version" => {
            c.out.extend_from_slice(b"git version 2.40.0\n");
            0
        }
        b"config" => match pos.last().and_then(|k| w().config.iter().rev().find(|x| x.0[..x.0.len() - 1] == **k)) {
            Some((_, v)) => {
                c.out.extend_from_slice(&v[..v.len() - 1]);
                c.out.push(b'\n');
                0
            }
            None => 1,
        },
        b"diff" if flag(b"--quiet") => match flag(b"--cached") || flag(b"--staged") {
            _ if !w().wt => 0,
            true => head().map_or(false, |h| !super::wt::index_is(h)) as c_int,
            false => super::wt::unstaged() as c_int,
        },
        b"rebase" if flag(b"--continue") => super::rebase::go_on(&c.env),
        b"rebase" if flag(b"--abort") => super::rebase::abort(&c.env),
        b"commit" if w().wt => {
            let message: Vec<Vec<u8>> = a.windows(2).filter(|x| x[0] == b"--message").map(|x| x[1].to_vec()).collect();
            super::wt::commit(&c.env, flag(b"--all"), &message.join(&b"\n\n"[..]))
        }
        b"branch" if flag(b"-f") => match w().revparse(pos[1]) {
            Some(to) if w().get_ref(b"HEAD\0") != Some(&RefVal::Symbolic([b"refs/heads/", pos[0], b"\0"].concat())) => {
                super::wt::update_ref(&c.env, &[b"refs/heads/", pos[0]].concat(), to);
                0
            }
            _ => 128,
        },
        b"fetch" if pos.len() > 1 => {
            let on = |x: &[u8]| w().servers.iter().find(|s| s.0 == pos[0] && s.1 == x[b"refs/heads/".len()..]).cloned();
            if pos[1..].iter().any(|x| on(x).is_none()) {
                return 128;
            }
            for x in &pos[1..] {
                let (remote, name, to) = on(x).unwrap();
                super::wt::update_ref(&c.env, &[b"refs/remotes/", &remote[..], b"/", &name[..]].concat(), to);
            }
            for (k, to) in std::mem::take(&mut w().race) {
                w().servers[k].2 = to;
            }
            0
        }
        b"push" => {
            assert!(pos.len() > 1, "this push is not modelled");
            let known: [&[u8]; 4] = [b"--set-upstream", b"--force-with-lease", b"--force", b"-f"];
            assert!(a[1..].iter().all(|x| !x.starts_with(b"-") || known.contains(x)), "this push is not modelled");
            let remote = pos[0].to_vec();
            let mut rc = 0;
            for x in &pos[1..] {
                let tracking = [b"refs/remotes/", &remote[..], b"/", x].concat();
                let name = String::from_utf8(x.to_vec()).unwrap();
                let Some(new) = w().ref_oid(&format!("refs/heads/{name}")) else { return 1 };
                let there = w().servers.iter().position(|s| s.0 == remote && s.1 == **x);
                let old = there.map(|k| w().servers[k].2);
                let may = if flag(b"--force") || flag(b"-f") {
                    true
                } else if flag(b"--force-with-lease") {
                    old == w().ref_oid(std::str::from_utf8(&tracking).unwrap())
                } else {
                    old.map_or(true, |o| w().is_ancestor(o, new))
                };
                if !may {
                    rc = 1;
                    continue;
                }
                match there {
                    Some(k) => w().servers[k].2 = new,
                    None => w().servers.push((remote.clone(), x.to_vec(), new)),
                }
                super::wt::update_ref(&c.env, &tracking, new);
                if flag(b"--set-upstream") {
                    let keys = [cs(&format!("branch.{name}.remote")), cs(&format!("branch.{name}.merge"))];
                    w().config.retain(|k| !keys.contains(&k.0));
                    w().config_set(&format!("branch.{name}.remote"), std::str::from_utf8(&remote).unwrap());
                    w().config_set(&format!("branch.{name}.merge"), &format!("refs/heads/{name}"));
                }
            }
            rc
        }
        b"fetch" => {
            for (name, to) in w().fetch.clone() {
                super::wt::update_ref(&c.env, &name, to);
            }
            0
        }
        b"rebase" if pos.len() == 1 => match (w().revparse(pos[0]), head()) {
            // only fast-forwarding
            (Some(to), Some(h)) if w().is_ancestor(h, to) => {
                if w().wt && (super::wt::unstaged() || !super::wt::index_is(h) || !super::wt::switch_files(to, false)) {
                    return 1;
                }
                super::wt::move_head(&c.env, to);
                after_checkout(&c.env, old_head);
                0
            }
            _ => 1,
        },
        b"branchless" => 0,
        _ => 1,
    }
}
