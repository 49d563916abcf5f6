//! Commit search (bisection) over every small graph, predicate and strategy.
use crate::sym::*;
use scm_bisect::basic::{BasicSourceControlGraph, BasicStrategy, BasicStrategyKind};
use scm_bisect::search::{Search, Status};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct G<const N: usize> {
    /// reach[a][d]: a is an ancestor of (or equal to) d.
    pub reach: [[bool; N]; N],
}

impl<const N: usize> BasicSourceControlGraph for G<N> {
    type Node = u8;
    type Error = std::convert::Infallible;
    fn ancestors(&self, node: u8) -> Result<HashSet<u8>, Self::Error> {
        Ok((0..N as u8)
            .filter(|a| self.reach[*a as usize][node as usize])
            .collect())
    }
    fn descendants(&self, node: u8) -> Result<HashSet<u8>, Self::Error> {
        Ok((0..N as u8)
            .filter(|d| self.reach[node as usize][*d as usize])
            .collect())
    }
}

pub fn any_graph<const N: usize>() -> G<N> {
    let mut reach = [[false; N]; N];
    for d in 0..N {
        reach[d][d] = true;
        // parents are smaller numbers; reach is the transitive closure
        let mut edge = [false; N];
        for e in edge.iter_mut().take(d) {
            *e = any_bool();
        }
        for a in 0..d {
            let mut r = edge[a];
            for m in a + 1..d {
                r |= reach[a][m] & edge[m];
            }
            reach[a][d] = r;
        }
    }
    G { reach }
}

fn kind() -> BasicStrategyKind {
    match any_index(3) {
        0 => BasicStrategyKind::Linear,
        1 => BasicStrategyKind::LinearReverse,
        _ => BasicStrategyKind::Binary,
    }
}

pub fn run<const N: usize>() {
    let g = any_graph::<N>();
    // A predicate that is monotone: descendants of a failing node fail.
    let mut fails = [false; N];
    for d in 0..N {
        let own = any_bool();
        let mut f = own;
        for a in 0..d {
            f |= fails[a] & g.reach[a][d];
        }
        fails[d] = f;
    }
    let strategy = BasicStrategy::new(kind());
    let mut search = Search::new(g.clone(), 0..N as u8);
    let mut tested = [false; N];
    for _ in 0..N {
        let first = {
            let sol = match search.search(&strategy) {
                Ok(s) => s,
                Err(_) => return check(false, "search fails"),
            };
            for s in &sol.bounds.success {
                check(!fails[*s as usize], "success bound fails the predicate");
            }
            for s in &sol.bounds.failure {
                check(fails[*s as usize], "failure bound satisfies the predicate");
            }
            let mut it = sol.next_to_search;
            it.next()
        };
        let node = match first {
            None => break,
            Some(Ok(n)) => n,
            Some(Err(_)) => return check(false, "search suggests a settled node"),
        };
        check(!tested[node as usize], "a commit is tested twice");
        tested[node as usize] = true;
        let st = if fails[node as usize] { Status::Failure } else { Status::Success };
        check(search.notify(node, st).is_ok(), "a consistent result is rejected");
    }
    let sol = search.search(&strategy).ok().unwrap();
    let (bs, bf) = (sol.bounds.success, sol.bounds.failure);
    let mut it = sol.next_to_search;
    check(it.next().is_none(), "search does not finish");
    for n in 0..N {
        let mut s = false;
        for b in &bs {
            s |= g.reach[n][*b as usize];
        }
        let mut f = false;
        for b in &bf {
            f |= g.reach[*b as usize][n];
        }
        check(f == fails[n], "final failure bounds do not classify a commit");
        check(s == !fails[n], "final success bounds do not classify a commit");
    }
    cover("finished");
}

/// The whole search protocol: any graph, any searched subset, any bisectable predicate,
/// any set of indeterminate commits, results arriving in any suggested order.
pub fn protocol<const N: usize>() {
    let g = any_graph::<N>();
    let mut fails = [false; N];
    let mut indet = [false; N];
    for d in 0..N {
        let mut f = any_bool();
        for a in 0..d {
            f |= fails[a] & g.reach[a][d];
        }
        fails[d] = f;
        indet[d] = any_bool();
    }
    let mut searched = [false; N];
    for s in searched.iter_mut() {
        *s = any_bool();
    }
    let strategy = BasicStrategy::new(kind());
    let mut search = Search::new(
        g.clone(),
        (0..N as u8).filter(|n| searched[*n as usize]).collect::<Vec<_>>(),
    );
    let mut tested = [false; N];
    let mut rounds = 0;
    loop {
        let next: Vec<u8> = {
            let sol = match search.search(&strategy) {
                Ok(s) => s,
                Err(_) => return check(false, "search fails"),
            };
            for s in &sol.bounds.success {
                check(tested[*s as usize] & !indet[*s as usize] & !fails[*s as usize], "success bound was not seen to succeed");
            }
            for s in &sol.bounds.failure {
                check(tested[*s as usize] & !indet[*s as usize] & fails[*s as usize], "failure bound was not seen to fail");
            }
            // known or implied results
            let mut implied = [false; N];
            for n in 0..N {
                for s in &sol.bounds.success {
                    implied[n] |= g.reach[n][*s as usize];
                }
                for s in &sol.bounds.failure {
                    implied[n] |= g.reach[*s as usize][n];
                }
            }
            let mut next = Vec::new();
            for x in sol.next_to_search {
                match x {
                    Ok(n) => {
                        check(searched[n as usize], "suggests a commit outside the searched set");
                        check(!tested[n as usize], "suggests a commit that was already tested");
                        check(!implied[n as usize], "suggests a commit whose result is implied");
                        check(!next.contains(&n), "suggests a commit twice");
                        next.push(n);
                    }
                    Err(_) => return check(false, "suggesting commits fails"),
                }
            }
            if next.is_empty() {
                for n in 0..N {
                    check(!searched[n] | tested[n] | implied[n], "stops although a commit is undecided");
                    let mut f = false;
                    let mut s = false;
                    for b in &sol.bounds.failure {
                        f |= g.reach[*b as usize][n];
                    }
                    for b in &sol.bounds.success {
                        s |= g.reach[n][*b as usize];
                    }
                    check(!(searched[n] & tested[n] & !indet[n]) | ((f == fails[n]) & (s == !fails[n])), "final bounds contradict a test result");
                }
            }
            next
        };
        if next.is_empty() {
            break;
        }
        rounds += 1;
        check(rounds <= N, "search does not terminate");
        // results may arrive in any order (speculative jobs)
        let node = next[any_index(next.len())] as usize;
        tested[node] = true;
        let st = if indet[node] {
            Status::Indeterminate
        } else if fails[node] {
            Status::Failure
        } else {
            Status::Success
        };
        check(search.notify(node as u8, st).is_ok(), "a consistent result is rejected");
    }
    cover("finished");
    if indet.iter().any(|x| *x) {
        cover("with indeterminate commits");
    }
}

/// Results are accepted exactly when they do not contradict accepted ones, and a
/// rejected result changes nothing.
pub fn contradictions<const N: usize>() {
    let g = any_graph::<N>();
    let mut search = Search::new(g.clone(), 0..N as u8);
    // 0 untested, 1 success, 2 failure, 3 indeterminate
    let mut st = [0u8; N];
    for _ in 0..N {
        let node = any_index(N);
        let s = any_index(4) as u8;
        let status = match s {
            0 => Status::Untested,
            1 => Status::Success,
            2 => Status::Failure,
            _ => Status::Indeterminate,
        };
        let mut bad = (st[node] == 1 || st[node] == 2) && st[node] != s;
        for o in 0..N {
            bad |= s == 1 && st[o] == 2 && g.reach[o][node];
            bad |= s == 2 && st[o] == 1 && g.reach[node][o];
        }
        let ok = search.notify(node as u8, status).is_ok();
        check(ok == !bad, "a result is accepted although it contradicts an accepted one, or rejected although it does not");
        if ok {
            st[node] = s;
            cover("accepted");
        } else {
            cover("rejected");
        }
    }
    let (sb, fb) = (search.success_bounds().unwrap(), search.failure_bounds().unwrap());
    for n in 0..N {
        let mut is_head = st[n] == 1;
        let mut is_root = st[n] == 2;
        for o in 0..N {
            is_head &= !(o != n && st[o] == 1 && g.reach[n][o]);
            is_root &= !(o != n && st[o] == 2 && g.reach[o][n]);
        }
        check(sb.contains(&(n as u8)) == is_head, "success bounds are not the latest successes");
        check(fb.contains(&(n as u8)) == is_root, "failure bounds are not the earliest failures");
    }
}

/// On a linear history the binary strategy needs at most ceil(log2(n + 1)) tests.
pub fn chain<const N: usize>(limit: usize) {
    let mut reach = [[false; N]; N];
    for d in 0..N {
        for a in 0..=d {
            reach[a][d] = true;
        }
    }
    let first_bad = any_u8();
    assume(first_bad as usize <= N);
    let strategy = BasicStrategy::new(BasicStrategyKind::Binary);
    let mut search = Search::new(G::<N> { reach }, 0..N as u8);
    let mut n_tests = 0;
    loop {
        let next = {
            let sol = search.search(&strategy).ok().unwrap();
            let mut it = sol.next_to_search;
            it.next()
        };
        match next {
            None => break,
            Some(Ok(n)) => {
                n_tests += 1;
                check(n_tests <= limit, "binary search needs more than logarithmically many tests");
                let st = if n >= first_bad { Status::Failure } else { Status::Success };
                search.notify(n, st).ok().unwrap();
            }
            Some(Err(_)) => return check(false, "search fails"),
        }
    }
    let b = search.failure_bounds().unwrap();
    check(b.len() == ((first_bad as usize) < N) as usize, "boundary not found");
    for x in b {
        check(x == first_bad, "wrong boundary found");
    }
    cover("finished");
}
pub fn chain7() {
    chain::<7>(3)
}
pub fn chain15() {
    chain::<15>(4)
}
