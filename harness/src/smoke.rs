//! Executor self-checks.
use crate::sym::*;

pub fn threads() {
    use std::sync::{mpsc, Arc, Condvar, Mutex};
    let (tx, rx) = mpsc::channel();
    let x = any_u8();
    let m = Arc::new((Mutex::new(0u32), Condvar::new()));
    let hs: Vec<_> = (0..3u8)
        .map(|i| {
            let tx = tx.clone();
            let m = m.clone();
            std::thread::spawn(move || {
                tx.send(x.wrapping_add(i)).unwrap();
                *m.0.lock().unwrap() += 1;
                m.1.notify_all();
                i as u32
            })
        })
        .collect();
    drop(tx);
    let mut g = m.0.lock().unwrap();
    while *g < 3 {
        g = m.1.wait(g).unwrap();
    }
    drop(g);
    let mut sum = 0u8;
    for v in rx {
        sum = sum.wrapping_add(v);
    }
    check(sum == x.wrapping_mul(3).wrapping_add(3), "sum");
    let r: u32 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    check(r == 3, "join");
    cover("threads");
}
pub fn rayon() {
    use ::rayon::prelude::*;
    let x = any_u8();
    let pool = ::rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let v: Vec<u8> = pool.install(|| (0..4u8).into_par_iter().map(|i| x ^ i).collect());
    check(v[2] == x ^ 2, "map");
    cover("rayon");
}
