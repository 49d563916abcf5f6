//! C library functions needed by SQLite inside the executor.
type P = *const u8;
unsafe fn at(p: P, i: usize) -> u8 {
    *p.add(i)
}
unsafe fn within(c: u8, set: P) -> bool {
    let mut i = 0;
    while at(set, i) != 0 {
        if at(set, i) == c {
            return true;
        }
        i += 1;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn l_strrchr(s: P, c: i32) -> P {
    let mut r = std::ptr::null();
    let mut i = 0;
    loop {
        if at(s, i) == c as u8 {
            r = s.add(i);
        }
        if at(s, i) == 0 {
            return r;
        }
        i += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn l_strcspn(s: P, set: P) -> usize {
    let mut i = 0;
    while at(s, i) != 0 && !within(at(s, i), set) {
        i += 1;
    }
    i
}
#[no_mangle]
pub unsafe extern "C" fn l_strspn(s: P, set: P) -> usize {
    let mut i = 0;
    while at(s, i) != 0 && within(at(s, i), set) {
        i += 1;
    }
    i
}
#[no_mangle]
pub unsafe extern "C" fn l_strcpy(d: *mut u8, s: P) -> *mut u8 {
    let mut i = 0;
    loop {
        *d.add(i) = at(s, i);
        if at(s, i) == 0 {
            return d;
        }
        i += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn l_strstr(h: P, n: P) -> P {
    let mut i = 0;
    loop {
        let mut j = 0;
        while at(n, j) != 0 && at(h, i + j) == at(n, j) {
            j += 1;
        }
        if at(n, j) == 0 {
            return h.add(i);
        }
        if at(h, i) == 0 {
            return std::ptr::null();
        }
        i += 1;
    }
}
