//! the thread pool: every accepted task runs exactly once
use crate::net::yield_;
use crate::se::*;
use starry::utils::concurrent::ThreadPool;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_pool_run", h_pool_run));
    v.push(("h_pool_full", h_pool_full));
    v.push(("h_pool_panic", h_pool_panic));
    v.push(("h_pool_two", h_pool_two));
    v.push(("h_pool_gone", h_pool_gone));
    v.push(("h_pool_start", h_pool_start));
}
const N: usize = 8;
static RUN: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static BEGUN: AtomicUsize = AtomicUsize::new(0);
static DONE: Mutex<usize> = Mutex::new(0);
static SIGNAL: Condvar = Condvar::new();
/// tasks that may not finish yet
static HELD: Mutex<bool> = Mutex::new(false);
static RELEASE: Condvar = Condvar::new();

fn task(i: usize, size: usize, panics: bool, held: bool) {
    BEGUN.fetch_add(1, SeqCst);
    let a = ACTIVE.fetch_add(1, SeqCst) + 1;
    check(a <= size, "no more tasks at a time than workers");
    RUN[i].fetch_add(1, SeqCst);
    if held {
        let mut h = HELD.lock().unwrap();
        while *h {
            h = RELEASE.wait(h).unwrap();
        }
    }
    ACTIVE.fetch_sub(1, SeqCst);
    *DONE.lock().unwrap() += 1;
    SIGNAL.notify_all();
    if panics {
        panic!("task");
    }
}
/// waits (for ever, if need be) until so many tasks are done
fn wait(n: usize) {
    let mut d = DONE.lock().unwrap();
    while *d < n {
        d = SIGNAL.wait(d).unwrap();
    }
}
fn once(accepted: &[bool]) {
    // a second run of a task would come now
    for _ in 0..10 {
        yield_();
    }
    for (i, a) in accepted.iter().enumerate() {
        check(RUN[i].load(SeqCst) == *a as usize, "an accepted task runs exactly once, a refused one never");
    }
    reach("end");
}
fn pool(size: usize, tasks: usize) -> ThreadPool {
    ThreadPool::new_custom("p".to_string(), size, 0, tasks).unwrap()
}
/// tasks given to a pool with room for them
#[no_mangle]
pub extern "C" fn h_pool_run() {
    let size = 1 + choice(2);
    let n = 1 + choice(deep(3, 4));
    let p = pool(size, 8);
    se_sched(deep(2, if n <= 2 { 3 } else { 2 }) as i32);
    let mut a = vec![];
    for i in 0..n {
        let ok = p.execute(move || task(i, size, false, false)).is_ok();
        check(ok, "a task is refused only when the queue is full");
        a.push(ok);
    }
    wait(n);
    once(&a);
}
/// a queue with little room: a task may be refused only when it is full
#[no_mangle]
pub extern "C" fn h_pool_full() {
    let size = 1 + choice(2);
    let room = 1 + choice(2);
    let n = deep(3, 4);
    let held = choice(2) == 1;
    *HELD.lock().unwrap() = held;
    let p = pool(size, room);
    se_sched(2);
    let mut a = vec![];
    let mut acc = 0;
    for i in 0..n {
        let ok = p.execute(move || task(i, size, false, held)).is_ok();
        if ok {
            acc += 1;
        } else {
            check(acc - BEGUN.load(SeqCst) >= room, "a task is refused only when the queue is full");
            reach("refused");
        }
        a.push(ok);
    }
    *HELD.lock().unwrap() = false;
    RELEASE.notify_all();
    wait(acc);
    // and there is room again
    let ok = p.execute(move || task(n, size, false, false)).is_ok();
    check(ok, "room again");
    a.push(ok);
    wait(acc + 1);
    once(&a);
}
/// tasks that panic
#[no_mangle]
pub extern "C" fn h_pool_panic() {
    se_panic_mode(1);
    let size = 1 + choice(2);
    let n = 2 + choice(deep(1, 2));
    let bad = 1 + choice(3);
    let p = pool(size, 8);
    se_sched(2);
    let mut a = vec![];
    for i in 0..n {
        let panics = (bad >> i) & 1 == 1;
        let ok = p.execute(move || task(i, size, panics, false)).is_ok();
        check(ok, "a task is refused only when the queue is full");
        a.push(ok);
    }
    wait(n);
    once(&a);
}
/// two threads submit
#[no_mangle]
pub extern "C" fn h_pool_two() {
    let size = 1 + choice(2);
    let p = pool(size, 8);
    let q = p.clone();
    se_sched(2);
    let t = std::thread::spawn(move || {
        for i in 3..5 {
            check(q.execute(move || task(i, size, false, false)).is_ok(), "a task is refused only when the queue is full");
        }
    });
    let k = deep(2, 3);
    for i in 0..k {
        check(p.execute(move || task(i, size, false, false)).is_ok(), "a task is refused only when the queue is full");
    }
    t.join().unwrap();
    wait(k + 2);
    once(&[true, true, k > 2, true, true]);
}
/// the owner drops the pool with tasks still queued
#[no_mangle]
pub extern "C" fn h_pool_gone() {
    let size = 1 + choice(2);
    let n = 1 + choice(deep(2, 3));
    let twin = choice(2) == 1;
    let held = choice(2) == 1;
    *HELD.lock().unwrap() = held;
    let p = pool(size, 8);
    se_sched(2);
    let q = if twin { Some(p.clone()) } else { None };
    for i in 0..n {
        check(p.execute(move || task(i, size, false, held)).is_ok(), "a task is refused only when the queue is full");
    }
    drop(p);
    *HELD.lock().unwrap() = false;
    RELEASE.notify_all();
    wait(n);
    if let Some(q) = q {
        check(q.execute(move || task(n, size, false, false)).is_ok(), "the other handle still works");
        wait(n + 1);
        once(&[true; 4][..n + 1]);
    } else {
        once(&[true; 3][..n]);
    }
}
/// tasks given while the pool's threads are starting
#[no_mangle]
pub extern "C" fn h_pool_start() {
    let size = 1 + choice(2);
    se_sched(deep(2, 3) as i32);
    let p = pool(size, 8);
    for i in 0..2 {
        check(p.execute(move || task(i, size, false, false)).is_ok(), "a task is refused only when the queue is full");
    }
    wait(2);
    once(&[true; 2]);
}
