//! Harness side of the stub: the task and sleep tables.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    fut: Option<Fut>,
    woken: bool,
    node: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SleepState {
    Pending,
    Expired,
    Done,
}

struct SleepRec {
    dur: Duration,
    state: SleepState,
    waker: Option<Waker>,
    node: usize,
    /// task that created it
    task: usize,
}

pub const NO_TASK: usize = usize::MAX;

static mut TASKS: Vec<Task> = Vec::new();
static mut SLEEPS: Vec<SleepRec> = Vec::new();
/// Woken tasks in the order in which they were woken.
static mut QUEUE: Vec<usize> = Vec::new();
static mut NODE: usize = 0;
static mut CURRENT: usize = NO_TASK;

fn tasks() -> &'static mut Vec<Task> {
    unsafe { &mut *std::ptr::addr_of_mut!(TASKS) }
}
fn queue() -> &'static mut Vec<usize> {
    unsafe { &mut *std::ptr::addr_of_mut!(QUEUE) }
}
fn sleeps() -> &'static mut Vec<SleepRec> {
    unsafe { &mut *std::ptr::addr_of_mut!(SLEEPS) }
}

/// Drops everything without running destructors of the futures (harness reset).
pub fn reset() {
    for t in tasks().iter_mut() {
        std::mem::forget(t.fut.take());
    }
    tasks().clear();
    queue().clear();
    for s in sleeps().iter_mut() {
        std::mem::forget(s.waker.take());
    }
    sleeps().clear();
}

/// The node label given to tasks spawned from outside a task.
pub fn set_node(n: usize) {
    unsafe { NODE = n }
}

fn cur_node() -> usize {
    unsafe {
        let c = CURRENT;
        if c != NO_TASK {
            tasks()[c].node
        } else {
            NODE
        }
    }
}

pub fn add_task(fut: Fut) -> usize {
    let node = cur_node();
    tasks().push(Task {
        fut: Some(fut),
        woken: true,
        node,
    });
    let id = tasks().len() - 1;
    queue().push(id);
    id
}

pub fn abort(id: usize) {
    if unsafe { CURRENT } != id {
        let f = tasks()[id].fut.take();
        drop(f);
    }
}

/// Kills every task of a node as a crash would: nothing runs any more, no
/// destructor is executed.
pub fn crash_node(node: usize) {
    for t in tasks().iter_mut() {
        if t.node == node {
            std::mem::forget(t.fut.take());
        }
    }
    for s in sleeps().iter_mut() {
        if s.node == node {
            s.state = SleepState::Done;
            std::mem::forget(s.waker.take());
        }
    }
}

pub fn task_count() -> usize {
    tasks().len()
}
pub fn task_node(i: usize) -> usize {
    tasks()[i].node
}
pub fn is_ready(i: usize) -> bool {
    tasks()[i].fut.is_some() && tasks()[i].woken
}
pub fn is_alive(i: usize) -> bool {
    tasks()[i].fut.is_some()
}

pub fn current_task() -> usize {
    unsafe { CURRENT }
}

static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);
fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn w_wake(p: *const ()) {
    let i = p as usize;
    if i < tasks().len() && !tasks()[i].woken {
        tasks()[i].woken = true;
        queue().push(i);
    }
}
fn w_drop(_p: *const ()) {}

/// Tasks that are ready, in the order in which they became ready.
pub fn ready() -> &'static [usize] {
    queue().retain(|&i| tasks()[i].fut.is_some() && tasks()[i].woken);
    queue()
}
/// Polls the task that has been ready for longest; false if none is.
pub fn step() -> bool {
    while !queue().is_empty() {
        let i = queue().remove(0);
        if tasks()[i].fut.is_some() && tasks()[i].woken {
            poll_task(i);
            return true;
        }
    }
    false
}

/// Polls task `i` once. Returns true if it finished.
pub fn poll_task(i: usize) -> bool {
    let mut fut = match tasks()[i].fut.take() {
        Some(f) => f,
        None => return true,
    };
    tasks()[i].woken = false;
    queue().retain(|&j| j != i);
    let waker = unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) };
    let mut cx = Context::from_waker(&waker);
    let prev = unsafe { CURRENT };
    unsafe { CURRENT = i };
    let r = fut.as_mut().poll(&mut cx);
    unsafe { CURRENT = prev };
    match r {
        Poll::Ready(()) => true,
        Poll::Pending => {
            tasks()[i].fut = Some(fut);
            false
        }
    }
}

pub fn add_sleep(d: Duration) -> usize {
    let node = cur_node();
    sleeps().push(SleepRec {
        dur: d,
        state: SleepState::Pending,
        waker: None,
        node,
        task: unsafe { CURRENT },
    });
    sleeps().len() - 1
}
pub(crate) fn poll_sleep(id: usize, w: &Waker) -> bool {
    let s = &mut sleeps()[id];
    match s.state {
        SleepState::Pending => {
            s.waker = Some(w.clone());
            false
        }
        SleepState::Expired => {
            s.state = SleepState::Done;
            true
        }
        SleepState::Done => true,
    }
}
pub(crate) fn drop_sleep(id: usize) {
    if id < sleeps().len() {
        sleeps()[id].state = SleepState::Done;
        sleeps()[id].waker = None;
    }
}
pub fn sleep_count() -> usize {
    sleeps().len()
}
pub fn sleep_info(i: usize) -> (Duration, SleepState, usize, usize) {
    let s = &sleeps()[i];
    (s.dur, s.state, s.node, s.task)
}
/// Lets sleep `i` expire and wakes its owner.
pub fn expire(i: usize) {
    let s = &mut sleeps()[i];
    if s.state == SleepState::Pending {
        s.state = SleepState::Expired;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }
}
