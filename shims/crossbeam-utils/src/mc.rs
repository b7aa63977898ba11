//! Controlled scheduler (added for model checking; not part of upstream
//! crossbeam-utils). A *session* serialises the threads spawned through
//! `thread::scope`: exactly one of them runs at a time, and at every schedule
//! point (spawn, `yield_point`, join, scope end, thread end) the next one to
//! run is taken from a replayable list of choices. Outside a session nothing
//! changes.

use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;
use std::vec::Vec;
use std::{panic, thread_local};

#[derive(Clone, Debug, PartialEq)]
enum Status {
    Runnable,
    Blocked(Vec<usize>),
    Done,
}

#[derive(Debug)]
struct Inner {
    current: usize,
    status: Vec<Status>,
    prefix: Vec<usize>,
    trace: Vec<(usize, usize)>,
    preemptions: usize,
    bound: usize,
    points: u64,
    diverged: bool,
    /// Control was given up: the running thread waits for something that only
    /// a paused thread can give (a lock, a channel), so everyone runs freely.
    free: bool,
}

/// A controlled execution.
#[derive(Debug)]
pub struct Session {
    inner: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Session>, usize)>> = const { RefCell::new(None) };
}

/// What one controlled execution did.
#[derive(Debug, Clone)]
pub struct Execution {
    /// (choice taken, number of alternatives) at every point with more than one alternative.
    pub trace: Vec<(usize, usize)>,
    /// Schedule points passed.
    pub points: u64,
    /// Threads spawned.
    pub threads: usize,
    /// Preemptive switches taken.
    pub preemptions: usize,
    /// The given choices did not fit this execution.
    pub diverged: bool,
    /// Control was given up on the way (threads block each other outside the
    /// scheduler); the rest of the execution ran under the operating system.
    pub uncontrolled: bool,
}

fn pick(g: &mut Inner, me: usize) -> usize {
    g.points += 1;
    for i in 0..g.status.len() {
        let free = match &g.status[i] {
            Status::Blocked(on) => on.iter().all(|c| g.status[*c] == Status::Done),
            _ => false,
        };
        if free {
            g.status[i] = Status::Runnable;
        }
    }
    let me_ok = g.status[me] == Status::Runnable;
    let mut options = Vec::new();
    if me_ok {
        options.push(me);
    }
    if !me_ok || g.preemptions < g.bound {
        for i in 0..g.status.len() {
            if i != me && g.status[i] == Status::Runnable {
                options.push(i);
            }
        }
    }
    if options.is_empty() {
        return usize::MAX;
    }
    let choice = if options.len() == 1 {
        0
    } else {
        let k = g.trace.len();
        let mut c = if k < g.prefix.len() { g.prefix[k] } else { 0 };
        if c >= options.len() {
            g.diverged = true;
            c = 0;
        }
        g.trace.push((c, options.len()));
        c
    };
    if me_ok && choice != 0 {
        g.preemptions += 1;
    }
    options[choice]
}

impl Session {
    fn switch(&self, me: usize, set: Option<Status>) {
        let mut g = self.inner.lock().unwrap();
        let done = set == Some(Status::Done);
        if g.free {
            if let Some(s) = set {
                g.status[me] = s;
            }
            return;
        }
        if let Some(s) = set {
            g.status[me] = s;
        }
        let next = pick(&mut g, me);
        if next == me {
            return;
        }
        g.current = next;
        self.cv.notify_all();
        if done {
            return;
        }
        self.wait(g, me);
    }

    fn wait_turn(&self, me: usize) {
        let g = self.inner.lock().unwrap();
        self.wait(g, me);
    }

    fn wait(&self, mut g: MutexGuard<'_, Inner>, me: usize) {
        let mut seen = g.points;
        let mut idle = 0;
        while g.current != me && !g.free {
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(100)).unwrap();
            g = h;
            if g.points != seen {
                seen = g.points;
                idle = 0;
            } else if t.timed_out() {
                idle += 1;
                if idle >= 20 {
                    g.free = true;
                    self.cv.notify_all();
                }
            }
        }
    }
}

fn me() -> Option<(Arc<Session>, usize)> {
    ME.with(|m| m.borrow().clone())
}

/// A schedule point. Does nothing outside a session.
pub fn yield_point() {
    if let Some((s, id)) = me() {
        s.switch(id, None);
    }
}

/// Whether the calling thread belongs to a session.
pub fn active() -> bool {
    ME.with(|m| m.borrow().is_some())
}

/// Identifies the session the calling thread belongs to.
pub fn session() -> Option<usize> {
    ME.with(|m| m.borrow().as_ref().map(|x| Arc::as_ptr(&x.0) as usize))
}

#[derive(Debug)]
pub(crate) struct Ticket(Arc<Session>, usize);

impl Ticket {
    pub(crate) fn id(&self) -> usize {
        self.1
    }
}

/// Called by the parent before it starts the OS thread.
pub(crate) fn register() -> Option<Ticket> {
    me().map(|(s, _)| {
        let id = {
            let mut g = s.inner.lock().unwrap();
            g.status.push(Status::Runnable);
            g.status.len() - 1
        };
        Ticket(s, id)
    })
}

pub(crate) struct Finish(Option<(Arc<Session>, usize)>);

impl Drop for Finish {
    fn drop(&mut self) {
        if let Some((s, id)) = self.0.take() {
            ME.with(|m| *m.borrow_mut() = None);
            s.switch(id, Some(Status::Done));
        }
    }
}

/// Called first in the child thread.
pub(crate) fn enter(t: Option<Ticket>) -> Finish {
    match t {
        None => Finish(None),
        Some(Ticket(s, id)) => {
            s.wait_turn(id);
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), id)));
            Finish(Some((s, id)))
        }
    }
}

/// The parent waits for these threads.
pub(crate) fn block_on(ids: Vec<usize>) {
    if let Some((s, id)) = me() {
        s.switch(id, Some(Status::Blocked(ids)));
    }
}

/// Runs `f` in a session that takes the given choices, then the first
/// alternative, with at most `bound` preemptive switches.
pub fn run<R>(prefix: &[usize], bound: usize, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Execution) {
    let s = Arc::new(Session {
        inner: Mutex::new(Inner {
            current: 0,
            status: [Status::Runnable].to_vec(),
            prefix: prefix.to_vec(),
            trace: Vec::new(),
            preemptions: 0,
            bound,
            points: 0,
            diverged: false,
            free: false,
        }),
        cv: Condvar::new(),
    });
    let old = ME.with(|m| m.borrow_mut().replace((s.clone(), 0)));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    ME.with(|m| *m.borrow_mut() = old);
    let g = s.inner.lock().unwrap_or_else(|e| e.into_inner());
    (
        r,
        Execution {
            trace: g.trace.clone(),
            points: g.points,
            threads: g.status.len() - 1,
            preemptions: g.preemptions,
            diverged: g.diverged || (!g.free && g.trace.len() < prefix.len()),
            uncontrolled: g.free,
        },
    )
}
