//! Exhaustive exploration of the schedules of a piece of code that spawns
//! threads, on the controlled scheduler of the substituted crossbeam-utils.
use crate::report::*;
use crossbeam_utils::mc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Debug, Default, Clone)]
pub struct Explored {
    pub executions: u64,
    pub points: u64,
    pub threads: usize,
    pub uncontrolled: u64,
}

/// Every schedule with at most `bound` preemptions.
pub fn explore(what: &str, bound: usize, f: impl Fn() -> Result<(), String> + Sync) -> Result<Explored, String> {
    explore_dev(what, bound, usize::MAX, f)
}

/// Runs `f` under every schedule with at most `bound` preemptions and at most
/// `dev` choices (preemptive or not) other than the first alternative. `f`
/// returns an error when the outcome is wrong. Executions are distributed over
/// the cores; each of them is serialised by its own scheduler.
pub fn explore_dev(what: &str, bound: usize, dev: usize, f: impl Fn() -> Result<(), String> + Sync) -> Result<Explored, String> {
    let stack = Mutex::new(vec![Vec::<usize>::new()]);
    let busy = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let (ex, pt, th, un) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let workers: Vec<usize> = (0..8).collect();
    let r = par(&workers, |_| {
        loop {
            if stop.load(SeqCst) {
                return Ok(());
            }
            let job = {
                let mut s = stack.lock().unwrap();
                let j = s.pop();
                if j.is_some() {
                    busy.fetch_add(1, SeqCst);
                }
                j
            };
            let Some(prefix) = job else {
                if busy.load(SeqCst) == 0 && stack.lock().unwrap().is_empty() {
                    return Ok(());
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
                continue;
            };
            let (res, e) = mc::run(&prefix, bound, || guard2(&f));
            ex.fetch_add(1, Relaxed);
            pt.fetch_add(e.points, Relaxed);
            th.fetch_max(e.threads as u64, Relaxed);
            let choices: Vec<usize> = e.trace.iter().map(|t| t.0).collect();
            let fail = match res {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(_) => Some("panic".into()),
            };
            if let Some(m) = fail {
                stop.store(true, SeqCst);
                busy.fetch_sub(1, SeqCst);
                return Err(format!("{}: schedule {:?} (preemption bound {}): {}", what, choices, bound, m));
            }
            if e.uncontrolled {
                // threads synchronise with each other outside the scheduler:
                // the outcome was checked, but nothing below can be replayed
                if un.fetch_add(1, Relaxed) > 8 {
                    stop.store(true, SeqCst);
                }
            } else if e.diverged {
                stop.store(true, SeqCst);
                busy.fetch_sub(1, SeqCst);
                return Err(format!("{}: schedule {:?} cannot be replayed: execution depends on something other than its input", what, prefix));
            } else if choices[..prefix.len()].iter().filter(|c| **c != 0).count() < dev {
                let mut s = stack.lock().unwrap();
                for i in prefix.len()..e.trace.len() {
                    for alt in 1..e.trace[i].1 {
                        let mut p = choices[..i].to_vec();
                        p.push(alt);
                        s.push(p);
                    }
                }
            }
            busy.fetch_sub(1, SeqCst);
        }
    });
    for x in r {
        x?;
    }
    let e = Explored { executions: ex.into_inner(), points: pt.into_inner(), threads: th.into_inner() as usize, uncontrolled: un.into_inner() };
    states(e.executions);
    transitions(e.points);
    validated(e.executions);
    Ok(e)
}
