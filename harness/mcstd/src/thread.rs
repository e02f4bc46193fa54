//! Threads under control when started by a thread that is.
use crate::sched;
pub use std::thread::*;
use std::sync::{Arc, Mutex};

pub enum JoinHandle<T> {
    Real(std::thread::JoinHandle<T>),
    Ours(usize, Arc<Mutex<Option<std::thread::Result<T>>>>),
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self {
            JoinHandle::Real(h) => h.join(),
            JoinHandle::Ours(i, slot) => {
                sched::point("join");
                while !sched::finished(i) {
                    sched::block(sched::ended(i), "join");
                }
                let r = slot.lock().unwrap().take();
                r.unwrap_or_else(|| Err(Box::new("the thread was given up")))
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match self {
            JoinHandle::Real(h) => h.is_finished(),
            JoinHandle::Ours(i, _) => sched::finished(*i),
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if !sched::controlled() {
        return JoinHandle::Real(std::thread::spawn(f));
    }
    let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
    let s = slot.clone();
    let i = sched::start(Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if let Err(p) = &r {
            if p.is::<sched::GivenUp>() {
                std::panic::resume_unwind(Box::new(sched::GivenUp));
            }
        }
        *s.lock().unwrap() = Some(r);
    }));
    sched::point("spawn");
    JoinHandle::Ours(i, slot)
}

#[derive(Default)]
pub struct Builder(());
impl Builder {
    pub fn new() -> Builder {
        Builder(())
    }
    pub fn name(self, _: String) -> Builder {
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}

pub fn yield_now() {
    if sched::controlled() {
        sched::point("yield");
    } else {
        std::thread::yield_now();
    }
}
pub fn sleep(d: std::time::Duration) {
    if sched::controlled() {
        sched::point("sleep");
    } else {
        std::thread::sleep(d);
    }
}
