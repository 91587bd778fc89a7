//! A task executor whose schedule the generator owns: tasks are polled when told to, and wake-ups
//! are recorded, so that "woken", "pending" and "stuck" are observable and deterministic.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
impl Flag {
    pub fn new(on: bool) -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(on)))
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
}

pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
}

impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        Task { fut: Some(Box::pin(f)), flag: Flag::new(true) }
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.flag.get()
    }
    /// Polls once, woken or not. None if pending or finished before.
    pub fn poll(&mut self) -> Option<T> {
        self.flag.take();
        let waker: Waker = self.flag.clone().into();
        let fut = self.fut.as_mut()?;
        match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(v) => {
                self.fut = None;
                Some(v)
            }
            Poll::Pending => None,
        }
    }
    pub fn pending(&self) -> bool {
        self.fut.is_some()
    }
    pub fn cancel(&mut self) {
        self.fut = None;
    }
}
