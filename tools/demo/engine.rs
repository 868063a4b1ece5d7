//! Just enough of an executor for a demonstration: everything runs on this thread, so a future
//! that is pending with nothing left to wake it is a deadlock.
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    panic!("deadlock");
                }
            }
        }
    }
}
pub struct Src;
