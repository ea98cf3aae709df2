use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Slot<T> {
    v: UnsafeCell<(Option<T>, Option<Waker>, bool)>,
}
pub struct JoinHandle<T> {
    slot: Rc<Slot<T>>,
    id: usize,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
#[derive(Debug)]
pub struct JoinError(());
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("task was cancelled")
    }
}
impl std::error::Error for JoinError {}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let st = crate::sim::sim();
        if let Some(t) = st.tasks.get_mut(self.id) {
            let f = t.fut.take();
            drop(f);
        }
        let v = unsafe { &mut *self.slot.v.get() };
        if v.0.is_none() {
            v.2 = true;
            if let Some(w) = v.1.take() {
                w.wake();
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        let v = unsafe { &*self.slot.v.get() };
        v.0.is_some() || v.2
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.id)
    }
}
#[derive(Debug, Clone)]
pub struct AbortHandle(usize);
impl AbortHandle {
    pub fn abort(&self) {
        let st = crate::sim::sim();
        if let Some(t) = st.tasks.get_mut(self.0) {
            let f = t.fut.take();
            drop(f);
        }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let v = unsafe { &mut *self.slot.v.get() };
        if let Some(x) = v.0.take() {
            return Poll::Ready(Ok(x));
        }
        if v.2 {
            return Poll::Ready(Err(JoinError(())));
        }
        v.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let slot = Rc::new(Slot { v: UnsafeCell::new((None, None, false)) });
    let s2 = Rc::clone(&slot);
    let id = crate::sim::add_task(Box::pin(async move {
        let r = f.await;
        let v = unsafe { &mut *s2.v.get() };
        v.0 = Some(r);
        if let Some(w) = v.1.take() {
            w.wake();
        }
    }));
    JoinHandle { slot, id }
}
/// Yields.  A task that yields is polled again when something wakes it, or when the runnable tasks are
/// done and something has changed since.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            let s = crate::sim::sim();
            let c = s.cur;
            match s.tasks.get_mut(c) {
                Some(t) => t.yielded = Some(s.progress),
                None => cx.waker().wake_by_ref(),
            }
            Poll::Pending
        }
    }
    Y(false).await
}
