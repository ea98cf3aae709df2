pub mod sync {
    use std::cell::UnsafeCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll, Waker};
    struct Node {
        cancelled: bool,
        wakers: Vec<Waker>,
        children: Vec<Rc<UnsafeCell<Node>>>,
    }
    #[derive(Clone)]
    pub struct CancellationToken(Rc<UnsafeCell<Node>>);
    unsafe impl Send for CancellationToken {}
    unsafe impl Sync for CancellationToken {}
    impl std::fmt::Debug for CancellationToken {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("CancellationToken")
        }
    }
    impl Default for CancellationToken {
        fn default() -> Self {
            Self::new()
        }
    }
    fn cancel(n: &Rc<UnsafeCell<Node>>) {
        let s = unsafe { &mut *n.get() };
        s.cancelled = true;
        for w in s.wakers.drain(..) {
            w.wake()
        }
        for c in s.children.iter() {
            cancel(c)
        }
    }
    impl CancellationToken {
        pub fn new() -> Self {
            CancellationToken(Rc::new(UnsafeCell::new(Node { cancelled: false, wakers: Vec::new(), children: Vec::new() })))
        }
        pub fn child_token(&self) -> CancellationToken {
            let c = CancellationToken::new();
            let s = unsafe { &mut *self.0.get() };
            if s.cancelled {
                cancel(&c.0);
            } else {
                s.children.push(Rc::clone(&c.0));
            }
            c
        }
        pub fn cancel(&self) {
            cancel(&self.0)
        }
        pub fn is_cancelled(&self) -> bool {
            unsafe { (*self.0.get()).cancelled }
        }
        pub fn cancelled(&self) -> WaitForCancellation {
            WaitForCancellation(self.clone())
        }
        pub fn cancelled_owned(self) -> WaitForCancellation {
            WaitForCancellation(self)
        }
    }
    pub struct WaitForCancellation(CancellationToken);
    impl Future for WaitForCancellation {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let s = unsafe { &mut *self.0 .0.get() };
            if s.cancelled {
                return Poll::Ready(());
            }
            s.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}
