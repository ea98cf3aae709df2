//! RwLock and Mutex (FIFO-fair, write-preferring through the queue, as tokio documents), mpsc, oneshot, Notify.
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// One waiter of a lock.
struct Wait {
    id: u64,
    write: bool,
    granted: bool,
    waker: Option<Waker>,
}
struct LockState {
    readers: usize,
    writer: bool,
    q: VecDeque<Wait>,
    next: u64,
}
struct Raw(UnsafeCell<LockState>);
unsafe impl Send for Raw {}
unsafe impl Sync for Raw {}
impl Raw {
    fn new() -> Raw {
        Raw(UnsafeCell::new(LockState { readers: 0, writer: false, q: VecDeque::new(), next: 0 }))
    }
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut LockState {
        unsafe { &mut *self.0.get() }
    }
    fn try_take(&self, write: bool) -> bool {
        let s = self.s();
        if !s.q.is_empty() || s.writer || (write && s.readers > 0) {
            return false;
        }
        if write {
            s.writer = true
        } else {
            s.readers += 1
        }
        true
    }
    fn release(&self, write: bool) {
        let s = self.s();
        if write {
            s.writer = false
        } else {
            s.readers -= 1
        }
        self.grant();
    }
    fn grant(&self) {
        let s = self.s();
        for w in s.q.iter_mut() {
            if w.granted {
                continue;
            }
            if s.writer || (w.write && s.readers > 0) {
                break;
            }
            if w.write {
                s.writer = true
            } else {
                s.readers += 1
            }
            w.granted = true;
            if let Some(k) = w.waker.take() {
                k.wake();
            }
        }
    }
}
struct Acquire<'a> {
    l: &'a Raw,
    write: bool,
    id: Option<u64>,
    done: bool,
}
impl Future for Acquire<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.id {
            None => {
                if self.l.try_take(self.write) {
                    self.done = true;
                    return Poll::Ready(());
                }
                let s = self.l.s();
                let id = s.next;
                s.next += 1;
                s.q.push_back(Wait { id, write: self.write, granted: false, waker: Some(cx.waker().clone()) });
                self.id = Some(id);
                Poll::Pending
            }
            Some(id) => {
                let s = self.l.s();
                let k = match s.q.iter().position(|w| w.id == id) {
                    Some(k) => k,
                    None => return Poll::Pending,
                };
                if s.q[k].granted {
                    s.q.remove(k);
                    self.done = true;
                    return Poll::Ready(());
                }
                s.q[k].waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Acquire<'_> {
    fn drop(&mut self) {
        if self.done {
            return;
        }
        if let Some(id) = self.id {
            let s = self.l.s();
            if let Some(k) = s.q.iter().position(|w| w.id == id) {
                let g = s.q[k].granted;
                s.q.remove(k);
                if g {
                    self.l.release(self.write);
                } else {
                    self.l.grant();
                }
            }
        }
    }
}
#[derive(Debug)]
pub struct TryLockError(());
impl std::fmt::Display for TryLockError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("operation would block")
    }
}
impl std::error::Error for TryLockError {}

pub struct RwLock<T: ?Sized> {
    l: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub fn new(v: T) -> RwLock<T> {
        RwLock { l: Raw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        Acquire { l: &self.l, write: false, id: None, done: false }.await;
        RwLockReadGuard(self)
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        Acquire { l: &self.l, write: true, id: None, done: false }.await;
        RwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        if self.l.try_take(false) { Ok(RwLockReadGuard(self)) } else { Err(TryLockError(())) }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        if self.l.try_take(true) { Ok(RwLockWriteGuard(self)) } else { Err(TryLockError(())) }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.l.release(false)
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.l.release(true)
    }
}

pub struct Mutex<T: ?Sized> {
    l: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: ?Sized + Send> Sync for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub fn new(v: T) -> Mutex<T> {
        Mutex { l: Raw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        Acquire { l: &self.l, write: true, id: None, done: false }.await;
        MutexGuard(self)
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        if self.l.try_take(true) { Ok(MutexGuard(self)) } else { Err(TryLockError(())) }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.l.release(true)
    }
}

pub struct Notify {
    permit: Cell<bool>,
    q: UnsafeCell<VecDeque<(u64, bool, Option<Waker>)>>,
    next: Cell<u64>,
}
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl std::fmt::Debug for Notify {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Notify")
    }
}
impl Default for Notify {
    fn default() -> Self {
        Notify::new()
    }
}
pub struct Notified<'a>(&'a Notify, Option<u64>);
impl Notify {
    pub fn new() -> Notify {
        Notify { permit: Cell::new(false), q: UnsafeCell::new(VecDeque::new()), next: Cell::new(0) }
    }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<(u64, bool, Option<Waker>)> {
        unsafe { &mut *self.q.get() }
    }
    pub fn notify_one(&self) {
        for w in self.q().iter_mut() {
            if !w.1 {
                w.1 = true;
                if let Some(k) = w.2.take() {
                    k.wake()
                }
                return;
            }
        }
        self.permit.set(true);
    }
    pub fn notify_waiters(&self) {
        for w in self.q().iter_mut() {
            w.1 = true;
            if let Some(k) = w.2.take() {
                k.wake()
            }
        }
    }
    pub fn notified(&self) -> Notified<'_> {
        Notified(self, None)
    }
}
impl Future for Notified<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.1 {
            None => {
                if self.0.permit.replace(false) {
                    return Poll::Ready(());
                }
                let id = self.0.next.get();
                self.0.next.set(id + 1);
                self.0.q().push_back((id, false, Some(cx.waker().clone())));
                self.1 = Some(id);
                Poll::Pending
            }
            Some(id) => {
                let q = self.0.q();
                match q.iter().position(|w| w.0 == id) {
                    Some(k) if q[k].1 => {
                        q.remove(k);
                        Poll::Ready(())
                    }
                    Some(k) => {
                        q[k].2 = Some(cx.waker().clone());
                        Poll::Pending
                    }
                    None => Poll::Ready(()),
                }
            }
        }
    }
}
impl Drop for Notified<'_> {
    fn drop(&mut self) {
        if let Some(id) = self.1 {
            self.0.q().retain(|w| w.0 != id);
        }
    }
}

pub mod mpsc {
    use super::*;
    use std::rc::Rc;
    pub mod error {
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("SendError")
            }
        }
        impl<T> std::fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> TrySendError<T> {
            pub fn into_inner(self) -> T {
                match self {
                    TrySendError::Full(t) | TrySendError::Closed(t) => t,
                }
            }
        }
        impl<T> std::fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(match self {
                    TrySendError::Full(_) => "Full",
                    TrySendError::Closed(_) => "Closed",
                })
            }
        }
        impl<T> std::fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(match self {
                    TrySendError::Full(_) => "no available capacity",
                    TrySendError::Closed(_) => "channel closed",
                })
            }
        }
        impl<T> std::error::Error for TrySendError<T> {}
        #[derive(Debug, PartialEq, Eq, Clone, Copy)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
        impl std::fmt::Display for TryRecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("receiving failed")
            }
        }
        impl std::error::Error for TryRecvError {}
    }
    use error::*;

    struct SWait {
        id: u64,
        granted: bool,
        waker: Option<Waker>,
    }
    struct St<T> {
        q: VecDeque<T>,
        /// Permits: free capacity not yet handed to a waiting sender.
        free: usize,
        senders: usize,
        closed: bool,
        rx: Option<Waker>,
        wait: VecDeque<SWait>,
        next: u64,
        cap: usize,
    }
    struct Chan<T>(UnsafeCell<St<T>>);
    unsafe impl<T> Send for Chan<T> {}
    unsafe impl<T> Sync for Chan<T> {}
    impl<T> Chan<T> {
        #[allow(clippy::mut_from_ref)]
        fn s(&self) -> &mut St<T> {
            unsafe { &mut *self.0.get() }
        }
        fn put(&self, v: T) {
            let s = self.s();
            s.q.push_back(v);
            if let Some(w) = s.rx.take() {
                w.wake()
            }
        }
        fn give(&self) {
            let s = self.s();
            for w in s.wait.iter_mut() {
                if !w.granted {
                    w.granted = true;
                    if let Some(k) = w.waker.take() {
                        k.wake()
                    }
                    return;
                }
            }
            s.free += 1;
        }
    }
    pub struct Sender<T>(Rc<Chan<T>>);
    pub struct Receiver<T>(Rc<Chan<T>>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Receiver")
        }
    }
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        assert!(n > 0, "mpsc bounded channel requires buffer > 0");
        let c = Rc::new(Chan(UnsafeCell::new(St {
            q: VecDeque::new(),
            free: n,
            senders: 1,
            closed: false,
            rx: None,
            wait: VecDeque::new(),
            next: 0,
            cap: n,
        })));
        (Sender(Rc::clone(&c)), Receiver(c))
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.s().senders += 1;
            Sender(Rc::clone(&self.0))
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let s = self.0.s();
            s.senders -= 1;
            if s.senders == 0 {
                if let Some(w) = s.rx.take() {
                    w.wake()
                }
            }
        }
    }
    struct Send_<'a, T> {
        c: &'a Chan<T>,
        id: Option<u64>,
        done: bool,
    }
    impl<T> Future for Send_<'_, T> {
        type Output = bool;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
            let s = self.c.s();
            if s.closed {
                return Poll::Ready(false);
            }
            match self.id {
                None => {
                    if s.free > 0 {
                        s.free -= 1;
                        self.done = true;
                        return Poll::Ready(true);
                    }
                    let id = s.next;
                    s.next += 1;
                    s.wait.push_back(SWait { id, granted: false, waker: Some(cx.waker().clone()) });
                    self.id = Some(id);
                    Poll::Pending
                }
                Some(id) => match s.wait.iter().position(|w| w.id == id) {
                    Some(k) if s.wait[k].granted => {
                        s.wait.remove(k);
                        self.done = true;
                        Poll::Ready(true)
                    }
                    Some(k) => {
                        s.wait[k].waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                    None => Poll::Ready(false),
                },
            }
        }
    }
    impl<T> Drop for Send_<'_, T> {
        fn drop(&mut self) {
            if let (false, Some(id)) = (self.done, self.id) {
                let s = self.c.s();
                if let Some(k) = s.wait.iter().position(|w| w.id == id) {
                    let g = s.wait[k].granted;
                    s.wait.remove(k);
                    if g {
                        self.c.give();
                    }
                }
            }
        }
    }
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
            if (Send_ { c: &self.0, id: None, done: false }).await {
                self.0.put(v);
                Ok(())
            } else {
                Err(SendError(v))
            }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            let s = self.0.s();
            if s.closed {
                return Err(TrySendError::Closed(v));
            }
            if s.free == 0 {
                return Err(TrySendError::Full(v));
            }
            s.free -= 1;
            self.0.put(v);
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            self.0.s().closed
        }
        pub fn capacity(&self) -> usize {
            self.0.s().free
        }
        pub fn max_capacity(&self) -> usize {
            self.0.s().cap
        }
        pub fn same_channel(&self, o: &Sender<T>) -> bool {
            Rc::ptr_eq(&self.0, &o.0)
        }
        pub async fn closed(&self) {
            while !self.0.s().closed {
                crate::task::yield_now().await;
            }
        }
    }
    impl<T> Receiver<T> {
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let s = self.0.s();
            if let Some(v) = s.q.pop_front() {
                self.0.give();
                return Poll::Ready(Some(v));
            }
            if s.senders == 0 || (s.closed && s.wait.iter().all(|w| !w.granted)) {
                return Poll::Ready(None);
            }
            s.rx = Some(cx.waker().clone());
            Poll::Pending
        }
        pub async fn recv(&mut self) -> Option<T> {
            std::future::poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            let s = self.0.s();
            match s.q.pop_front() {
                Some(v) => {
                    self.0.give();
                    Ok(v)
                }
                None if s.senders == 0 || s.closed => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn close(&mut self) {
            let s = self.0.s();
            s.closed = true;
            for w in s.wait.iter_mut() {
                if let Some(k) = w.waker.take() {
                    k.wake()
                }
            }
        }
        pub fn is_empty(&self) -> bool {
            self.0.s().q.is_empty()
        }
        pub fn len(&self) -> usize {
            self.0.s().q.len()
        }
        pub fn is_closed(&self) -> bool {
            let s = self.0.s();
            s.closed || s.senders == 0
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.close();
            let q = std::mem::take(&mut self.0.s().q);
            drop(q);
        }
    }

    pub struct UnboundedSender<T>(Sender<T>);
    pub struct UnboundedReceiver<T>(Receiver<T>);
    impl<T> std::fmt::Debug for UnboundedSender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("UnboundedSender")
        }
    }
    impl<T> std::fmt::Debug for UnboundedReceiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("UnboundedReceiver")
        }
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (s, r) = channel(usize::MAX >> 3);
        (UnboundedSender(s), UnboundedReceiver(r))
    }
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            UnboundedSender(self.0.clone())
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.try_send(v).map_err(|e| SendError(e.into_inner()))
        }
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
    }
    impl<T> UnboundedReceiver<T> {
        pub async fn recv(&mut self) -> Option<T> {
            self.0.recv().await
        }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            self.0.try_recv()
        }
        pub fn close(&mut self) {
            self.0.close()
        }
    }
}

pub mod oneshot {
    use super::*;
    use std::rc::Rc;
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub struct RecvError(pub(crate) ());
        impl std::fmt::Display for RecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl std::error::Error for RecvError {}
    }
    struct St<T> {
        v: Option<T>,
        tx: bool,
        rx: bool,
        w: Option<Waker>,
    }
    pub struct Sender<T>(Rc<UnsafeCell<St<T>>>);
    pub struct Receiver<T>(Rc<UnsafeCell<St<T>>>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    impl<T> Unpin for Receiver<T> {}
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Receiver")
        }
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Rc::new(UnsafeCell::new(St { v: None, tx: true, rx: true, w: None }));
        (Sender(Rc::clone(&c)), Receiver(c))
    }
    impl<T> Sender<T> {
        pub fn send(self, v: T) -> Result<(), T> {
            let s = unsafe { &mut *self.0.get() };
            if !s.rx {
                return Err(v);
            }
            s.v = Some(v);
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            unsafe { !(*self.0.get()).rx }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let s = unsafe { &mut *self.0.get() };
            s.tx = false;
            if let Some(w) = s.w.take() {
                w.wake()
            }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let s = unsafe { &mut *self.0.get() };
            s.rx = false;
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let s = unsafe { &mut *self.0.get() };
            if let Some(v) = s.v.take() {
                return Poll::Ready(Ok(v));
            }
            if !s.tx {
                return Poll::Ready(Err(error::RecvError(())));
            }
            s.w = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
