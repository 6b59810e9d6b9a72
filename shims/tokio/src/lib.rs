//! Offline stand-in for tokio: tasks are collected per thread and polled by the harness.
//! `select!` looks at its branches in order; the harness decides the order of messages.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local!(static TASKS: RefCell<Vec<Task>> = RefCell::new(vec![]));

pub struct JoinHandle;
pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle {
    TASKS.with(|t| {
        t.borrow_mut().push(Box::pin(async move {
            f.await;
        }))
    });
    JoinHandle
}
pub fn take_tasks() -> Vec<Task> {
    TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

fn waker() -> Waker {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
}
/// one poll; None: not ready
pub fn poll_now<T>(f: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Option<T> {
    match f.as_mut().poll(&mut Context::from_waker(&waker())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

#[doc(hidden)]
pub enum Out<A, B, C, D> {
    A(A),
    B(B),
    C(C),
    D(D),
}
#[doc(hidden)]
pub use std::future::{pending, poll_fn};

/// A branch whose pattern does not match is out for the rest of the select.
#[macro_export]
macro_rules! select {
    ($p1:pat = $e1:expr => $b1:block $(,)? $p2:pat = $e2:expr => $b2:block $(,)?) => {
        $crate::select! {
            $p1 = $e1 => $b1
            $p2 = $e2 => $b2
            () = $crate::pending::<()>() => {}
            () = $crate::pending::<()>() => {}
        }
    };
    ($p1:pat = $e1:expr => $b1:block $(,)? $p2:pat = $e2:expr => $b2:block $(,)?
     $p3:pat = $e3:expr => $b3:block $(,)? $p4:pat = $e4:expr => $b4:block $(,)?) => {{
        let got = {
            let (mut f1, mut f2, mut f3, mut f4) = (Box::pin($e1), Box::pin($e2), Box::pin($e3), Box::pin($e4));
            let (mut d1, mut d2, mut d3, mut d4) = (false, false, false, false);
            $crate::poll_fn(|cx| {
                use std::future::Future;
                use std::task::Poll;
                #[allow(unreachable_patterns)]
                {
                    if !d1 { if let Poll::Ready(x) = f1.as_mut().poll(cx) { d1 = true; #[allow(unused_variables)] if matches!(&x, $p1) { return Poll::Ready($crate::Out::A(x)) } } }
                    if !d2 { if let Poll::Ready(x) = f2.as_mut().poll(cx) { d2 = true; #[allow(unused_variables)] if matches!(&x, $p2) { return Poll::Ready($crate::Out::B(x)) } } }
                    if !d3 { if let Poll::Ready(x) = f3.as_mut().poll(cx) { d3 = true; #[allow(unused_variables)] if matches!(&x, $p3) { return Poll::Ready($crate::Out::C(x)) } } }
                    if !d4 { if let Poll::Ready(x) = f4.as_mut().poll(cx) { d4 = true; #[allow(unused_variables)] if matches!(&x, $p4) { return Poll::Ready($crate::Out::D(x)) } } }
                }
                Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match got {
            $crate::Out::A($p1) => $b1,
            $crate::Out::B($p2) => $b2,
            $crate::Out::C($p3) => $b3,
            $crate::Out::D($p4) => $b4,
            _ => unreachable!(),
        }
    }};
}
