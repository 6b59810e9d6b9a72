//! Offline stand-in for async-channel: a queue whose futures are polled by the harness.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct Sender<T>(Arc<Mutex<VecDeque<T>>>);
pub struct Receiver<T>(Arc<Mutex<VecDeque<T>>>);
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver(self.0.clone())
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct RecvError;
#[derive(Clone, Copy, PartialEq)]
pub struct SendError<T>(pub T);
pub type TrySendError<T> = SendError<T>;
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("sending into a closed channel")
    }
}
impl std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("receiving from a closed channel")
    }
}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let q = Arc::new(Mutex::new(VecDeque::new()));
    (Sender(q.clone()), Receiver(q))
}
pub fn bounded<T>(_: usize) -> (Sender<T>, Receiver<T>) {
    unbounded()
}

impl<T> Sender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.lock().unwrap().push_back(t);
        Ok(())
    }
    pub fn send(&self, t: T) -> std::future::Ready<Result<(), SendError<T>>> {
        std::future::ready(self.try_send(t))
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, RecvError> {
        self.0.lock().unwrap().pop_front().ok_or(RecvError)
    }
    pub fn recv(&self) -> Recv<T> {
        Recv(self.0.clone())
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
pub struct Recv<T>(Arc<Mutex<VecDeque<T>>>);
impl<T> Future for Recv<T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Self::Output> {
        match self.0.lock().unwrap().pop_front() {
            Some(t) => Poll::Ready(Ok(t)),
            None => Poll::Pending,
        }
    }
}
