//! Real channels whose senders are scheduling points.
pub use tokio_real::sync::*;

pub mod mpsc {
    use std::ops::{Deref, DerefMut};
    use std::task::{Context, Poll};
    pub use tokio_real::sync::mpsc::{error, OwnedPermit, Permit, WeakSender, WeakUnboundedSender};

    macro_rules! receiver {
        ($name:ident) => {
            /// Receives within the budget of the task.
            #[derive(Debug)]
            pub struct $name<T>(tokio_real::sync::mpsc::$name<T>);
            impl<T> Deref for $name<T> {
                type Target = tokio_real::sync::mpsc::$name<T>;
                fn deref(&self) -> &Self::Target {
                    &self.0
                }
            }
            impl<T> DerefMut for $name<T> {
                fn deref_mut(&mut self) -> &mut Self::Target {
                    &mut self.0
                }
            }
            impl<T> $name<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    crate::mc::coop_future(self.0.recv()).await
                }
                pub async fn recv_many(&mut self, b: &mut Vec<T>, n: usize) -> usize {
                    crate::mc::coop_future(self.0.recv_many(b, n)).await
                }
                pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                    crate::mc::coop(cx, |cx| self.0.poll_recv(cx))
                }
            }
        };
    }
    receiver!(Receiver);
    receiver!(UnboundedReceiver);

    pub struct Sender<T>(tokio_real::sync::mpsc::Sender<T>);
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> Deref for Sender<T> {
        type Target = tokio_real::sync::mpsc::Sender<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            crate::mc::point();
            crate::mc::coop_future(self.0.send(v)).await
        }
        pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
            crate::mc::point();
            self.0.try_send(v)
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
        pub async fn send_timeout(&self, v: T, d: std::time::Duration) -> Result<(), error::SendTimeoutError<T>> {
            crate::mc::point();
            match crate::time::timeout(d, self.0.reserve()).await {
                Err(_) => Err(error::SendTimeoutError::Timeout(v)),
                Ok(Err(_)) => Err(error::SendTimeoutError::Closed(v)),
                Ok(Ok(p)) => {
                    p.send(v);
                    Ok(())
                }
            }
        }
        pub async fn reserve_owned(self) -> Result<OwnedPermit<T>, error::SendError<()>> {
            self.0.reserve_owned().await
        }
    }

    pub struct UnboundedSender<T>(tokio_real::sync::mpsc::UnboundedSender<T>);
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            UnboundedSender(self.0.clone())
        }
    }
    impl<T> std::fmt::Debug for UnboundedSender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("UnboundedSender")
        }
    }
    impl<T> Deref for UnboundedSender<T> {
        type Target = tokio_real::sync::mpsc::UnboundedSender<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            crate::mc::point();
            self.0.send(v)
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
    }

    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (tx, rx) = tokio_real::sync::mpsc::channel(n);
        (Sender(tx), Receiver(rx))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (tx, rx) = tokio_real::sync::mpsc::unbounded_channel();
        (UnboundedSender(tx), UnboundedReceiver(rx))
    }
}

pub mod broadcast {
    use std::ops::Deref;
    pub use tokio_real::sync::broadcast::{error, Receiver};

    /// Sending is a scheduling point in the pica library only: the servers
    /// send while they hold locks.
    pub struct Sender<T>(tokio_real::sync::broadcast::Sender<T>);
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> Deref for Sender<T> {
        type Target = tokio_real::sync::broadcast::Sender<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> Sender<T> {
        #[track_caller]
        pub fn send(&self, v: T) -> Result<usize, error::SendError<T>> {
            crate::mc::library_point(std::panic::Location::caller());
            let r = self.0.send(v);
            crate::mc::library_point(std::panic::Location::caller());
            r
        }
        pub fn new(n: usize) -> Self
        where
            T: Clone,
        {
            Sender(tokio_real::sync::broadcast::Sender::new(n))
        }
    }

    #[track_caller]
    pub fn channel<T: Clone>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (tx, rx) = tokio_real::sync::broadcast::channel(n);
        (Sender(tx), rx)
    }
}
