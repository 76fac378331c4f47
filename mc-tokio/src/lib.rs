//! Stands in for tokio in the h-mc build: traits, channels and utilities are those of the real tokio,
//! but tasks run as coroutines under a controlled scheduler (`mc`), sockets are in memory (`net`),
//! and `mc_std` replaces the locks and hash maps of std for the code under test.

#![allow(deprecated)]

pub mod fs;
pub mod mc;
pub mod mc_std;
pub mod net;
pub mod signal;
pub mod task;
pub mod time;

pub use real::{io, join, pin, task_local, try_join};
pub use task::spawn;

#[doc(hidden)]
pub use real as __real;

/// The real select!, but always in the order given: which branch is looked at first must not be random.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
    ($($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
}

pub use mc_tokio_macros::main;

pub mod runtime;

pub mod sync {
    pub use real::sync::*;

    use crate::mc;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    /// The real Notify, with scheduling points.
    #[derive(Debug, Default)]
    pub struct Notify(real::sync::Notify);

    impl Notify {
        pub fn new() -> Notify {
            Notify(real::sync::Notify::new())
        }
        pub const fn const_new() -> Notify {
            Notify(real::sync::Notify::const_new())
        }
        pub fn notified_owned(self: std::sync::Arc<Self>) -> Pin<Box<dyn Future<Output = ()> + Send + Sync>> {
            Box::pin(async move { self.notified().await })
        }
        pub fn notify_one(&self) {
            mc::point("notify");
            self.0.notify_one()
        }
        pub fn notify_last(&self) {
            mc::point("notify");
            self.0.notify_last()
        }
        pub fn notify_waiters(&self) {
            mc::point("notify");
            self.0.notify_waiters()
        }
        pub fn notified(&self) -> Notified<'_> {
            Notified { inner: self.0.notified(), fresh: true }
        }
    }

    pub struct Notified<'a> {
        inner: real::sync::futures::Notified<'a>,
        fresh: bool,
    }

    impl Notified<'_> {
        fn parts(self: Pin<&mut Self>) -> (Pin<&mut real::sync::futures::Notified<'_>>, &mut bool) {
            //structural pinning of `inner` only
            unsafe {
                let me = self.get_unchecked_mut();
                let inner: &mut real::sync::futures::Notified<'_> = std::mem::transmute(&mut me.inner);
                (Pin::new_unchecked(inner), &mut me.fresh)
            }
        }
        pub fn enable(self: Pin<&mut Self>) -> bool {
            self.parts().0.enable()
        }
    }

    impl Future for Notified<'_> {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let (inner, fresh) = self.parts();
            if *fresh {
                *fresh = false;
                mc::point("notified");
            }
            inner.poll(cx)
        }
    }
}
