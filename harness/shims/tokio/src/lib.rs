//! Stand-in for tokio: what the code under test sees is tokio's interface; what runs below it is a
//! single-threaded executor whose scheduling, clock and connections belong to the harness.
#![allow(static_mut_refs)]
#[macro_use]
mod select;
pub mod io;
pub mod net;
pub mod sim;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};

#[macro_export]
macro_rules! pin {
    ($($x:ident),*) => { $( let mut $x = $x; #[allow(unused_mut)] let mut $x = unsafe { ::std::pin::Pin::new_unchecked(&mut $x) }; )* };
}

pub mod macros {
    pub mod support {
        pub use std::future::{poll_fn, Future, IntoFuture};
        pub use std::pin::Pin;
        pub use std::result::Result;
        pub use std::task::{ready, Context, Poll};
        /// The first branch `select!` polls: tokio draws it at random, here every choice is explored
        /// while the harness's budget lasts.
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::sim::decide(crate::sim::Why::Select, n as usize) as u32
        }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> {
            Poll::Ready(())
        }
    }
}

pub mod runtime {
    pub struct Handle;
}
pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending::<()>().await;
        Ok(())
    }
}
