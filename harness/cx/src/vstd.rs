//! The standard library as the queue sources see it: shared state belongs to the scheduler.
pub use std::*;
pub mod sync {
    pub use shuttle::sync::{Arc, Mutex, MutexGuard, Weak};
    pub use std::sync::*;
    pub mod atomic {
        pub use shuttle::sync::atomic::*;
    }
}
pub mod thread {
    pub use shuttle::thread::*;
}
pub mod hint {
    pub use shuttle::hint::*;
}
