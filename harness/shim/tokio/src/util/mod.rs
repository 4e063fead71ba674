cfg_io_driver! {
    pub(crate) mod bit;
    pub(crate) mod slab;
}

#[cfg(any(
    // io driver uses `WakeList` directly
    feature = "real-net",
    feature = "real-process",
    // `sync` enables `Notify` and `batch_semaphore`, which require `WakeList`.
    feature = "sync",
    // `fs` uses `batch_semaphore`, which requires `WakeList`.
    feature = "real-fs",
    // rt and signal use `Notify`, which requires `WakeList`.
    feature = "real-rt",
    feature = "real-signal",
))]
mod wake_list;
#[cfg(any(
    feature = "real-net",
    feature = "real-process",
    feature = "sync",
    feature = "real-fs",
    feature = "real-rt",
    feature = "real-signal",
))]
pub(crate) use wake_list::WakeList;

#[cfg(any(
    feature = "real-fs",
    feature = "real-net",
    feature = "real-process",
    feature = "real-rt",
    feature = "sync",
    feature = "real-signal",
    feature = "real-time",
))]
pub(crate) mod linked_list;

#[cfg(any(feature = "real-rt-multi-thread", feature = "macros"))]
mod rand;

cfg_rt! {
    mod wake;
    pub(crate) use wake::WakerRef;
    pub(crate) use wake::{waker_ref, Wake};

    mod sync_wrapper;
    pub(crate) use sync_wrapper::SyncWrapper;

    mod vec_deque_cell;
    pub(crate) use vec_deque_cell::VecDequeCell;
}

cfg_rt_multi_thread! {
    pub(crate) use self::rand::FastRand;

    mod try_lock;
    pub(crate) use try_lock::TryLock;
}

pub(crate) mod trace;

#[cfg(any(feature = "macros"))]
#[cfg_attr(not(feature = "macros"), allow(unreachable_pub))]
pub use self::rand::thread_rng_n;

#[cfg(any(
    feature = "real-rt",
    feature = "real-time",
    feature = "real-net",
    feature = "real-process",
    all(unix, feature = "real-signal")
))]
pub(crate) mod error;
