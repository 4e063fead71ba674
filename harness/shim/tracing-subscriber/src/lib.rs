//! A subscriber that does nothing (the stand-in of tracing has no subscribers).
pub mod filter {
    pub struct EnvFilter;
    impl EnvFilter {
        pub fn from_default_env() -> EnvFilter {
            EnvFilter
        }
    }
}
pub use filter::EnvFilter;
pub struct FmtSubscriber;
pub struct Builder;
impl FmtSubscriber {
    pub fn builder() -> Builder {
        Builder
    }
}
impl Builder {
    pub fn with_env_filter<T>(self, _: T) -> Builder {
        self
    }
    pub fn with_ansi(self, _: bool) -> Builder {
        self
    }
    pub fn finish(self) -> FmtSubscriber {
        FmtSubscriber
    }
    pub fn init(self) {}
}
