//! Log macros that evaluate their arguments (as they are when a subscriber listens) and print nothing.
pub use tracing_attr::instrument;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
}
#[macro_export]
macro_rules! event_args {
    () => {};
    ($f:literal) => { let _ = ::core::format_args!($f); };
    ($f:literal, $($a:tt)*) => { let _ = ::core::format_args!($f, $($a)*); };
    (target: $t:expr, $($r:tt)*) => { $crate::event_args!($($r)*) };
    (parent: $t:expr, $($r:tt)*) => { let _ = &$t; $crate::event_args!($($r)*) };
    ($k:ident . $($r:tt)*) => { $crate::event_args!($($r)*) };
    ($k:literal = % $v:expr $(, $($r:tt)*)?) => { let _ = &$v; $($crate::event_args!($($r)*))? };
    ($k:literal = ? $v:expr $(, $($r:tt)*)?) => { let _ = &$v; $($crate::event_args!($($r)*))? };
    ($k:literal = $v:expr $(, $($r:tt)*)?) => { let _ = &$v; $($crate::event_args!($($r)*))? };
    ($k:ident = % $v:expr, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    ($k:ident = ? $v:expr, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    ($k:ident = $v:expr, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    ($k:ident = % $v:expr) => { let _ = &$v; };
    ($k:ident = ? $v:expr) => { let _ = &$v; };
    ($k:ident = $v:expr) => { let _ = &$v; };
    (% $v:expr, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    (? $v:expr, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    ($v:ident, $($r:tt)*) => { let _ = &$v; $crate::event_args!($($r)*) };
    (% $v:expr) => { let _ = &$v; };
    (? $v:expr) => { let _ = &$v; };
    ($v:ident) => { let _ = &$v; };
}
#[macro_export]
macro_rules! error { ($($a:tt)*) => {{ $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! warn { ($($a:tt)*) => {{ $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! info { ($($a:tt)*) => {{ $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! debug { ($($a:tt)*) => {{ $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! trace { ($($a:tt)*) => {{ $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! event { ($l:expr, $($a:tt)*) => {{ let _ = $l; $crate::event_args!($($a)*); }}; }
#[macro_export]
macro_rules! enabled { ($($a:tt)*) => { true }; }
#[macro_export]
macro_rules! span_args {
    (target: $t:expr, $($r:tt)*) => { $crate::span_args!($($r)*) };
    (parent: $t:expr, $($r:tt)*) => { let _ = &$t; $crate::span_args!($($r)*) };
    ($n:expr) => { let _ = $n; };
    ($n:expr, $($r:tt)*) => { let _ = $n; $crate::event_args!($($r)*); };
}
#[macro_export]
macro_rules! span {
    (target: $t:expr, $($a:tt)*) => { $crate::span!($($a)*) };
    (parent: $t:expr, $($a:tt)*) => { $crate::span!($($a)*) };
    ($l:expr, $($a:tt)*) => {{ let _ = $l; $crate::span_args!($($a)*); $crate::Span::none() }};
}
#[macro_export]
macro_rules! error_span { ($($a:tt)*) => {{ $crate::span_args!($($a)*); $crate::Span::none() }}; }
#[macro_export]
macro_rules! warn_span { ($($a:tt)*) => {{ $crate::span_args!($($a)*); $crate::Span::none() }}; }
#[macro_export]
macro_rules! info_span { ($($a:tt)*) => {{ $crate::span_args!($($a)*); $crate::Span::none() }}; }
#[macro_export]
macro_rules! debug_span { ($($a:tt)*) => {{ $crate::span_args!($($a)*); $crate::Span::none() }}; }
#[macro_export]
macro_rules! trace_span { ($($a:tt)*) => {{ $crate::span_args!($($a)*); $crate::Span::none() }}; }
/// A span that is nowhere.
#[derive(Clone, Debug)]
pub struct Span(());
pub struct Entered<'a>(&'a Span);
pub struct EnteredSpan(Span);
impl Span {
    pub fn none() -> Span {
        Span(())
    }
    pub fn current() -> Span {
        Span(())
    }
    pub fn enter(&self) -> Entered<'_> {
        Entered(self)
    }
    pub fn entered(self) -> EnteredSpan {
        EnteredSpan(self)
    }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn record<V>(&self, _: &str, _: V) -> &Span {
        self
    }
}
impl<'a> Drop for Entered<'a> {
    fn drop(&mut self) {
        let _ = self.0;
    }
}
impl EnteredSpan {
    pub fn exit(self) -> Span {
        self.0
    }
}
/// A future as it is.
pub trait Instrument: Sized {
    fn instrument(self, _: Span) -> Self {
        self
    }
    fn in_current_span(self) -> Self {
        self
    }
}
impl<T> Instrument for T {}
pub mod field {
    pub struct Empty;
    pub fn display<T>(t: T) -> T {
        t
    }
    pub fn debug<T>(t: T) -> T {
        t
    }
}
pub mod subscriber {
    #[derive(Debug)]
    pub struct SetGlobalDefaultError;
    pub fn set_global_default<S>(_: S) -> Result<(), SetGlobalDefaultError> {
        Ok(())
    }
}
