//! Command line options are what the harness sets.
use std::cell::RefCell;
thread_local!(static ARGS: RefCell<Vec<(&'static str, String)>> = RefCell::new(Vec::new()));
/// the options of the program (harness side)
pub fn set(a: Vec<(&'static str, String)>) {
    ARGS.with(|x| *x.borrow_mut() = a)
}
pub struct App;
impl App {
    pub fn from_yaml(_: &()) -> App {
        App
    }
    pub fn version(self, _: &str) -> App {
        self
    }
    pub fn version_short(self, _: &str) -> App {
        self
    }
    pub fn get_matches(self) -> ArgMatches {
        ArgMatches(ARGS.with(|x| x.borrow().clone()))
    }
}
pub struct ArgMatches(Vec<(&'static str, String)>);
impl ArgMatches {
    pub fn value_of<S: AsRef<str>>(&self, n: S) -> Option<&str> {
        self.0.iter().find(|x| x.0 == n.as_ref()).map(|x| x.1.as_str())
    }
    pub fn is_present<S: AsRef<str>>(&self, n: S) -> bool {
        self.0.iter().any(|x| x.0 == n.as_ref())
    }
}
#[macro_export]
macro_rules! load_yaml {
    ($f:expr) => {
        &()
    };
}
#[macro_export]
macro_rules! crate_version {
    () => {
        "0"
    };
}
