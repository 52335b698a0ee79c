//! Stand-in for the colour-printing crate: records every message instead of colouring and printing it.
use std::cell::RefCell;
thread_local! { static OUT: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
pub fn record(s: String) { OUT.with(|o| o.borrow_mut().push(s)); }
/// every message printed since the last call
pub fn take() -> Vec<String> { OUT.with(|o| std::mem::take(&mut *o.borrow_mut())) }
#[macro_export] macro_rules! cprintln { () => { $crate::record(String::new()) }; ($($a:tt)*) => { $crate::record(format!($($a)*)) }; }
#[macro_export] macro_rules! cprint { ($($a:tt)*) => { $crate::record(format!($($a)*)) }; }
#[macro_export] macro_rules! ceprintln { () => { $crate::record(String::new()) }; ($($a:tt)*) => { $crate::record(format!($($a)*)) }; }
#[macro_export] macro_rules! cformat { ($($a:tt)*) => { format!($($a)*) }; }
#[macro_export] macro_rules! cwriteln { ($w:expr, $($a:tt)*) => { writeln!($w, $($a)*) }; }
