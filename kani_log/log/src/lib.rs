//! Stand-in for the log crate: every level is enabled, the arguments are evaluated, nothing is printed.
#![no_std]

#[macro_export]
macro_rules! error {
    ($($arg:tt)*) => {{ let _ = ::core::format_args!($($arg)*); }};
}

#[macro_export]
macro_rules! warn {
    ($($arg:tt)*) => {{ let _ = ::core::format_args!($($arg)*); }};
}

#[macro_export]
macro_rules! info {
    ($($arg:tt)*) => {{ let _ = ::core::format_args!($($arg)*); }};
}

#[macro_export]
macro_rules! debug {
    ($($arg:tt)*) => {{ let _ = ::core::format_args!($($arg)*); }};
}

#[macro_export]
macro_rules! trace {
    ($($arg:tt)*) => {{ let _ = ::core::format_args!($($arg)*); }};
}
