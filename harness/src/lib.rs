//! Shared machinery of the checks: see ../DESIGN.md.
pub mod arb;
pub mod checks;
pub mod derived;
pub mod engine;
pub mod faults;
pub mod gen;
pub mod guard;
pub mod io;
pub mod model;
pub mod values;

pub use bsn1;
pub use engine::{Ctx, Fail, Property, Src, R};

/// Fails the case with a kind (kept while shrinking) and a message.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::Fail::new($kind, $crate::brief(format_args!($($arg)*))));
        }
    };
}

/// `ensure!` for equality, showing both sides.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $kind:expr) => {match (&$a, &$b) {
        (a, b) => {
            if !(*a == *b) {
                return Err($crate::Fail::new($kind, $crate::brief(format_args!("{:02x?} != {:02x?}", a, b))));
            }
        }
    }};
    ($a:expr, $b:expr, $kind:expr, $($arg:tt)*) => {match (&$a, &$b) {
        (a, b) => {
            if !(*a == *b) {
                return Err($crate::Fail::new($kind, $crate::brief(format_args!("{}: {:02x?} != {:02x?}", $crate::brief(format_args!($($arg)*)), a, b))));
            }
        }
    }};
}

/// `format!` which stops after some 4000 octets.
pub fn brief(args: std::fmt::Arguments) -> String {
    struct Cut(String);
    impl std::fmt::Write for Cut {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() > 4000 {
                self.0.push_str("...");
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut c = Cut(String::new());
    let _ = std::fmt::write(&mut c, args);
    c.0
}

/// Whether `e` is one of the plain kinds `allowed`.
pub fn kind_ok(e: &bsn1::Error, allowed: &[model::E]) -> bool {
    let k = match e.root_cause() {
        bsn1::Error::UnterminatedBytes => model::E::Unterminated,
        bsn1::Error::RedundantBytes => model::E::Redundant,
        bsn1::Error::OverFlow => model::E::Overflow,
        bsn1::Error::IndefiniteLength => model::E::Indefinite,
        _ => return false,
    };
    allowed.contains(&k)
}
