//! `std`, with the heap-backed containers the code under test uses replaced by inline ones.
//! Text that does not fit (error messages) is abstracted to arbitrary text.
pub use ::std::*;

mod strings;
mod vecs;

#[macro_export]
macro_rules! m_format {
    // Only inline captures, whose formatting has no effects.
    ($f:literal $(,)?) => {{
        if false {
            let _ = ::core::format_args!($f);
        }
        $crate::string::String::arbitrary()
    }};
    ($($t:tt)*) => {{
        let _ = ::core::format_args!($($t)*);
        $crate::string::String::arbitrary()
    }};
}
#[macro_export]
macro_rules! m_vec {
    () => { $crate::vec::Vec::new() };
    ($e:expr; $n:expr) => { $crate::vec::Vec::from_elem($e, $n) };
    ($($e:expr),+ $(,)?) => {{
        let mut v = $crate::vec::Vec::new();
        $(v.push($e);)+
        v
    }};
}
pub use m_format as format;
pub use m_vec as vec;

pub mod string {
    pub use super::strings::*;
}
pub mod vec {
    pub use super::vecs::*;
}
/// Glob-imported into the code under test: shadows the standard prelude.
pub mod model_prelude {
    pub use super::string::{MJoin, MStr, MToOwned, MToString, MToVec, String};
    pub use super::vec::Vec;
}
pub mod collections;
