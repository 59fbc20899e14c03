pub use std::{assert_eq, assert_ne};
