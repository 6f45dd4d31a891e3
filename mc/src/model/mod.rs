pub mod bits;
pub mod cells;
pub mod boc;
pub mod dict;
pub mod merkle;
