//! Contracts decided by Kani: loop-free functions, every input symbolic over its whole domain.
#![cfg(kani)]
mod c05;
mod c11;
mod c15;
