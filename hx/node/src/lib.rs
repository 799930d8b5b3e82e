#![allow(warnings)]
pub mod addr;
pub mod state;
pub mod tx;
