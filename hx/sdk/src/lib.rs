#![allow(warnings)]
#![feature(trait_alias)]
pub mod alloc;
pub mod calls;
pub mod events;
pub mod hash;
pub mod merkle;
pub mod tapes;
pub mod vm;
