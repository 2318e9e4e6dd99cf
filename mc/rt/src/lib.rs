//! Runtime of the explorer: the `__tsan_*` callbacks emitted into congee and the harness, a
//! fiber scheduler, and a stateless model checker (source-DPOR with sleep sets) on top of it.
//! Everything runs on one OS thread; this crate itself is not instrumented.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod arena;
pub mod callbacks;
pub mod engine;
pub mod fiber;
pub mod globals;
pub mod sys;
pub mod weak;

pub use engine::*;
