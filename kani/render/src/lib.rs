//! Kani contracts (loop-free or operand-width-bounded, full-domain symbolic inputs) on the real
//! functions of ass-renderer, compiled from /repo on every run.
#![allow(dead_code)]
#[cfg(kani)]
mod blend;
#[cfg(kani)]
mod region;
#[cfg(kani)]
mod anim;
#[cfg(kani)]
mod collide;
