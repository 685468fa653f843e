#![allow(clippy::all, unused)]
mod arith;
mod mle;
mod uni;
