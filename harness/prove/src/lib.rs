#![allow(clippy::all, unused)]
mod mock;
mod cp;
mod sumcheck;
mod gkr;
