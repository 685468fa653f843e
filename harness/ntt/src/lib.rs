#![allow(clippy::all, unused)]
mod fold;
mod ntt;
