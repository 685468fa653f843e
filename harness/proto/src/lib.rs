#![allow(clippy::all, unused)]
mod mock;
mod hashing;
mod merkle;
mod transcript;
mod sumcheck;
