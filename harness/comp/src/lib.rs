#![feature(trait_alias)]
mod ops;
