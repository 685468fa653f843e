#![allow(incomplete_features, unused, clippy::all)]
mod scalar;
mod tower;
