#![allow(incomplete_features, unused, clippy::all)]
mod packed;
mod ext;
