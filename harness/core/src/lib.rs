#![allow(clippy::all, unused)]
mod transparent;
mod compiled;
mod ser;
mod comps;
