#![allow(clippy::all, unused)]
mod mock;
mod ec;
mod ecp;
mod fri;
mod ecg;
