#![allow(clippy::all)]
#![allow(static_mut_refs)]
pub mod rt;
pub mod item;
pub mod model;
pub mod sys;
pub mod explore;
pub mod conc;
pub mod ring;
