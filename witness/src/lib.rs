#![feature(formatting_options)]
#![allow(dead_code, unused_variables, clippy::all)]
pub mod vp;
pub mod adts;
pub mod dynamics;
pub mod hex;
pub mod zarith;
pub mod toplevel;
pub mod tags;
pub mod codec;
pub mod wire;
pub mod parsers;
pub mod targets;
pub mod values;
pub mod contents;
pub mod shown;
pub mod totality;
pub mod buffers;
