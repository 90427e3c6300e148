//! The modules of the example, compiled from /repo (see build.rs).
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
