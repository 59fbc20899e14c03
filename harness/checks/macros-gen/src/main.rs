#![allow(warnings)]
include!(env!("GEN_FILE"));
