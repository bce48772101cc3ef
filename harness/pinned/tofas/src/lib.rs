#![allow(dead_code)]

pub mod common;
pub mod delta_at;
pub mod earth;
pub mod calendar;
pub mod ellipsoid;
pub mod time;
pub mod frames;
pub mod locator;
pub mod fundargs;

mod epv00_data;
    

