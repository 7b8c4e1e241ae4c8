//@mod crate
#![feature(allocator_api)]
use vstd::prelude::*;
fn main() {}

verus! { broadcast use crate::vx::group_vx; global size_of usize == 8; }
