@file src/typescript/field.rs
@mod typescript::field
@header
use crate::vx::*;
use crate::theory::*;
@fn compile_scalar
@tag C04
@spec
    ensures r@ =~= crate::typescript::scalar_text(*config, *scalar)
