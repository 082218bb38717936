#![allow(unused)]
pub mod sa;
pub mod model;
pub mod c00;
pub mod c01;
#[macro_use] pub mod spec; pub mod c04; pub mod c05; pub mod c06; pub mod c07; pub mod c08; pub mod c09; pub mod c13;
pub mod c11;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c27;
pub mod c28;
pub mod upper;
