//! Hive::new accepts exactly the hives whose base block is valid.
use crate::{sa, spec::*};
use nt_hive::*;
fn checksum(b: B) -> u32 {
    let mut x = 0u32;
    let mut i = 0;
    while i < 127 { x ^= u32le(b, 4 * i); i += 1; }
    if x == 0 { 1 } else if x == 0xffff_ffff { 0xffff_fffe } else { x }
}
fn valid(b: B) -> bool {
    b.len() >= 4096
        && b[0] == b'r' && b[1] == b'e' && b[2] == b'g' && b[3] == b'f'
        && u32le(b, 4) == u32le(b, 8)
        && u32le(b, 20) == 1 && u32le(b, 24) >= 3
        && u32le(b, 28) == 0 && u32le(b, 32) == 1
        && u32le(b, 40) % 4096 == 0 && u32le(b, 40) as usize <= b.len() - 4096
        && u32le(b, 44) == 1
        && u32le(b, 508) == checksum(b)
}
pub fn new_only_valid() { let b = sa::bytes(); if Hive::new(b).is_ok() { sa::check(valid(b), "Hive::new accepts only valid base blocks"); } }
pub fn new_every_valid() { let b = sa::bytes(); if Hive::new(b).is_err() { sa::check(!valid(b), "Hive::new accepts every valid base block"); } }
pub fn unvalidated() { let b = sa::bytes(); sa::check(Hive::without_validation(b).is_ok() == (b.len() >= 4096), "without_validation needs exactly a complete base block"); }
pub fn validate_only_valid() { let b = sa::bytes(); if let Ok(h) = Hive::without_validation(b) { if h.validate().is_ok() { sa::check(valid(b), "validate accepts only valid base blocks"); } } }
pub fn validate_every_valid() { let b = sa::bytes(); if let Ok(h) = Hive::without_validation(b) { if h.validate().is_err() { sa::check(!valid(b), "validate accepts every valid base block"); } } }
pub fn versions() { let b = sa::bytes(); if let Ok(h) = Hive::without_validation(b) { sa::check(h.major_version() == u32le(b, 20), "major version"); sa::check(h.minor_version() == u32le(b, 24), "minor version"); } }
