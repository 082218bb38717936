//! Positive examples for the rules of tools/structural.py.
use std::cell::Cell;
use std::sync::atomic::AtomicUsize;
use std::sync::Mutex;
use zerocopy::*;

pub static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static TABLE: Mutex<Option<u8>> = Mutex::new(None);
pub struct Cached<'a> { pub hits: Cell<u32>, pub inner: &'a [u8] }
pub struct Behind<'a> { pub seen: &'a Inner }
pub struct Inner { pub n: std::cell::RefCell<Option<u8>> }

pub fn block(b: &[u8]) -> u8 { unsafe { *b.get_unchecked(0) } }
pub unsafe fn func() {}
pub struct S(*mut u8);
unsafe impl Send for S {}

pub fn environment() -> bool { std::env::var("X").is_ok() }
pub fn clock() -> std::time::Instant { std::time::Instant::now() }
pub fn address(b: &[u8]) -> usize { b.as_ptr().addr() }

pub fn zero_copy(b: &[u8]) -> usize { helper(b) }
fn helper(b: &[u8]) -> usize { b.to_vec().len() }
pub struct It(pub u8);
impl Iterator for It { type Item = u8; fn next(&mut self) -> Option<u8> { let v = vec![self.0]; v.first().copied() } }
pub fn iter_alloc(i: It) -> Option<u8> { i.last() }

#[derive(FromBytes, KnownLayout, Immutable)]
#[repr(C)]
pub struct Aligned { pub a: u32 }
#[derive(FromBytes, KnownLayout, Immutable, Unaligned)]
#[repr(C)]
pub struct NativeField { pub a: byteorder::U32<byteorder::NativeEndian> }
#[derive(FromBytes, KnownLayout, Immutable, Unaligned)]
#[repr(C)]
pub struct BigField { pub a: byteorder::U32<byteorder::BigEndian> }
pub fn native(b: [u8; 4]) -> u32 { u32::from_ne_bytes(b) }
