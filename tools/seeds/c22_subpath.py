prop='C22'
needs='a client that keeps the key found by subpath while the key it started from goes out of scope'
breaks='the key found by subpath borrows the key it was looked up from'
rejected=True
edits=[('src/key_node.rs','''    pub fn subpath(&self, path: &str) -> Option<Result<KeyNode<'h, B>>> {''','''    pub fn subpath<'s>(&'s self, path: &str) -> Option<Result<KeyNode<'s, B>>> {''')]
demo=r'''
use nt_hive::*;
fn find<'a>(h: &'a Hive<&'a [u8]>) -> KeyNode<'a, &'a [u8]> { h.root_key_node().unwrap().subpath("a\\b").unwrap().unwrap() }
fn main() { let _ = find; }
'''
