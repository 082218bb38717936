prop='C22'
needs='a client that keeps the name of a value after the value handle it came from is gone'
breaks='the name of a value borrows the value handle instead of the hive'
rejected=True
edits=[('src/key_value.rs','''    pub fn name(&self) -> Result<NtHiveNameString<'h>> {''','''    pub fn name(&self) -> Result<NtHiveNameString> {''')]
demo=r'''
use nt_hive::*;
fn names<'a>(h: &'a Hive<&'a [u8]>) -> Vec<NtHiveNameString<'a>> {
    let mut out = vec![];
    for v in h.root_key_node().unwrap().values().unwrap().unwrap() { out.push(v.unwrap().name().unwrap()); }
    out
}
fn main() { let _ = names; }
'''
