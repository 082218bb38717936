prop='C25'
needs='a hive whose bytes begin at an odd address'
breaks='the cell header is a host integer with an alignment of four'
edits=[('src/hive.rs','''#[derive(FromBytes, Immutable, IntoBytes, KnownLayout, Unaligned)]
#[repr(packed)]
struct CellHeader {
    size: I32<LittleEndian>,
}''','''#[derive(FromBytes, Immutable, IntoBytes, KnownLayout)]
#[repr(C, align(2))]
struct CellHeader {
    size: I32<LittleEndian>,
}''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&key(b"root"));
    let b = h.finish(r);
    let mut v = vec![0u8; b.len() + 8];
    for k in 0..8 {
        v[k..k + b.len()].copy_from_slice(&b);
        let hive = nt_hive::Hive::new(&v[k..k + b.len()]).unwrap();
        assert!(hive.root_key_node().unwrap().name().unwrap() == "root");
    }
}
'''
