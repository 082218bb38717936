prop='C06'
needs='an index root that refers to another index root with a single entry'
breaks='an index root with one entry is read as a leaf where only leaves are allowed'
edits=[('src/subkeys_list.rs','''                if index_root_supported {
                    return Ok(());''','''                if index_root_supported || header.count.get() == 1 {
                    return Ok(());'''),
('src/leaf.rs','''        let leaf_type = LeafType::from_signature(&header.signature).unwrap();
        LeafItemRanges::new(''','''        let leaf_type = LeafType::from_signature(&header.signature).unwrap_or(LeafType::Index);
        LeafItemRanges::new(''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&key(b"c"));
    let ri = h.ri(&[c]);
    let l = h.ri(&[ri]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subkeys().unwrap().unwrap().next().unwrap().is_err());
}
'''
