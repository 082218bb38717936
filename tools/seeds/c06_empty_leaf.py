prop='C06'
needs='an index root one of whose leaves is an empty hash leaf'
breaks='an empty leaf below an index root is accepted when it has room for an entry'
edits=[('src/leaf.rs','''        if count == 0 {''','''        if count == 0 && subkeys_list.data_range.len() < mem::size_of::<HashLeafItem>() {''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&key(b"c"));
    let e = h.cell(b"lh\0\0............");
    let f = h.lh(&[c]);
    let l = h.ri(&[e, f]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subkeys().unwrap().unwrap().next().unwrap().is_err());
}
'''
