prop='C13'
needs='an index root whose first leaf contains an unreadable key followed by readable ones'
breaks='after an unreadable key the rest of its leaf is skipped'
edits=[('src/index_root.rs','''                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));''','''                    let key_node = KeyNode::from_leaf_item_range(self.hive, leaf_item_range);
                    if key_node.is_err() {
                        self.leaf_item_ranges = None;
                    }
                    return Some(key_node);''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&key(b"c"));
    let e = h.lf(&[4, c, c]);
    let l = h.ri(&[e]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.subkeys().unwrap().unwrap().count(), 3);
}
'''
