prop='C27'
needs='two different keys whose cells are equally long and whose names are equal'
breaks='key handles are compared by name and cell size instead of by position'
edits=[('src/key_node.rs','''        ptr::eq(self.hive, other.hive) && self.item_range == other.item_range''','''        if !ptr::eq(self.hive, other.hive) || self.item_range.data_range.len() != other.item_range.data_range.len() {
            return false;
        }

        match (self.name(), other.name()) {
            (Ok(a), Ok(b)) => a == b,
            _ => self.item_range == other.item_range,
        }''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let a = h.nk(&key(b"same"));
    let l = h.lf(&[a]);
    let p = h.nk(&Key { nsub: 1, sub: l, ..key(b"same") });
    let l = h.lf(&[p]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    let x = k.subkey("same").unwrap().unwrap();
    let y = x.subkey("same").unwrap().unwrap();
    assert!(x == k.subkeys().unwrap().unwrap().next().unwrap().unwrap());
    assert!(x != y);
}
'''
