prop='C27'
needs='two hives over the same bytes, each with a handle of the same value'
breaks='value handles are compared without regard to the hive they belong to'
edits=[('src/key_value.rs','''        ptr::eq(self.hive, other.hive)
            && self.header_range''','''        ptr::eq(&*self.hive.data, &*other.hive.data)
            && self.header_range''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"NAME", 1, 0x80000004, 5, 4);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let h1 = nt_hive::Hive::new(&b[..]).unwrap();
    let h2 = nt_hive::Hive::new(&b[..]).unwrap();
    assert!(h1.root_key_node().unwrap() != h2.root_key_node().unwrap());
    let (a, b) = (h1.root_key_node().unwrap(), h2.root_key_node().unwrap());
    assert!(a.value("name").unwrap().unwrap() == a.value("NAME").unwrap().unwrap());
    assert!(a.value("name").unwrap().unwrap() != b.value("name").unwrap().unwrap());
}
'''
