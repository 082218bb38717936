prop='C13'
needs='a values list with a zero offset in it'
breaks='a values list entry of zero ends the iteration'
edits=[('src/key_values_list.rs','''        let key_value_offset = key_values_list_item_range.key_value_offset(self.hive);
''','''        let key_value_offset = key_values_list_item_range.key_value_offset(self.hive);
        if key_value_offset == 0 {
            return None;
        }
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"v", 1, 0x80000004, 65, 4);
    let (h, r) = with_values(h, &[v, 0, v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let mut it = hive.root_key_node().unwrap().values().unwrap().unwrap();
    let mut n = 0; while let Some(_) = it.next() { n += 1 }
    assert_eq!(n, 3);
}
'''
